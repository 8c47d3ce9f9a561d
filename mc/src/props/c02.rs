//! Palette size.
use crate::core::*;
use crate::pipe::*;
use crate::pix;

pub fn check(c: &Cfg) -> Result<(), String> {
    let p = c.pixels();
    let o = run_px(c, &p);
    if let Some((st, e)) = &o.err {
        return if c.legit(st, e) { Ok(()) } else { Err(format!("{st} failed: {e}")) };
    }
    trace();
    let mut set = std::collections::BTreeSet::new();
    let imp = c.importance();
    for (i, x) in p.iter().enumerate() { if imp.as_ref().map_or(true, |m| m[i] > 0) { set.insert(pix::canon(*x)); } }
    // with reduced precision a fixed colour can coexist with the image colour of the same precision cell
    let fixed = pix::distinct(&c.fixed_colors(&p));
    let bound = if c.post > 0 || c.speed >= 8 { set.len() + fixed.len() } else { set.extend(fixed); set.len() };
    for (when, pal) in [("before", &o.pal0), ("after", &o.pal)] {
        if pal.is_empty() { return Err(format!("empty palette {when} remapping")); }
        if pal.len() > c.colors as usize { return Err(format!("{} colours {when} remapping, limit {}", pal.len(), c.colors)); }
        if pal.len() > bound { return Err(format!("{} palette entries {when} remapping but only {} distinct input and fixed colours", pal.len(), bound)); }
    }
    if o.pal.len() != o.pal0.len() { return Err(format!("palette length changed by remapping: {} -> {}", o.pal0.len(), o.pal.len())); }
    Ok(())
}

pub fn run(x: &Ctx) {
    let f = |c: &Cfg| check(c);
    let mut b2 = base(); b2.content = pix::Content::NoiseA; b2.colors = 256; b2.w = 33; b2.h = 17;
    x.explore("deviations", &space(&[base(), b2], x.q(2, 3)), |c| c.to_string(), f);
    // every colour limit at every speed
    let d = vec![dim(&(2u32..=256).collect::<Vec<_>>(), |c, v| c.colors = v), dim(&(1..=10).collect::<Vec<_>>(), |c, v| c.speed = v), dim(&x.q(vec![pix::Content::Photo, pix::Content::Count(257)], vec![pix::Content::Photo, pix::Content::Count(257), pix::Content::NoiseA, pix::Content::Clusters(6), pix::Content::CountA(200)]), |c, v| c.content = v)];
    let mut b = base(); b.dither = 0.; b.w = 20; b.h = 20;
    x.explore("all-limits", &product(&b, &d), |c| c.to_string(), f);
    // fixed colours against limits
    let n: Vec<usize> = vec![1, 2, 3, 5, 8, 9, 16, 17, 100, 254, 255, 256];
    let d = vec![dim(&[2u32, 3, 4, 8, 16, 17, 255, 256], |c, v| c.colors = v), dim(&n, |c, v| c.fixed = Fixed::Many(v)), dim(&[1, 4, 7, 10], |c, v| c.speed = v), dim(&[None, Some((0u8, 20u8)), Some((0, 90)), Some((0, 100))], |c, v| c.quality = v), dim(&[pix::Content::Flat, pix::Content::Few(5), pix::Content::Noise], |c, v| c.content = v), dim(&[Via::Image, Via::HistColors], |c, v| c.via = v)];
    x.explore("fixed-vs-limit", &product(&b, &d), |c| c.to_string(), f);
}
