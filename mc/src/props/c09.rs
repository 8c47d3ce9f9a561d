//! Invisible RGB and opacity.
use crate::core::*;
use crate::pipe::*;
use crate::pix::{lcg, px, show_pal, Content};
use imagequant::{Attributes, Histogram, HistogramEntry, Image, RGBA};

fn hide(p: &[RGBA], k: usize) -> Vec<RGBA> {
    p.iter().enumerate().map(|(i, p)| if p.a != 0 { *p } else { match k { 0 => px(0, 0, 0, 0), 1 => px(255, 255, 255, 0), 2 => { let r = lcg(i as u64 * 3 + 11); px(r as u8, (r >> 8) as u8, (r >> 16) as u8, 0) }, _ => px((i % 256) as u8, 128, if i % 2 == 0 { 255 } else { 0 }, 0) } }).collect()
}
fn with_hidden(c: &Cfg, p: &[RGBA], k: usize) -> Out {
    // the background and fixed colours get their hidden values replaced as well
    let a = c.attr();
    let q = hide(p, k);
    let f = || -> Result<Out, imagequant::Error> {
        let mut img = Image::new(&a, q.clone(), c.w, c.h, c.gin)?;
        if let Some(m) = c.importance() { img.set_importance_map(m)?; }
        if let Some(b) = bg_pixels(c.bg, p, c.w) { img.set_background(Image::new(&a, hide(&b, k), c.w, c.h, c.gin)?)?; }
        let fx = hide(&c.fixed_colors(p), k);
        if c.via != Via::HistColors { for f in &fx { op(); img.add_fixed_color(*f)?; } }
        let mut o = Out::default();
        set_cpus(c.cpus);
        op();
        let r = match c.via {
            Via::HistColors => {
                let mut h = Histogram::new(&a);
                let imp = c.importance();
                h.add_colors(&q.iter().enumerate().map(|(i, p)| HistogramEntry { color: *p, count: imp.as_ref().map_or(1, |m| m[i] as u32) }).collect::<Vec<_>>(), if c.gin >= 1. { 0. } else { c.gin })?;
                for f in &fx { op(); h.add_fixed_color(*f, c.gin)?; }
                h.quantize(&a)
            },
            Via::HistImage => { let mut h = Histogram::new(&a); h.add_image(&a, &mut img)?; h.quantize(&a) },
            Via::Image => a.quantize(&mut img),
        };
        let mut r = match r { Ok(r) => r, Err(e) => { o.err = Some(("quantize", format!("{e:?}"))); return Ok(o); } };
        o.qerr = r.quantization_error(); o.qq = r.quantization_quality();
        c.configure(&mut r)?;
        o.pal0 = r.clone().palette_vec();
        remap(&mut r, &mut img, &mut o)?;
        Ok(o)
    };
    f().unwrap_or_else(|e| Out { err: Some(("?", format!("{e:?}"))), ..Out::default() })
}
fn check(c: &Cfg) -> Result<(), String> {
    let p = c.pixels();
    let o = with_hidden(c, &p, 0);
    outcome(o.digest());
    if let Some((s, e)) = &o.err { if !c.legit(s, e) { return Err(format!("{s}: {e}")); } }
    for k in 1..4 {
        let o2 = with_hidden(c, &p, k);
        if let Some(d) = o.differs(&o2, true) { return Err(format!("changing hidden RGB of transparent pixels (pattern {k}) changed the result: {d}")); }
        trace();
    }
    if o.err.is_some() { return Ok(()); }
    let fx = c.fixed_colors(&p);
    if p.iter().chain(&fx).all(|p| p.a == 255) { for (w, pal) in [("before", &o.pal0), ("after", &o.pal)] { if pal.iter().any(|p| p.a != 255) { return Err(format!("opaque image got a palette with transparency {w} remapping: {}", show_pal(pal))); } } }
    if p.iter().chain(&fx).all(|p| p.a == 0) { for pal in [&o.pal0, &o.pal] { if pal.iter().any(|p| p.a != 0) { return Err(format!("transparent image got a visible palette: {}", show_pal(pal))); } } }
    Ok(())
}
pub fn run(x: &Ctx) {
    let mut bases = vec![];
    for (ct, colors) in [(Content::Sparse, 8), (Content::Blob, 16), (Content::AlphaExt, 24), (Content::CountA(200), 256), (Content::Transparent, 4), (Content::Photo, 16), (Content::Noise, 200)] { let mut b = base(); b.content = ct; b.colors = colors; bases.push(b); }
    x.explore("deviations", &space(&bases, x.q(2, 3)), |c| c.to_string(), check);
    // every placement of transparent pixels in small images
    let mut items = vec![];
    for (w, h) in [(3usize, 2usize), (2, 4), (3, 3)] { for mask in 0..1u32 << (w * h) { for (speed, dither) in [(4, 1f32), (7, 0.), (9, 1.)] { items.push((w, h, mask, speed, dither)); } } }
    x.explore("all-placements", &items, |i| format!("{i:?}"), |&(w, h, mask, speed, dither)| {
        let mut c = base(); c.w = w; c.h = h; c.speed = speed; c.dither = dither; c.colors = 3;
        let p: Vec<RGBA> = (0..w * h).map(|i| px((i * 31) as u8, (200 - i * 9) as u8, 50, if mask >> i & 1 == 1 { 0 } else { 255 })).collect();
        let o = with_hidden(&c, &p, 0);
        if let Some(e) = &o.err { return Err(format!("{e:?}")); }
        for k in 1..4 { if let Some(d) = o.differs(&with_hidden(&c, &p, k), true) { return Err(d); } trace(); }
        outcome(o.digest());
        if mask == 0 && o.pal.iter().any(|p| p.a != 255) { return Err(show_pal(&o.pal)); }
        if mask == (1 << (w * h)) - 1 && o.pal.iter().any(|p| p.a != 0) { return Err(show_pal(&o.pal)); }
        Ok(())
    });
    let _ = Attributes::new();
}
