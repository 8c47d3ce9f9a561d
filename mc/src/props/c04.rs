//! Fixed colours.
use crate::core::*;
use crate::model::posterize_px;
use crate::pipe::*;
use crate::pix::{self, canon, px, show_pal, show_px, Content};
use imagequant::{Attributes, Error, Histogram, HistogramEntry, Image, RGBA};

fn same(a: RGBA, b: RGBA) -> bool { canon(a) == canon(b) }
pub fn expected(fixed: &[RGBA], limit: usize) -> Vec<RGBA> {
    let mut v: Vec<RGBA> = vec![];
    for f in fixed { if !v.iter().any(|x| same(*x, *f)) { v.push(*f); } }
    v.truncate(limit);
    v
}
fn present(fixed: &[RGBA], limit: usize, bits: u8, pal: &[RGBA], when: &str) -> Result<(), String> {
    for f in expected(fixed, limit) {
        let want = if f.a == 0 { px(0, 0, 0, 0) } else { posterize_px(f, bits) };
        if !pal.iter().any(|p| same(*p, want)) { return Err(format!("fixed colour {} is not in the palette {when}: {}", show_px(&f), show_pal(pal))); }
    }
    Ok(())
}
fn judge(c: &Cfg, fixed: &[RGBA], o: &Out) -> Result<(), String> {
    if let Some((s, e)) = &o.err { return if c.legit(s, e) { Ok(()) } else { Err(format!("{s} failed: {e}")) }; }
    trace();
    present(fixed, c.colors as usize, c.post, &o.pal0, "before remapping")?;
    present(fixed, c.colors as usize, c.post, &o.pal, "after remapping")
}
fn check(c: &Cfg) -> Result<(), String> { let p = c.pixels(); judge(c, &c.fixed_colors(&p), &run_px(c, &p)) }

/// explicit list of fixed colours
fn check_list(c: &Cfg, fixed: &[RGBA]) -> Result<(), String> {
    let p = c.pixels();
    let a = c.attr();
    let e = |e: Error| format!("{e:?}");
    let mut img = Image::new(&a, p.clone(), c.w, c.h, c.gin).map_err(e)?;
    if let Some(m) = c.importance() { img.set_importance_map(m).map_err(e)?; }
    if let Some(b) = bg_pixels(c.bg, &p, c.w) { img.set_background(Image::new(&a, b, c.w, c.h, c.gin).map_err(e)?).map_err(e)?; }
    let q = match c.via {
        Via::Image => { for f in fixed { op(); img.add_fixed_color(*f).map_err(e)?; } a.quantize(&mut img) },
        Via::HistImage => {
            // some on the image, some on the histogram
            let mut h = Histogram::new(&a);
            let k = fixed.len() / 2;
            for f in &fixed[..k] { op(); h.add_fixed_color(*f, c.gin).map_err(e)?; }
            for f in &fixed[k..] { op(); img.add_fixed_color(*f).map_err(e)?; }
            h.add_image(&a, &mut img).map_err(e)?;
            h.quantize(&a)
        },
        Via::HistColors => {
            let mut h = Histogram::new(&a);
            for f in fixed { op(); h.add_fixed_color(*f, c.gin).map_err(e)?; }
            h.add_colors(&p.iter().map(|p| HistogramEntry { color: *p, count: 1 }).collect::<Vec<_>>(), c.gin).map_err(e)?;
            h.quantize(&a)
        },
    };
    op();
    let mut o = Out::default();
    let mut r = match q { Ok(r) => r, Err(e) => { o.err = Some(("quantize", format!("{e:?}"))); return judge(c, fixed, &o); } };
    c.configure(&mut r).map_err(e)?;
    o.pal0 = r.palette_vec();
    set_cpus(c.cpus);
    remap(&mut r, &mut img, &mut o).map_err(e)?;
    judge(c, fixed, &o)?;
    // remapping another picture keeps them too
    let q: Vec<RGBA> = p.iter().map(|x| px(x.b, x.r / 2, x.g, x.a)).collect();
    let mut other = Image::new(&a, q, c.w, c.h, c.gin).map_err(e)?;
    remap(&mut r, &mut other, &mut o).map_err(e)?;
    outcome(o.digest());
    judge(c, fixed, &o)
}

fn limits() -> Result<(), String> {
    let a = Attributes::new();
    let f = |i: usize| px(i as u8, (i >> 4) as u8, 200, 255);
    // image
    let mut img = Image::new(&a, vec![px(1, 2, 3, 255); 16], 4, 4, 0.).unwrap();
    for i in 0..256 { op(); img.add_fixed_color(f(i)).map_err(|e| format!("fixed colour {} refused: {e:?}", i + 1))?; }
    for i in 256..259 { if img.add_fixed_color(f(i)).is_ok() { return Err(format!("fixed colour {} was accepted by the image", i + 1)); } }
    // histogram
    let mut h = Histogram::new(&a);
    for i in 0..256 { op(); h.add_fixed_color(f(i), 0.).map_err(|e| format!("fixed colour {} refused by the histogram: {e:?}", i + 1))?; }
    for i in 256..259 { if h.add_fixed_color(f(i), 0.).is_ok() { return Err(format!("fixed colour {} was accepted by the histogram", i + 1)); } }
    // both together, all splits
    for in_h in 0..=256usize {
        for in_i in [0usize, 1, 2, 255 - in_h.min(255), 256 - in_h, 257 - in_h, 256] {
            if in_i > 256 { continue; }
            let mut h = Histogram::new(&a);
            for i in 0..in_h { h.add_fixed_color(f(i), 0.).map_err(|e| format!("{e:?}"))?; }
            let mut img = Image::new(&a, vec![px(1, 2, 3, 255); 16], 4, 4, 0.).unwrap();
            for i in 0..in_i { img.add_fixed_color(px((i % 256) as u8, 9, (i / 256) as u8, 255)).map_err(|e| format!("{e:?}"))?; }
            op();
            let r = h.add_image(&a, &mut img);
            let over = in_h + in_i > 256;
            if r.is_err() != over { return Err(format!("{in_h} fixed colours in the histogram and {in_i} in the image: {r:?}")); }
            trace();
        }
    }
    Ok(())
}

pub fn run(x: &Ctx) {
    let mut bases = vec![];
    for f in [Fixed::Foreign, Fixed::Dup, Fixed::Many(40), Fixed::Semi] { let mut b = base(); b.fixed = f; bases.push(b); }
    let mut b = base(); b.fixed = Fixed::Gray(256); b.colors = 256; b.content = Content::Noise; bases.push(b);
    let d: Vec<_> = dims().into_iter().enumerate().filter(|(i, _)| *i != 9).map(|x| x.1).collect();
    x.explore("deviations", &space_of(&bases, &d, x.q(2, 3)), |c| c.to_string(), check);
    // every sequence of fixed colours over a small alphabet
    let alpha = [px(255, 0, 0, 255), px(254, 0, 0, 255), px(9, 8, 7, 0), px(200, 100, 0, 0), px(10, 20, 30, 255), px(0, 255, 99, 77)];
    let mut seqs: Vec<Vec<RGBA>> = vec![vec![]];
    let mut last = seqs.clone();
    for _ in 0..x.q(3, 4) { last = last.iter().flat_map(|s| alpha.iter().map(move |a| { let mut s = s.clone(); s.push(*a); s })).collect(); seqs.extend(last.clone()); }
    let mut items = vec![];
    for s in &seqs {
        for (k, (content, colors)) in [(Content::TwoTone, 2u32), (Content::TwoTone, 3), (Content::AlphaExt, 4), (Content::Noise, 5), (Content::Transparent, 3), (Content::Flat, 256)].into_iter().enumerate() {
            for via in [Via::Image, Via::HistImage, Via::HistColors] { for speed in [3, 7, 10] {
                let mut c = base(); c.w = 6; c.h = 5; c.content = content; c.colors = colors; c.via = via; c.speed = speed; c.dither = if (k + speed as usize) % 2 == 0 { 0. } else { 1. };
                c.bg = if k == 3 && via == Via::Image { Bg::Shift } else { Bg::None };
                items.push((c, s.clone()));
            } }
        }
    }
    x.explore("all-sequences", &items, |i| format!("{} fixed {}", i.0, show_pal(&i.1)), |i| check_list(&i.0, &i.1));
    // every channel and alpha value as a fixed colour
    let mut items = vec![];
    for al in (0..=255u8).step_by(x.q(5, 1)) { for k in 0..3 { for (gin, speed, post) in [(0., 4, 0u8), (0.7, 8, 0), (0., 6, 2)] {
        let s: Vec<RGBA> = (0..=255u8).map(|v| match k { 0 => px(v, v, v, al), 1 => px(v, 0, 255 - v, al), _ => px(7, v, v / 2, al) }).collect();
        let mut c = base(); c.w = 8; c.h = 8; c.colors = 256; c.gin = gin; c.speed = speed; c.post = post; c.content = Content::Noise; c.dither = [1., 0., 0.5][k]; c.via = [Via::Image, Via::HistColors, Via::HistImage][k];
        items.push((c, s));
    } } }
    x.explore("all-values", &items, |i| format!("{} fixed {}", i.0, show_pal(&i.1)), |i| check_list(&i.0, &i.1));
    // more fixed colours than the limit, in every position
    let mut items = vec![];
    for n in [1usize, 2, 3, 5, 7, 8, 9, 16, 17, 31, 64, 200, 255, 256] { for lim in [2u32, 3, 5, 8, 16, 100, 255, 256] { for via in [Via::Image, Via::HistColors] { for q in [None, Some((0u8, 10u8)), Some((0, 80))] { for sp in [2, 5, 9] {
        let s: Vec<RGBA> = (0..n).map(|i| pix::sep(i * 3 + 1)).collect();
        let mut c = base(); c.colors = lim; c.via = via; c.quality = q; c.speed = sp; c.content = Content::Rgb; c.w = 12; c.h = 12;
        items.push((c, s));
    } } } } }
    x.explore("over-limit", &items, |i| format!("{} fixed {}", i.0, show_pal(&i.1)), |i| check_list(&i.0, &i.1));
    x.explore("refusal", &[()], |_| "more than 256 fixed colours".into(), |_| limits());
}
