//! Posterization.
use crate::core::*;
use crate::model::*;
use crate::pipe::*;
use crate::pix::{px, show_pal, show_px, Content};
use imagequant::RGBA;
use std::collections::HashMap;

fn levels_ok(pal: &[RGBA], bits: u8, when: &str) -> Result<(), String> {
    for p in pal { if p.a > 0 && posterize_px(*p, bits) != *p { return Err(format!("palette entry {} {when} is not limited to {} bits per channel: {}", show_px(p), 8 - bits, show_pal(pal))); } }
    Ok(())
}
fn check_px(c: &Cfg, p: &[RGBA]) -> Result<(), String> {
    let o = run_px(c, p);
    if let Some((s, e)) = &o.err { return if c.legit(s, e) { Ok(()) } else { Err(format!("{s} failed: {e}")) }; }
    trace();
    levels_ok(&o.pal0, c.post, "before remapping")?;
    levels_ok(&o.pal, c.post, "after remapping")?;
    // few colours: nothing but the posterization is lost
    let bits = c.post.max(if c.speed >= 8 { 1 } else { 0 });
    let cell = |p: &RGBA| if p.a == 0 { [0; 4] } else { [p.r >> bits, p.g >> bits, p.b >> bits, p.a >> bits] };
    let mut cells: HashMap<[u8; 4], Vec<RGBA>> = Default::default();
    for q in p { let v = cells.entry(cell(q)).or_default(); if !v.contains(q) { v.push(*q); } }
    if cells.len() <= c.colors as usize && c.dither == 0. && c.quality.map_or(true, |q| q.1 == 100) && c.imp == Imp::None && c.fixed == Fixed::None && c.bg == Bg::None && c.gout.is_none() {
        let g = Gam::new(c.gin);
        let s = o.shown();
        for (i, a) in p.iter().enumerate() {
            let f = g.f(*a);
            let bound = cells[&cell(a)].iter().map(|q| diff(&f, &g.f(posterize_px(*q, c.post)))).fold(0., f64::max);
            let d = diff(&f, &g.f(s[i]));
            if d > bound * 1.0001 + super::c06::EPS { return Err(format!("pixel {i} {} is shown as {}, further than a posterized colour of its cell; palette {}", show_px(a), show_px(&s[i]), show_pal(&o.pal))); }
        }
    }
    Ok(())
}
pub fn run(x: &Ctx) {
    let mut bases = vec![];
    for n in 0..=4u8 { for ct in [Content::Photo, Content::NoiseA] { let mut b = base(); b.post = n; b.content = ct; b.colors = if n % 2 == 0 { 256 } else { 20 }; bases.push(b); } }
    let d: Vec<_> = dims().into_iter().enumerate().filter(|(i, _)| *i != 5).map(|x| x.1).collect();
    x.explore("deviations", &space_of(&bases, &d, x.q(2, 3)), |c| c.to_string(), |c| check_px(c, &c.pixels()));
    // all channel values, all bit depths, exact palettes
    let mut items = vec![];
    for post in 0..=4u8 { for speed in [1, 4, 7, 8, 10] { for k in 0..3 { for al in x.q(vec![255u8, 254, 200, 128, 17, 16, 8, 1], (1..=255).collect()) { for dither in [0f32, 1.] {
        let mut c = base(); c.w = 16; c.h = 16; c.colors = 256; c.post = post; c.speed = speed; c.dither = dither;
        items.push((c, (0..=255u8).map(|v| match k { 0 => px(v, v, v, al), 1 => px(v, 255 - v, v ^ 0x33, al), _ => px(0, v, 255, al) }).collect::<Vec<_>>()));
    } } } } }
    x.explore("all-values", &items, |i| format!("{} {}", i.0, show_pal(&i.1)), |i| check_px(&i.0, &i.1));
    // few colours at each depth
    let mut items = vec![];
    for post in 0..=4u8 { for speed in 1..=10 { for ct in [Content::Few(16), Content::Count(256), Content::CountA(17), Content::AlphaExt, Content::NearDup, Content::Dark, Content::Bright, Content::Sparse] { for shape in [(16usize, 16usize), (5, 3), (33, 9)] { for colors in [2u32, 16, 256] {
        let mut c = base(); c.w = shape.0; c.h = shape.1; c.content = ct; c.post = post; c.speed = speed; c.dither = 0.; c.colors = colors; items.push(c);
    } } } } }
    x.explore("few-colours", &items, |c| c.to_string(), |c| check_px(c, &c.pixels()));
}
