//! Palette entries stay inside the range of the input.
use crate::core::*;
use crate::pipe::*;
use crate::pix::{px, show_pal, show_px, Content};
use imagequant::RGBA;

/// per channel minimum and maximum over the pixels that count
pub fn ranges(p: &[RGBA], imp: Option<&[u8]>) -> Option<[(u8, u8); 4]> {
    let mut r = [(255u8, 0u8); 4];
    let mut any = false;
    for (i, q) in p.iter().enumerate() {
        if imp.map_or(false, |m| m[i] == 0) { continue; }
        any = true;
        if q.a > 0 { for (k, v) in [q.r, q.g, q.b].into_iter().enumerate() { r[k] = (r[k].0.min(v), r[k].1.max(v)); } }
        r[3] = (r[3].0.min(q.a), r[3].1.max(q.a));
    }
    any.then_some(r)
}
pub fn within(pal: &[RGBA], r: &[(u8, u8); 4], fixed: &[RGBA], when: &str) -> Result<(), String> {
    for p in pal {
        if p.a == 0 || fixed.contains(p) { continue; }
        for (k, v) in [p.r, p.g, p.b, p.a].into_iter().enumerate() {
            let tol = 1;
            if (v as i32) < r[k].0 as i32 - tol || v as i32 > r[k].1 as i32 + tol { return Err(format!("{when}: {} of palette entry {} is outside {}..{} of the input; palette {}", ["red", "green", "blue", "alpha"][k], show_px(p), r[k].0, r[k].1, show_pal(pal))); }
        }
    }
    Ok(())
}
fn check_px(c: &Cfg, p: &[RGBA]) -> Result<(), String> {
    let o = run_px(c, p);
    if let Some((s, e)) = &o.err { return if c.legit(s, e) { Ok(()) } else { Err(format!("{s} failed: {e}")) }; }
    let imp = c.importance();
    let fixed = c.fixed_colors(p);
    let Some(r) = ranges(p, imp.as_deref()) else { return Ok(()) };
    trace();
    within(&o.pal0, &r, &fixed, "before remapping")?;
    within(&o.pal, &r, &fixed, "after remapping")
}
pub fn run(x: &Ctx) {
    // narrow ranges in each channel
    let mut items = vec![];
    for (lo, hi) in [(0u8, 3u8), (0, 40), (100, 101), (100, 140), (250, 255), (20, 230), (128, 128)] { for (alo, ahi) in [(255u8, 255u8), (254, 255), (1, 8), (1, 255), (100, 120), (128, 128), (0, 20), (0, 255)] {
        for colors in [2u32, 3, 5, 16, 40] { for speed in [1, 3, 4, 6, 7, 8, 10] { for dither in [0f32, 1.] { for shape in [(16usize, 16usize), (3, 21), (40, 33)] { for pat in 0..3 { items.push((lo, hi, alo, ahi, colors, speed, dither, shape, pat)); } } } } }
    } }
    x.explore("narrow", &items, |i| format!("{i:?}"), |&(lo, hi, alo, ahi, colors, speed, dither, (w, h), pat)| {
        let mut s = 12345u32 + pat;
        let mut rnd = || { s = s.wrapping_mul(1664525).wrapping_add(1013904223); (s >> 16) as usize };
        let p: Vec<RGBA> = (0..w * h).map(|i| {
            let mut v = |l: u8, u: u8, k: usize| { let n = (u - l) as usize + 1; l + (match pat { 0 => rnd() % n, 1 => i * n / (w * h), _ => (i * (k + 3) + rnd() % 2) % n }) as u8 };
            let (r, g, b, a) = (v(lo, hi, 0), v(lo, hi, 1), v(lo, hi, 2), v(alo, ahi, 3));
            px(r, g, b, a)
        }).collect();
        let mut c = base(); c.w = w; c.h = h; c.colors = colors; c.speed = speed; c.dither = dither;
        check_px(&c, &p)
    });
    // any configuration
    let mut bases = vec![];
    for ct in [Content::Photo, Content::NoiseA, Content::SemiNoise, Content::Dark, Content::Bright, Content::Blob] { let mut b = base(); b.content = ct; b.colors = 8; bases.push(b.clone()); b.dither = 0.; b.colors = 40; bases.push(b); }
    let d: Vec<_> = dims().into_iter().enumerate().filter(|(i, _)| ![5, 9].contains(i)).map(|x| x.1).collect();
    x.explore("deviations", &space_of(&bases, &d, x.q(2, 3)), |c| c.to_string(), |c| check_px(c, &c.pixels()));
}
