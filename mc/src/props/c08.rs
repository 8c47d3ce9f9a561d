//! Palette order.
use crate::core::*;
use crate::pipe::*;
use crate::pix::{px, show_pal, Content};
use imagequant::{Attributes, Histogram, HistogramEntry, RGBA};

fn order(last: bool, pal: &[RGBA], when: &str) -> Result<(), String> {
    if last {
        if pal.iter().any(|p| p.a == 0) && pal.last().map_or(false, |p| p.a != 0) { return Err(format!("last palette entry {when} is not the transparent one: {}", show_pal(pal))); }
    } else if let Some(first_opaque) = pal.iter().position(|p| p.a == 255) {
        if let Some(k) = pal.iter().rposition(|p| p.a < 255) { if k > first_opaque { return Err(format!("entry {k} has transparency but comes after opaque entry {first_opaque} {when}: {}", show_pal(pal))); } }
    }
    Ok(())
}
fn check(c: &Cfg) -> Result<(), String> {
    let p = c.pixels();
    let o = run_px(c, &p);
    if let Some((s, e)) = &o.err { return if c.legit(s, e) { Ok(()) } else { Err(format!("{s} failed: {e}")) }; }
    trace();
    // averaging, rounding to fewer bits and dithering's fine-tuning can make nearly opaque entries opaque and vice versa, so the default order is only judged without such colours
    let near = p.iter().any(|p| p.a > 128 && p.a < 255) || c.post > 0;
    if c.last || !near { order(c.last, &o.pal0, "before remapping")?; }
    // dithered remapping may fine-tune colours (also alpha) of palettes made for this image
    let tuned = c.dither > 0. && c.via == Via::Image;
    if c.last { if !tuned || o.pal0.iter().any(|p| p.a == 0) { order(true, &o.pal, "after remapping")?; } }
    else if !near && !tuned { order(false, &o.pal, "after remapping")?; }
    if c.dither == 0. && c.bg == Bg::None { super::c06::judge(&p, &o, c.gin, o.gamma)?; }
    // fully transparent pixels stay transparent if the palette can show them
    if c.bg == Bg::None && o.pal.iter().any(|p| p.a == 0) && c.dither == 0. { for (a, b) in p.iter().zip(o.shown()) { if a.a == 0 && b.a != 0 { return Err("fully transparent pixel is shown with a visible colour".into()); } } }
    Ok(())
}

pub fn run(x: &Ctx) {
    let mut bases = vec![];
    for (ct, colors) in [(Content::AlphaExt, 16), (Content::NoiseA, 64), (Content::Sparse, 8), (Content::CountA(200), 256), (Content::AlphaGrad, 5), (Content::AlphaLow, 16), (Content::Blob, 16)] { for last in [false, true] { let mut b = base(); b.content = ct; b.colors = colors; b.last = last; bases.push(b); } }
    let d: Vec<_> = dims().into_iter().enumerate().filter(|(i, _)| *i != 6).map(|x| x.1).collect();
    x.explore("deviations", &space_of(&bases, &d, x.q(2, 3)), |c| c.to_string(), check);
    // every multiset of alphas over a few entries, through histograms and fixed colours
    let al = [0u8, 1, 128, 254, 255];
    let mut items = vec![];
    for n in 1..=x.q(4u32, 6) { for code in 0..5usize.pow(n) { for last in [false, true] { for fx in 0..2 { items.push((n, code, last, fx == 1)); } } } }
    x.explore("all-alphas", &items, |i| format!("{i:?}"), |&(n, code, last, fixed)| {
        let mut a = Attributes::new();
        a.set_last_index_transparent(last);
        let mut h = Histogram::new(&a);
        let mut k = code;
        for i in 0..n { let c = px(40 * i as u8, 255 - 30 * i as u8, 7, al[k % 5]); k /= 5; op(); if fixed && i % 2 == 0 { h.add_fixed_color(c, 0.).unwrap(); } else { h.add_colors(&[HistogramEntry { color: c, count: 1 + i * 3 % 4 }], 0.).unwrap(); } }
        op();
        let mut r = h.quantize(&a).map_err(|e| format!("{e:?}"))?;
        let pal = r.palette_vec();
        trace();
        outcome(hash_bytes(format!("{pal:?}").as_bytes()));
        order(last, &pal, "of histogram")
    });
}
