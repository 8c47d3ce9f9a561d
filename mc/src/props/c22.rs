//! Input and output gamma.
use crate::core::*;
use crate::model::*;
use crate::pipe::*;
use crate::pix::{px, show_pal, show_px, Content};
use imagequant::{Attributes, Histogram, HistogramEntry, Image, QuantizationResult, RGBA};

fn close(a: u8, b: u8) -> bool { a.abs_diff(b) <= 1 }
fn conv(p: RGBA, gin: f64, gout: f64) -> RGBA { px(regamma(p.r, gin, gout), regamma(p.g, gin, gout), regamma(p.b, gin, gout), p.a) }
fn like(a: &RGBA, b: &RGBA) -> bool { a.a == b.a && (a.a == 0 || close(a.r, b.r) && close(a.g, b.g) && close(a.b, b.b)) }
/// every colour converted from gin to gout is in the palette, and nothing else is
fn same_set(pal: &[RGBA], colors: &[RGBA], gin: f64, gout: f64, when: &str) -> Result<(), String> {
    let want: Vec<RGBA> = colors.iter().map(|c| if gout == gin { *c } else { conv(*c, gin, gout) }).collect();
    // the same gamma: nothing to round
    let like = |a: &RGBA, b: &RGBA| if gout == gin { a.a == b.a && (a.a == 0 || a == b) } else { like(a, b) };
    for (w, c) in want.iter().zip(colors) { if !pal.iter().any(|p| like(p, w)) { return Err(format!("{when}: input colour {} in gamma {gin} should appear as {} in gamma {gout}, palette is {}", show_px(c), show_px(w), show_pal(pal))); } }
    for p in pal { if !want.iter().any(|w| like(p, w)) { return Err(format!("{when}: palette entry {} is not the conversion of any input colour from gamma {gin} to {gout}", show_px(p))); } }
    Ok(())
}
fn eff(g: f64) -> f64 { if g > 0. { g } else { DEFAULT_GAMMA } }

/// the range a channel known to be c (rounded down) may have after conversion
fn range(c: u8, gin: f64, gout: f64) -> (i32, i32) {
    let f = |v: f64| (v.min(1.).powf(gout / gin) * 256.).min(255.) as i32;
    (f(c as f64 / 256.) - 1, f((c as f64 + 1.) / 256.) + 1)
}
fn converted(a: &[RGBA], b: &[RGBA], gin: f64, gout: f64, when: &str) -> Result<(), String> {
    if a.len() != b.len() { return Err(format!("{when}: palette length changes with the output gamma: {} and {}", a.len(), b.len())); }
    for (p, q) in a.iter().zip(b) {
        let bad = p.a != q.a || p.a > 0 && [(p.r, q.r), (p.g, q.g), (p.b, q.b)].iter().any(|(x, y)| { let (l, h) = range(*x, gin, gout); (*y as i32) < l || (*y as i32) > h });
        if bad { return Err(format!("{when}: entry {} of the palette in gamma {gin} is {} in gamma {gout}; {} vs {}", show_px(p), show_px(q), show_pal(a), show_pal(b))); }
    }
    Ok(())
}
fn check_pair(c: &Cfg) -> Result<(), String> {
    let mut plain = c.clone(); plain.gout = None;
    let (o, p) = (crate::pipe::run(c), crate::pipe::run(&plain));
    if o.err != p.err { return Err(format!("outcome {:?} with output gamma, {:?} without", o.err, p.err)); }
    if let Some((s, e)) = &o.err { return if c.legit(s, e) { Ok(()) } else { Err(format!("{s} failed: {e}")) }; }
    let gin = if c.via == Via::HistColors && c.gin >= 1. { 0.9999 } else { c.gamma() };
    trace();
    if (p.gamma - gin).abs() > 1e-9 { return Err(format!("output gamma is {} by default, the input has {gin}", p.gamma)); }
    let g = c.gout.unwrap_or(gin);
    if o.gamma != g && c.gout.is_some() { return Err(format!("output gamma {} instead of {g}", o.gamma)); }
    converted(&p.pal0, &o.pal0, gin, g, "before remapping")?;
    converted(&p.pal, &o.pal, gin, g, "after remapping")?;
    if !near(o.qerr, p.qerr) { return Err(format!("quantization error {:?} with output gamma, {:?} without", o.qerr, p.qerr)); }
    Ok(())
}

const NAMES: &[&str] = &["gamma A", "gamma B", "gamma of the input", "read", "remap undithered", "remap dithered", "gamma out of range", "clone"];
struct Hist { pixels: Vec<RGBA>, w: usize, gin: f64, speed: i32, via_hist: bool, ga: f64, gb: f64 }
fn history(t: &Hist, seq: &[usize]) -> Result<(), String> {
    let mut a = Attributes::new();
    a.set_speed(t.speed).unwrap();
    let h = t.pixels.len() / t.w;
    let new_image = || Image::new(&a, t.pixels.clone(), t.w, h, t.gin).unwrap();
    let mut r: QuantizationResult = if t.via_hist {
        let mut hi = Histogram::new(&a);
        hi.add_colors(&t.pixels.iter().map(|p| HistogramEntry { color: *p, count: 1 }).collect::<Vec<_>>(), t.gin).unwrap();
        hi.quantize(&a)
    } else { a.quantize(&mut new_image()) }.map_err(|e| format!("quantize failed: {e:?}"))?;
    let gin = eff(t.gin);
    let mut colors: Vec<RGBA> = vec![]; for p in &t.pixels { if !colors.contains(p) { colors.push(*p); } }
    let mut cur = gin;
    trace();
    for (k, o) in seq.iter().enumerate() {
        op();
        let when = || format!("after {:?}", seq[..=k].iter().map(|o| NAMES[*o]).collect::<Vec<_>>());
        match o {
            0 | 1 | 2 => { let g = [t.ga, t.gb, gin.min(0.9999)][*o]; r.set_output_gamma(g).map_err(|e| format!("set_output_gamma({g}): {e:?}"))?; cur = g; },
            3 => same_set(&r.palette_vec(), &colors, gin, cur, &when())?,
            4 | 5 => {
                r.set_dithering_level(if *o == 4 { 0. } else { 1. }).unwrap();
                let (pal, idx) = r.remapped(&mut new_image()).map_err(|e| format!("{}: remap failed: {e:?}", when()))?;
                same_set(&pal, &colors, gin, cur, &when())?;
                if r.palette_vec() != pal { return Err(format!("{}: palette read differs from the remapped one", when())); }
                if *o == 4 { for (i, p) in t.pixels.iter().enumerate() {
                    let w = if cur == gin { *p } else { conv(*p, gin, cur) };
                    let s = pal[idx[i] as usize];
                    // in a dense palette a neighbour may have been rounded to something closer
                    let nearest_too = || { let (f, g) = (Gam::new(t.gin).f(*p), Gam::new(cur)); let d = |q: &RGBA| diff(&f, &g.f(*q)); d(&s) <= pal.iter().map(d).fold(f64::MAX, f64::min) + super::c06::EPS };
                    if !like(&s, &w) && !nearest_too() { return Err(format!("{}: pixel {i} {} is shown as {}, its conversion from gamma {gin} to {cur} is {}", when(), show_px(p), show_px(&s), show_px(&w))); }
                } }
            },
            6 => { for v in [0., -1., 1., 1.5, f64::NAN] { if r.set_output_gamma(v).is_ok() { return Err(format!("{}: output gamma {v} accepted", when())); } } },
            _ => r = r.clone(),
        }
        if (r.output_gamma() - cur).abs() > 1e-12 { return Err(format!("{}: output gamma reads {} instead of {cur}", when(), r.output_gamma())); }
    }
    outcome(hash_bytes(&idx_bytes(&r.palette_vec())));
    Ok(())
}
fn idx_bytes(p: &[RGBA]) -> Vec<u8> { p.iter().flat_map(|p| [p.r, p.g, p.b, p.a]).collect() }

pub fn run(x: &Ctx) {
    let grid: Vec<f64> = x.q(vec![0., 0.1, 0.25, 0.45455, 0.5, 0.75, 0.9, 1.0], (2..=20).map(|i| i as f64 / 20.).chain([0., 0.45455, 0.12]).collect());
    let outs: Vec<f64> = x.q(vec![0.1, 0.3, 0.45455, 0.6, 0.9, 0.999], (2..20).map(|i| i as f64 / 20.).chain([0.45455, 0.12, 0.999]).collect());
    // every channel value, converted by every pair of gammas
    let mut items = vec![];
    for &gin in &grid { for &gout in &outs { for k in 0..4 { for al in x.q(vec![255u8, 254, 128, 20], vec![255, 254, 200, 128, 64, 20]) { for speed in x.q(vec![4, 7], vec![1, 4, 7]) { for via in [Via::Image, Via::HistColors] { items.push((gin, gout, k, al, speed, via)); } } } } } }
    x.explore("all-values", &items, |i| format!("gamma {} to {} pattern {} alpha {} speed {} {:?}", i.0, i.1, i.2, i.3, i.4, i.5), |&(gin, gout, k, al, speed, via)| {
        if via == Via::HistColors && gin >= 1. { return Ok(()); }
        let p: Vec<RGBA> = (0..=255u8).map(|v| match k { 0 => px(v, v, v, al), 1 => px(v, 0, 0, al), 2 => px(255, v, 255, al), _ => px(0, 0, v, al) }).collect();
        let (ga, gb) = (gout, 0.37);
        history(&Hist { pixels: p, w: 16, gin, speed, via_hist: via == Via::HistColors, ga, gb }, &[0, 3, 4, 3, 2, 3])
    });
    // histories of setting, reading and remapping
    let depth = x.q(4, 5);
    let mut items = vec![];
    for gin in [0., 0.75] { for (speed, via_hist) in [(4, false), (7, false), (4, true)] {
        for n in 1..=depth { for mut code in 0..8usize.pow(n as u32) { let mut s = vec![]; for _ in 0..n { s.push(code % 8); code /= 8; } items.push((gin, speed, via_hist, s)); } }
    } }
    let pix: Vec<RGBA> = vec![px(0, 0, 0, 255), px(255, 255, 255, 255), px(10, 200, 90, 255), px(200, 30, 60, 128), px(3, 3, 3, 0), px(128, 128, 128, 255)];
    x.explore("histories", &items, |i| format!("gamma {} speed {} histogram {} {:?}", i.0, i.1, i.2, i.3.iter().map(|o| NAMES[*o]).collect::<Vec<_>>()), |(gin, speed, vh, s)| history(&Hist { pixels: pix.clone(), w: 3, gin: *gin, speed: *speed, via_hist: *vh, ga: 0.3, gb: 0.9 }, s));
    // an image in one gamma remapped to a palette made in another: a dense grey scale finds the same light
    let mut items = vec![];
    for &g1 in &grid { for &g2 in &grid { for gout in [None, Some(0.3), Some(0.8)] { items.push((g1, g2, gout)); } } }
    x.explore("across-gammas", &items, |i| format!("{i:?}"), |&(g1, g2, gout)| {
        if g1 >= 1. { return Ok(()); }
        let a = Attributes::new();
        let mut h = Histogram::new(&a);
        for v in 0..=255u8 { h.add_fixed_color(px(v, v, v, 255), g1).unwrap(); }
        let mut r = h.quantize(&a).map_err(|e| format!("quantize: {e:?}"))?;
        if (r.output_gamma() - eff(g1)).abs() > 1e-12 { return Err(format!("output gamma {} of a palette in gamma {}", r.output_gamma(), eff(g1))); }
        if let Some(g) = gout { r.set_output_gamma(g).unwrap(); }
        r.set_dithering_level(0.).unwrap();
        let p: Vec<RGBA> = (0..=255u8).map(|v| px(v, v, v, 255)).collect();
        let (pal, idx) = r.remapped(&mut Image::new(&a, p, 16, 16, g2).unwrap()).map_err(|e| format!("remap: {e:?}"))?;
        trace();
        let og = gout.unwrap_or(eff(g1));
        for v in 0..=255usize {
            let s = pal[idx[v] as usize].r as f64;
            // nearest of the 256 levels of the palette's own gamma, then converted: within one step of either scale
            let t = (v as f64 / 255.).powf(eff(g1) / eff(g2)) * 255.;
            let f = |c: f64| ((c.clamp(0., 255.) / 255.).powf(og / eff(g1)) * 256.).min(255.).floor();
            let (lo, hi) = (f(t - 1.01) - 1., f(t + 1.01) + 1.);
            if s < lo || s > hi { return Err(format!("grey {v} in gamma {g2} is shown as {s} in gamma {og}, expected {lo}..{hi}")); }
        }
        Ok(())
    });
    // gammas that differ little, one after another on the same thread
    let fine: Vec<f64> = vec![0., 0.45, 0.4500001, 0.451, 0.454, 0.4549, 0.455, 0.4599, 0.46, 0.4501, 0.5, 0.301, 0.3, 0.309, 0.999, 0.9999, 0.991, 1.];
    let mut items = vec![];
    for &a in &fine { for &b in &fine { for &c in x.q(&fine[..4], &fine[..]) { for speed in [4, 7] { items.push((a, b, c, speed)); } } } }
    x.explore("close-gammas", &items, |i| format!("images in gammas {}, {}, {} one after another, speed {}", i.0, i.1, i.2, i.3), |&(g1, g2, g3, speed)| {
        for (k, gin) in [g1, g2, g3].into_iter().enumerate() {
            let other = eff([g2, g3, g1][k]).min(0.9999);
            let p: Vec<RGBA> = (0..64u8).map(|v| px(v * 4 + 2, v * 4, v * 4 + 1, 255)).collect();
            for via_hist in [false, true] {
                if via_hist && gin >= 1. { continue; }
                history(&Hist { pixels: p.clone(), w: 8, gin, speed, via_hist, ga: other, gb: 0.37 }, &[3, 4, 0, 3, 2, 3]).map_err(|e| format!("image number {k}: {e}"))?;
            }
        }
        Ok(())
    });
    // any configuration: output gamma only converts
    let mut bases = vec![];
    for g in [0.3, 0.8] { for ct in [Content::Photo, Content::NoiseA] { let mut b = base(); b.gout = Some(g); b.content = ct; bases.push(b); } }
    let d: Vec<_> = dims().into_iter().enumerate().filter(|(i, _)| ![5, 9].contains(i)).map(|x| x.1).collect();
    x.explore("deviations", &space_of(&bases, &d, x.q(2, 3)), |c| c.to_string(), check_pair);
}
