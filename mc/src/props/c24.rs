//! Importance maps.
use crate::core::*;
use crate::model::*;
use crate::pipe::*;
use crate::pix::{px, show_pal, Content};
use imagequant::{Attributes, Error, Histogram, HistogramEntry, Image, RGBA};

fn with_map(c: &Cfg, p: &[RGBA], m: &[u8]) -> Out {
    let a = c.attr();
    let mut i = c.image(&a, p).unwrap();
    i.set_importance_map(m.to_vec()).unwrap();
    run_with(c, &a, &mut i, p)
}
/// what may not depend on ignored pixels
fn same(a: &Out, b: &Out) -> Option<String> {
    if a.err != b.err { return Some(format!("outcome {:?} vs {:?}", a.err, b.err)); }
    if a.pal0 != b.pal0 { return Some(format!("palette {} vs {}", show_pal(&a.pal0), show_pal(&b.pal0))); }
    if a.qerr.map(f64::to_bits) != b.qerr.map(f64::to_bits) { return Some(format!("quantization error {:?} vs {:?}", a.qerr, b.qerr)); }
    if a.pal != b.pal { return Some(format!("palette after remapping {} vs {}", show_pal(&a.pal), show_pal(&b.pal))); }
    None
}
fn recolour(p: &[RGBA], m: &[u8], k: usize) -> Vec<RGBA> {
    p.iter().zip(m).enumerate().map(|(i, (q, v))| if *v != 0 { *q } else { match k { 0 => px(255, 0, 255, 255), 1 => px((i * 97 % 256) as u8, (i * 29 % 256) as u8, (i * 7 % 256) as u8, 255), 2 => px(9, 9, 9, 0), 3 => px(0, 255, 3, (i * 31 % 256) as u8), _ => p[(i * 5 + 1) % p.len()] } }).collect()
}
fn ignored(c: &Cfg, p: &[RGBA], m: &[u8]) -> Result<(), String> {
    let o = with_map(c, p, m);
    for k in 0..5 {
        trace();
        let q = with_map(c, &recolour(p, m, k), m);
        if let Some(d) = same(&o, &q) { return Err(format!("recolouring ({k}) pixels of zero importance matters: {d}")); }
    }
    if m.iter().all(|v| *v == 0) { return if o.err.as_ref().map_or(false, |e| e.1 == "Unsupported") || c.fixed != Fixed::None { Ok(()) } else { Err(format!("nothing has any importance: {:?} {}", o.err, show_pal(&o.pal0))) }; }
    match &o.err { Some((s, e)) if !c.legit(s, e) => Err(format!("{s} failed: {e}")), _ => Ok(()) }
}

/// image + map against the same counts given to a histogram
fn counted(c: &Cfg, p: &[RGBA], m: &[u8]) -> Result<(), String> {
    let a = c.attr();
    let mut i = Image::new(&a, p.to_vec(), c.w, c.h, c.gin).unwrap();
    i.set_importance_map(m.to_vec()).unwrap();
    op(); op(); op();
    let x = a.quantize(&mut i);
    let mut h = Histogram::new(&a);
    op();
    let e: Vec<HistogramEntry> = p.iter().zip(m).map(|(q, v)| HistogramEntry { color: *q, count: *v as u32 }).collect();
    h.add_colors(&e, c.gin).unwrap();
    op();
    let y = h.quantize(&a);
    trace();
    match (x, y) {
        (Ok(mut x), Ok(mut y)) => {
            let (px_, py) = (x.palette_vec(), y.palette_vec());
            outcome(hash_bytes(format!("{px_:?}").as_bytes()));
            // the order in which colours are met may break ties differently
            let g = Gam::new(c.gin);
            let err = |pal: &[RGBA]| { let f: Vec<F> = pal.iter().map(|p| g.f(*p)).collect(); let (mut e, mut n) = (0., 0.); for (q, v) in p.iter().zip(m) { if *v > 0 { e += nearest(&g.f(*q), &f).1 * *v as f64; n += *v as f64; } } e / n };
            let (ex, ey) = (err(&px_), err(&py));
            if std::env::var("CAL").is_ok() { println!("CAL {:.3} {} {} {c}", ex.max(ey).max(2e-5) / ex.min(ey).max(2e-5), px_.len(), py.len()); }
            if ex.max(ey) > 1.5 * ex.min(ey).max(2e-5) || px_.len().abs_diff(py.len()) > 2 + px_.len() / 8 { return Err(format!("palette with the map {} has the error {ex:.6}, the histogram's {} {ey:.6}", show_pal(&px_), show_pal(&py))); }
            Ok(())
        },
        (Err(x), Err(y)) if format!("{x:?}") == format!("{y:?}") => Ok(()),
        (x, y) => Err(format!("{:?} with the map, {:?} from the histogram", x.err(), y.err())),
    }
}

/// two distant groups and two colours: the entry of the first group is the average weighted by importance
fn average(va: u8, vb: u8, base: usize, path: usize) -> Result<(), String> {
    let mut a = Attributes::new();
    a.set_speed(7).unwrap();
    a.set_max_colors(2).unwrap();
    let (r, g0, g1, b, far) = [(0, 10, 60, 0, px(250, 245, 240, 255)), (230, 190, 240, 220, px(5, 10, 6, 255)), (0, 60, 100, 230, px(250, 200, 10, 255)), (120, 0, 90, 10, px(120, 255, 250, 255))][base];
    let mut p = vec![]; let mut m = vec![];
    // ten shades of each, so that no colour exceeds the limit on the share of one colour
    for i in 0..10u8 {
        p.push(px(r, g0, b + i, 255)); m.push(va);
        p.push(px(r, g1, b + i, 255)); m.push(vb);
        p.push(px(far.r, far.g, far.b.wrapping_sub(i), 255)); m.push(((va as u32 + vb as u32) / 2).max(1) as u8);
    }
    let entries: Vec<HistogramEntry> = p.iter().zip(&m).map(|(p, v)| HistogramEntry { color: *p, count: *v as u32 }).collect();
    let mut i = Image::new(&a, p, 6, 5, 0.).unwrap();
    i.set_importance_map(m).unwrap();
    op(); op(); op();
    let r_ = match path { 0 => a.quantize(&mut i), _ => { let mut h = Histogram::new(&a); h.add_image(&a, &mut i).unwrap(); h.quantize(&a) } };
    let mut r_ = r_.map_err(|e| format!("{e:?}"))?;
    let pal = r_.palette_vec();
    trace();
    // the same counts in a histogram: the same weighted error
    let mut h = Histogram::new(&a);
    h.add_colors(&entries, 0.).unwrap();
    op(); op();
    let mut rh = h.quantize(&a).map_err(|e| format!("{e:?}"))?;
    let mut ph = rh.palette_vec();
    let mut ps = pal.clone();
    let key = |p: &RGBA| (p.r, p.g, p.b, p.a);
    ph.sort_by_key(key); ps.sort_by_key(key);
    if let (true, Some(ei), Some(eh)) = (ph == ps, r_.quantization_error(), rh.quantization_error()) {
        if std::env::var("CAL").is_ok() { println!("CAL24 {:.7}", (ei / eh - 1.).abs()); }
        if (ei / eh - 1.).abs() > 5e-4 { return Err(format!("greens {g0} of importance {va} and {g1} of importance {vb}: reported error {ei}, {eh} for the same counts in a histogram")); }
    }
    outcome(hash_bytes(format!("{pal:?}").as_bytes()));
    let g = Gam::new(0.);
    let f = (g.lut[g0 as usize] * va as f64 + g.lut[g1 as usize] * vb as f64) / (va as f64 + vb as f64);
    let want = (f.powf(DEFAULT_GAMMA / 0.57) * 256.).min(255.) as i32;
    if !pal.iter().any(|p| (p.g as i32 - want).abs() <= 1 && p.r.abs_diff(r) <= 1 && p.b.abs_diff(b + 5) <= 5) { return Err(format!("greens {g0} of importance {va} and {g1} of importance {vb} should be averaged to {want}: {}", show_pal(&pal))); }
    Ok(())
}

const OPS: &[&str] = &["quantize", "quantize speed 8", "undithered remap", "dithered remap", "dithered remap speed 1", "add to histogram", "clone", "refused map", "aborted quantize"];
fn persists(seq: &[usize], c: &Cfg) -> Result<(), String> {
    let a = c.attr();
    let p = c.pixels();
    let m = c.importance().unwrap();
    let fresh = || { let mut i = Image::new(&a, p.clone(), c.w, c.h, 0.).unwrap(); i.set_importance_map(m.clone()).unwrap(); i };
    let want = a.quantize(&mut fresh()).unwrap().palette_vec();
    let mut img = fresh();
    let mut fast = Attributes::new(); fast.set_speed(8).unwrap();
    let mut slow = Attributes::new(); slow.set_speed(1).unwrap();
    let mut alive = true;
    let gone = |e: &Error| matches!(e, Error::Unsupported);
    for (k, o) in seq.iter().enumerate() {
        op();
        let when = || format!("{:?}", seq[..=k].iter().map(|o| OPS[*o]).collect::<Vec<_>>());
        match o {
            0 => { if let Err(e) = a.quantize(&mut img) { if !gone(&e) || alive { return Err(format!("{}: {e:?}", when())); } } },
            1 => { if let Err(e) = fast.quantize(&mut img) { if !gone(&e) || alive { return Err(format!("{}: {e:?}", when())); } } },
            2 | 3 | 4 => {
                let mut r = if *o == 4 { slow.quantize(&mut fresh()) } else { a.quantize(&mut fresh()) }.unwrap();
                r.set_dithering_level(if *o == 2 { 0. } else { 1. }).unwrap();
                r.remapped(&mut img).map_err(|e| format!("{}: {e:?}", when()))?;
                alive = false; // remapping may release the source pixels
            },
            5 => { let mut h = Histogram::new(&a); match h.add_image(&a, &mut img) {
                Ok(()) => { let g = h.quantize(&a).map_err(|e| format!("{}: {e:?}", when()))?.palette_vec(); if g != want { return Err(format!("{}: histogram gives {} instead of {}", when(), show_pal(&g), show_pal(&want))); } },
                Err(e) => if !gone(&e) || alive { return Err(format!("{}: {e:?}", when())); },
            } },
            6 => img = img.clone(),
            7 => { if img.set_importance_map(vec![0; c.w * c.h + 1]).is_ok() { return Err(format!("{}: accepted", when())); } },
            _ => { let mut b = a.clone(); b.set_progress_callback(|_| imagequant::ControlFlow::Break); let _ = b.quantize(&mut img); },
        }
    }
    trace();
    match a.quantize(&mut img) {
        Ok(mut r) => { let g = r.palette_vec(); outcome(hash_bytes(format!("{g:?}").as_bytes())); if g != want { return Err(format!("palette {} instead of {} with the map given", show_pal(&g), show_pal(&want))); } Ok(()) },
        Err(e) if gone(&e) && !alive => Ok(()),
        Err(e) => Err(format!("{e:?}")),
    }
}

/// mean difference of the pixels in one half
fn half_error(o: &Out, p: &[RGBA], first: bool) -> f64 {
    let g = Gam::new(0.);
    let s = o.shown();
    let r = if first { 0..p.len() / 2 } else { p.len() / 2..p.len() };
    let n = r.len() as f64;
    r.map(|i| diff(&g.f(p[i]), &g.f(s[i]))).sum::<f64>() / n
}
fn preferred(c: &Cfg, p: &[RGBA], lo: u8, hi: u8) -> Result<(), String> {
    let n = p.len();
    let m = |a: u8, b: u8| (0..n).map(|i| if i < n / 2 { a } else { b }).collect::<Vec<u8>>();
    let (x, y) = (with_map(c, p, &m(hi, lo)), with_map(c, p, &m(lo, hi)));
    if x.err.is_some() || y.err.is_some() { return Err(format!("{:?} {:?}", x.err, y.err)); }
    trace();
    let (e0, e1) = (half_error(&x, p, true), half_error(&y, p, true));
    let (f0, f1) = (half_error(&x, p, false), half_error(&y, p, false));
    if std::env::var("CAL").is_ok() { println!("CAL {:.3} {:.3} {c} {lo} {hi}", e0 / e1.max(1e-9), f1 / f0.max(1e-9)); }
    // both halves gain from being important, on balance
    let gain = (e1.max(1e-9) / e0.max(1e-9)) * (f0.max(1e-9) / f1.max(1e-9));
    if gain < 0.9 { return Err(format!("important pixels are represented worse: first half {e0:.6} when important, {e1:.6} when not; second half {f1:.6} and {f0:.6}")); }
    Ok(())
}

pub fn run(x: &Ctx) {
    // every set of ignored pixels of small images
    let mut items = vec![];
    for (w, h, ct) in [(3usize, 3usize, Content::Noise), (4, 2, Content::AlphaExt), (8, 1, Content::Photo)] { for mask in 0..1u32 << (w * h) { for (colors, speed, dither) in [(2u32, 4, 1f32), (3, 1, 1.), (3, 7, 0.), (2, 8, 1.), (256, 4, 1.)] { items.push((w, h, ct, mask, colors, speed, dither)); } } }
    x.explore("masks", &items, |i| format!("{i:?}"), |&(w, h, ct, mask, colors, speed, dither)| {
        let mut c = base(); c.w = w; c.h = h; c.content = ct; c.colors = colors; c.speed = speed; c.dither = dither;
        let m: Vec<u8> = (0..w * h).map(|i| if mask >> i & 1 == 1 { [255u8, 1, 100][i % 3] } else { 0 }).collect();
        ignored(&c, &c.pixels(), &m)
    });
    // any configuration
    let mut bases = vec![];
    for ct in [Content::Photo, Content::Noise, Content::NoiseA] { for imp in [Imp::HalfZero, Imp::Grad, Imp::OnlyLast] { let mut b = base(); b.imp = imp; b.content = ct; b.colors = 8; bases.push(b); } }
    let d: Vec<_> = dims().into_iter().enumerate().filter(|(i, _)| ![11usize].contains(i)).map(|x| x.1).collect();
    x.explore("ignored", &space_of(&bases, &d, x.q(1, 2)), |c| c.to_string(), |c| {
        if matches!(c.fixed, Fixed::InImage | Fixed::Near) || c.bg != Bg::None && c.bg != Bg::Flat { return Ok(()); } // derived from pixels
        if c.via == Via::HistColors { return Ok(()); } // the counts are given, not the map
        let m = c.importance().unwrap(); ignored(c, &c.pixels(), &m)
    });
    // importance is a count (posterization merges colours in an unspecified order)
    let mut bases = vec![];
    for ct in [Content::Photo, Content::Noise, Content::NoiseA, Content::Clusters(6), Content::Gray, Content::CountA(200)] { for imp in [Imp::Max, Imp::Grad, Imp::One, Imp::HalfZero] { for colors in [2u32, 8, 40, 256] { let mut b = base(); b.imp = imp; b.content = ct; b.colors = colors; bases.push(b); } } }
    let d = vec![dim(&[1, 2, 3, 5, 6, 7], |c, v| c.speed = v), dim(&[(1usize, 1usize), (5, 3), (33, 17), (40, 1), (64, 64)], |c, v| { c.w = v.0; c.h = v.1; }), dim(QUALS, |c, v| c.quality = v), dim(&[0.75f64, 0.2], |c, v| c.gin = v)];
    x.explore("counted", &space_of(&bases, &d, x.q(2, 3)), |c| c.to_string(), |c| { let m = c.importance().unwrap(); counted(c, &c.pixels(), &m) });
    // weighted averages for pairs of importances
    let mut items = vec![];
    let step = x.q(12, 3);
    for va in (1..=255u32).step_by(step) { for vb in (1..=255u32).step_by(step) { for b in 0..4 { for path in 0..2 { items.push((va as u8, vb as u8, b, path)); } } } }
    for o in 1..=255u8 { for t in [253u8, 254, 255] { for b in 0..4 { items.push((t, o, b, o as usize % 2)); items.push((o, t, b, o as usize % 2)); } } }
    x.explore("averages", &items, |i| format!("{i:?}"), |&(va, vb, b, path)| average(va, vb, b, path));
    // maps of large images: the last, first or middle pixel has a colour of its own
    let mut items = vec![];
    for (w, h) in x.q(vec![(1usize, 5000usize), (3, 70_000), (70_000, 3), (5000, 2), (300, 300), (2049, 2049)], vec![(1, 5000), (3, 70_000), (1, 300_000), (70_000, 3), (5000, 2), (300, 300), (1000, 1000), (2049, 2049), (2_200_000, 2), (2, 2_200_000)]) { for at in 0..4 { for own in [0u8, 1] { for path in 0..3 { items.push((w, h, at, own, path)); } } } }
    x.explore("large", &items, |i| format!("{i:?}"), |&(w, h, at, own, path)| {
        let n = w * h;
        let pos = [0, n - 1, n / 2, (h - 1) * w][at];
        let mut a = Attributes::new();
        a.set_speed(7).unwrap();
        let mut p = vec![px(10, 20, 30, 255); n];
        for (i, q) in p.iter_mut().enumerate() { if i % 3 == 1 { *q = px(200, 90, 40, 255); } }
        p[pos] = px(0, 255, 9, 255);
        let mut m = vec![1 - own; n];
        m[pos] = own;
        if own == 1 { for k in [(pos + 1) % n, (pos + 2) % n] { m[k] = 1; } }
        let mut i = Image::new(&a, p.clone(), w, h, 0.).unwrap();
        i.set_importance_map(m.clone()).unwrap();
        op(); op(); op();
        let r = match path { 0 => a.quantize(&mut i), 1 => { let mut j = i.clone(); drop(i); a.quantize(&mut j) }, _ => { let mut h = Histogram::new(&a); h.add_image(&a, &mut i).unwrap(); h.quantize(&a) } };
        let mut pal = r.map_err(|e| format!("{e:?}"))?.palette_vec();
        trace();
        let mut want: Vec<RGBA> = (0..n).filter(|k| m[*k] > 0).map(|k| p[k]).collect::<std::collections::HashSet<_>>().into_iter().collect();
        let key = |p: &RGBA| (p.r, p.g, p.b, p.a);
        want.sort_by_key(key); pal.sort_by_key(key);
        if pal != want { return Err(format!("palette {} instead of {}", show_pal(&pal), show_pal(&want))); }
        Ok(())
    });
    // histories of one image
    let n = OPS.len();
    let mut items = vec![];
    for imp in [Imp::HalfZero, Imp::Grad] { for speed in [4, 1] { for l in 1..=x.q(3usize, 4) { for code in 0..n.pow(l as u32) { let mut c = base(); c.imp = imp; c.speed = speed; c.colors = 5; c.w = 12; c.h = 12; let mut s = vec![]; let mut k = code; for _ in 0..l { s.push(k % n); k /= n; } items.push((s, c)); } } } }
    x.explore("histories", &items, |i| format!("{} {:?}", i.1, i.0.iter().map(|o| OPS[*o]).collect::<Vec<_>>()), |(s, c)| persists(s, c));
    // important pixels are represented better
    let mut items = vec![];
    for ct in [Content::Noise, Content::Photo, Content::Gray, Content::NoiseA, Content::Rgb] { for colors in [4u32, 8, 16, 40, 100] { for speed in 1..=10 { for (w, h) in [(32usize, 32usize), (24, 48)] { for (lo, hi) in [(1u8, 255u8), (10, 250), (0, 255), (20, 100)] { let mut c = base(); c.w = w; c.h = h; c.content = ct; c.colors = colors; c.speed = speed; c.dither = 0.; items.push((c, lo, hi)); } } } } }
    x.explore("preferred", &items, |i| format!("{} {} {}", i.0, i.1, i.2), |(c, lo, hi)| preferred(c, &c.pixels(), *lo, *hi));
}
