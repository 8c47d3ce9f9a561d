//! Quality floor.
use crate::core::*;
use crate::model::*;
use crate::pipe::*;
use crate::pix::{canon, distinct, show_pal, Content};
use imagequant::{Attributes, Error, Histogram, HistogramEntry, RGBA};

/// weighted mean error of a palette on the colours it was made for. Weights: pixel counts, each capped at a tenth of all.
pub fn weighted_error(pixels: &[(RGBA, f64)], pal: &[RGBA], g: &Gam) -> f64 {
    let pf: Vec<F> = pal.iter().map(|p| g.f(*p)).collect();
    let mut m: std::collections::BTreeMap<u32, (RGBA, f64)> = Default::default();
    for (p, w) in pixels { if *w > 0. { m.entry(canon(*p)).or_insert((*p, 0.)).1 += *w; } }
    let total: f64 = m.values().map(|x| x.1).sum();
    let (mut s, mut t) = (0., 0.);
    for (p, w) in m.values() { let w = w.min(total * 0.1); s += w * nearest(&g.f(*p), &pf).1; t += w; }
    s / t
}

pub struct Verdict { pub ok: bool, pub err: String, pub pal: Vec<RGBA>, pub qerr: Option<f64>, pub qq: Option<u8> }
fn quantize(c: &Cfg, p: &[RGBA]) -> Result<Verdict, String> {
    let a = c.attr();
    let mut img = c.image(&a, p).map_err(|e| format!("{e:?}"))?;
    match c.quantize(&a, &mut img, p) {
        Ok(mut r) => Ok(Verdict { ok: true, err: String::new(), pal: r.palette_vec(), qerr: r.quantization_error(), qq: r.quantization_quality() }),
        Err(e) => Ok(Verdict { ok: false, err: format!("{e:?}"), pal: vec![], qerr: None, qq: None }),
    }
}

fn check(c: &Cfg) -> Result<(), String> {
    let p = c.pixels();
    let (min, target) = c.quality.unwrap_or((0, 100));
    let v = quantize(c, &p)?;
    outcome(hash_bytes(format!("{}{:?}{:?}", v.ok, v.pal, v.qq).as_bytes()));
    trace();
    let imp = c.importance();
    let n_colors = distinct(&p.iter().enumerate().filter(|(i, _)| imp.as_ref().map_or(true, |m| m[*i] > 0)).map(|x| *x.1).collect::<Vec<_>>()).len();
    let imp = c.importance();
    let w: Vec<(RGBA, f64)> = p.iter().enumerate().map(|(i, p)| (*p, imp.as_ref().map_or(1., |m| m[i] as f64))).collect();
    // weights of the colours are only known with a map, or as counts
    let known = (c.imp != Imp::None || c.via == Via::HistColors) && c.fixed == Fixed::None && c.post == 0 && c.speed < 8;
    let g = Gam::new(c.gin);
    if v.ok {
        if let (Some(e), Some(q)) = (v.qerr, v.qq) {
            if !(e >= 0.) || !e.is_finite() { return Err(format!("reported quantization error is {e}")); }
            let i = from_std(e);
            if q > mse_to_quality(i * (1. - 1e-6) - 1e-9) || q < mse_to_quality(i * (1. + 1e-6) + 1e-9) { return Err(format!("quality {q} reported for error {e}")); }
            if known {
                let real = weighted_error(&w, &v.pal, &g);
                if real > i * 1.5 + 1e-4 { return Err(format!("reported quantization error {e:.4} but the palette has error {:.4}: {}", std_mse(real), show_pal(&v.pal))); }
            }
        } else if v.qerr.is_some() != v.qq.is_some() { return Err("error and quality are not reported together".into()); }
        if min > 0 {
            match v.qq { None => return Err("minimum quality is set but the achieved quality is unknown".into()), Some(q) => if q < min { return Err(format!("quality {q} is below the minimum {min}")); } }
        }
        if let (true, Some(q)) = (target > 0 && c.fixed == Fixed::None && c.imp != Imp::HalfZero && c.imp != Imp::OnlyLast && c.imp != Imp::Grad && c.post == 0 && c.speed < 8, v.qq) {
            // fewer colours only if the target is reached (approximately: the search estimates)
            if std::env::var("CAL").is_ok() && v.pal.len() < (c.colors as usize).min(n_colors) && q + 1 < target { eprintln!("CAL {} {} s{} {}", target - q, target, c.speed, c); }
            if v.pal.len() < (c.colors as usize).min(n_colors) && q + 4 < target { return Err(format!("only {} colours of {} used, but quality {q} is below the target {target}", v.pal.len(), c.colors)); }
        }
        return Ok(());
    }
    if v.err == "Unsupported" && c.legit("quantize", &v.err) { return Ok(()); }
    if v.err != "QualityTooLow" { return Err(format!("quantize failed: {}", v.err)); }
    if min == 0 { return Err("quality too low was returned although no minimum is set".into()); }
    if c.fixed == Fixed::None && n_colors <= c.colors as usize { return Err(format!("quality too low was returned for an image of {n_colors} colours that fits in {}", c.colors)); }
    // the same without the floor really is worse than the floor
    let mut c0 = c.clone(); c0.quality = Some((0, target));
    let v0 = quantize(&c0, &p)?;
    if !v0.ok { return Err(format!("quantize without minimum failed: {}", v0.err)); }
    if known {
        let real = weighted_error(&w, &v0.pal, &g);
        let limit = quality_to_mse(min) * if n_colors <= 256 { 0.33 } else { 1. };
        if real < limit * if c.speed < 7 { 0.8 } else { 0.5 } - 1e-6 { return Err(format!("quality too low was returned, but the palette without minimum has error {:.4}, within {:.4} of quality {min}", std_mse(real), std_mse(limit))); }
    }
    Ok(())
}

pub fn run(x: &Ctx) {
    // every minimum, every target
    let step = x.q(5, 1);
    let mut items = vec![];
    for (ct, colors) in x.q(vec![(Content::Photo, 16), (Content::Noise, 64), (Content::AlphaExt, 8)], vec![(Content::Photo, 16), (Content::Noise, 64), (Content::AlphaExt, 8), (Content::Rgb, 256), (Content::Clusters(6), 5), (Content::Gray, 4)]) {
        for min in (0..=100u8).step_by(step) { for target in (min..=100).step_by(step) { for speed in x.q(vec![4], vec![1, 4, 7, 8, 10]) { for via in [Via::Image, Via::HistColors] {
            let mut c = base(); c.content = ct; c.colors = colors; c.quality = Some((min, target)); c.speed = speed; c.imp = if via == Via::Image { Imp::Max } else { Imp::None }; c.via = via;
            items.push(c);
        } } } }
    }
    x.explore("all-quality-ranges", &items, |c| c.to_string(), check);
    // every minimum quality against target 100, more images
    let all: Vec<Option<(u8, u8)>> = (0..=100u8).step_by(x.q(2, 1)).map(|m| Some((m, 100))).collect();
    let d = vec![dim(&all, |c, v| c.quality = v), dim(&[2u32, 8, 256], |c, v| c.colors = v), dim(&[1, 4, 6, 7, 8, 10], |c, v| c.speed = v), dim(&[Content::Photo, Content::Noise, Content::Gray, Content::NearDup, Content::CountA(200)], |c, v| c.content = v)];
    let mut b = base(); b.imp = Imp::Max;
    x.explore("minimums", &product(&b, &d), |c| c.to_string(), check);
    // other settings
    let mut bases = vec![];
    for q in [(0, 60), (50, 100), (80, 95), (100, 100)] { for im in [Imp::None, Imp::Max] { let mut b = base(); b.quality = Some(q); b.imp = im; bases.push(b); } }
    let d: Vec<_> = dims().into_iter().enumerate().filter(|(i, _)| ![7usize, 9, 12, 14].contains(i)).map(|x| x.1).collect();
    x.explore("deviations", &space_of(&bases, &d, x.q(2, 3)), |c| c.to_string(), check);
    // images that fit exactly always succeed at 100-100, at every colour count up to the limit
    let mut items = vec![];
    for n in (1..=256usize).step_by(x.q(5, 1)) { for alpha in [false, true] { for speed in [1, 4, 7] { items.push((n, alpha, speed)); } } }
    x.explore("exact-fit", &items, |i| format!("{} colours alpha={} speed={}", i.0, i.1, i.2), |&(n, alpha, speed)| {
        let mut c = base(); c.content = if alpha { Content::CountA(n as u32) } else { Content::Count(n as u32) }; c.w = 16; c.h = 17; c.colors = n.max(2) as u32; c.speed = speed; c.quality = Some((100, 100));
        let p = c.pixels();
        let v = quantize(&c, &p)?;
        trace();
        if !v.ok { return Err(format!("{}: image with {} colours", v.err, distinct(&p).len())); }
        if v.qq != Some(100) { return Err(format!("quality {:?}", v.qq)); }
        Ok(())
    });
    // and with any target, also with posterization: a floor can always be met by using all colours
    let mut items = vec![];
    for n in x.q(vec![2usize, 5, 16, 40, 100, 256], vec![1, 2, 3, 5, 9, 16, 27, 40, 64, 100, 200, 256]) { for ct in 0..3 { for (min, target) in x.q(vec![(10u8, 10u8), (30, 60), (60, 60), (60, 99), (80, 95), (95, 95), (99, 99)], vec![(1, 1), (10, 10), (20, 80), (30, 60), (45, 50), (60, 60), (60, 99), (70, 70), (80, 80), (80, 95), (90, 99), (95, 95), (97, 98), (99, 99)]) {
        for speed in [1, 4, 6, 7, 8, 10] { for post in 0..=4u8 { for im in [Imp::None, Imp::Max] { items.push((n, ct, min, target, speed, post, im)); } } }
    } } }
    x.explore("few-colours", &items, |i| format!("{i:?}"), |&(n, ct, min, target, speed, post, im)| {
        let mut c = base(); c.content = match ct { 0 => Content::Count(n as u32), 1 => Content::CountA(n as u32), _ => Content::Clusters(n as u16) }; c.w = 16; c.h = 17; c.colors = n.max(2) as u32; c.speed = speed; c.quality = Some((min, target)); c.post = post; c.imp = im;
        let p = c.pixels();
        let d = distinct(&p).len();
        if d > c.colors as usize { c.colors = d.min(256) as u32; }
        if d > 256 { return Ok(()); }
        let v = quantize(&c, &p)?;
        trace();
        if !v.ok && std::env::var("CAL").is_ok() { eprintln!("CAL5 {n} {ct} {min} {target} {speed} {post} {im:?}"); }
        if !v.ok { return Err(format!("{}: image with {d} colours", v.err)); }
        if v.qq.map_or(true, |q| q < min) { return Err(format!("quality {:?}", v.qq)); }
        Ok(())
    });
    // histograms: floor applies to them too, also when weights differ by orders of magnitude
    let mut items = vec![];
    for wts in 0..3usize.pow(x.q(4, 6)) { for min in [0u8, 30, 60, 90, 100] { items.push((wts, min)); } }
    let k = x.q(4usize, 6);
    x.explore("histogram-weights", &items, |i| format!("{i:?}"), |&(wts, min)| {
        let mut a = Attributes::new(); a.set_quality(min, 100).unwrap(); a.set_max_colors(4).unwrap();
        let mut h = Histogram::new(&a);
        let mut e = vec![]; let mut t = wts;
        for i in 0..12 { let c = crate::pix::sep(i); let w = if i < k { [1u32, 40, 2000][t % 3] } else { 30 }; t /= 3; e.push((c, w as f64)); h.add_colors(&[HistogramEntry { color: c, count: w }], 0.).unwrap(); op(); }
        op();
        trace();
        match h.quantize(&a) {
            Ok(mut r) => {
                let q = r.quantization_quality();
                if min > 0 && q.map_or(true, |q| q < min) { return Err(format!("quality {q:?} is below {min}")); }
                let real = weighted_error(&e, &r.palette_vec(), &Gam::new(0.));
                if let Some(er) = r.quantization_error() { if real > from_std(er) * 1.5 + 1e-4 { return Err(format!("reported {er}, real {}", std_mse(real))); } }
                Ok(())
            },
            Err(Error::QualityTooLow) if min > 0 => Ok(()),
            Err(e) => Err(format!("{e:?}")),
        }
    });
}
