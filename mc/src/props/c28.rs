//! The maximum (target) quality: it is reached if that is possible, with no more colours than needed.
use super::c05::weighted_error;
use crate::core::*;
use crate::model::*;
use crate::pipe::*;
use crate::pix::{distinct, Content};
use imagequant::{Histogram, HistogramEntry, Image, RGBA};

fn cal(what: &str, r: f64, s: String) { if std::env::var("CAL").is_ok() { println!("CAL {what} {r:.3} {s}"); } }

struct Row { target: u8, len: usize, real: f64, qq: Option<u8> }
/// rounding of the palette to 8 bits
const FLOOR: f64 = 4e-5;

pub fn run(x: &Ctx) {
    let contents = x.q(
        vec![Content::Photo, Content::Noise, Content::NoiseA, Content::Rgb, Content::Gray, Content::AlphaGrad, Content::Clusters(6), Content::Dark, Content::CountA(200), Content::Few(40)],
        vec![Content::Photo, Content::Noise, Content::NoiseA, Content::Rgb, Content::Gray, Content::AlphaGrad, Content::Clusters(6), Content::Clusters(12), Content::SemiNoise, Content::Dark, Content::Bright, Content::CountA(200), Content::Count(257), Content::Few(40), Content::Blob, Content::Sparse, Content::NearDup]);
    let shapes = x.q(vec![(32usize, 32usize), (64, 48)], vec![(32, 32), (64, 48), (17, 90), (128, 140)]);
    let mut targets: Vec<u8> = x.q((0..=100).step_by(5).chain([92, 97, 99]).collect(), (0..=100).collect());
    targets.sort();
    // what a plain median cut needs for each error, computed once per picture
    let pics: Vec<(Content, (usize, usize))> = contents.iter().flat_map(|c| shapes.iter().map(move |s| (*c, *s))).collect();
    let cfg = |ct: Content, (w, h): (usize, usize)| { let mut b = base(); b.content = ct; b.w = w; b.h = h; b.dither = 0.; b };
    let counts: Vec<usize> = (1..=256).collect();
    let curves: Vec<Vec<f64>> = std::thread::scope(|s| {
        let t: Vec<_> = pics.iter().map(|(ct, sh)| { let p = cfg(*ct, *sh).pixels(); let counts = &counts; s.spawn(move || reference_curve(&p, counts, &Gam::new(0.), 0.1)) }).collect();
        t.into_iter().map(|t| t.join().unwrap()).collect()
    });
    let mut items = vec![];
    for sh in &shapes { for speed in 1..=10 { for via in [Via::Image, Via::HistColors] { for colors in x.q(vec![256u32, 60], vec![256, 128, 60, 17]) { items.push((*sh, speed, via, colors)); } } } }
    x.explore("targets", &items, |i| format!("{i:?}"), |&(sh, speed, via, colors)| {
        let g = Gam::new(0.);
        let (mut sum, mut cnt) = (0., 0.);
        for ((ct, _), refr) in pics.iter().zip(&curves).filter(|p| p.0.1 == sh) {
            let mut b = cfg(*ct, sh); b.speed = speed; b.via = via; b.colors = colors;
            b.imp = if via == Via::Image { Imp::Max } else { Imp::None };
            let p = b.pixels();
            let n = distinct(&p).len();
            let wt: Vec<(RGBA, f64)> = p.iter().map(|p| (*p, 1.)).collect();
            let mut rows: Vec<Row> = vec![];
            for &t in &targets {
                let mut c = b.clone(); c.quality = Some((0, t));
                let a = c.attr();
                let mut img = c.image(&a, &p).map_err(|e| format!("{e:?}"))?;
                let mut r = c.quantize(&a, &mut img, &p).map_err(|e| format!("{c}: {e:?}"))?;
                let pal = r.palette_vec();
                trace();
                outcome(hash_bytes(format!("{pal:?}").as_bytes()));
                let row = Row { target: t, len: pal.len(), real: weighted_error(&wt, &pal, &g), qq: r.quantization_quality() };
                let limit = quality_to_mse(t);
                // the smallest number of colours with which the reference gets there
                let need = (1..=colors as usize).find(|k| refr[k - 1] <= limit).unwrap_or(colors as usize).min(n);
                if t < 100 {
                    cal("need", row.len as f64 / need as f64, format!("{c} len {} need {need}", row.len));
                    if row.len > need * 2 + 24 { return Err(format!("{c}: {} colours are used for the target quality {t}, a plain median cut needs {need}", row.len)); }
                }
                if (50..100).contains(&t) && need >= 8 { sum += (row.len as f64 / need as f64).ln(); cnt += 1.; }
                if refr[colors as usize - 1] <= limit * 0.5 {
                    cal("reach", (row.real - FLOOR).max(0.) / limit, format!("{c} len {} q {:?}", row.len, row.qq));
                    if row.real > limit * 1.3 + FLOOR { return Err(format!("{c}: error {:.6} with {} colours misses the target quality {t} ({limit:.6}), a plain median cut can reach {:.6}", row.real, row.len, refr[colors as usize - 1])); }
                }
                rows.push(row);
            }
            for i in 0..rows.len() { for j in 0..i {
                let (a, b) = (&rows[j], &rows[i]);
                // a lower target (a) is never dearer, a higher target (b) never worse
                if a.len > b.len { cal("mono", a.len as f64 / b.len as f64, format!("{ct:?} {sh:?} s{speed} {via:?} c{colors} t{} {} t{} {}", a.target, a.len, b.target, b.len)); }
                if b.real > a.real + FLOOR { cal("err", (b.real - FLOOR).max(0.) / a.real, format!("{ct:?} {sh:?} s{speed} {via:?} c{colors} t{} {} t{} {}", a.target, a.len, b.target, b.len)); }
                if a.len as f64 > b.len as f64 * if b.target - a.target < 10 { 1.35 } else { 1.15 } + 2. { return Err(format!("{ct:?}: {} colours for the target quality {}, but only {} for {}", a.len, a.target, b.len, b.target)); }
                // (unless it got what it was asked for)
                if b.real > (a.real * if b.target - a.target < 10 { 1.6 } else { 1.25 }).max(quality_to_mse(b.target)) + FLOOR { return Err(format!("{ct:?}: error {:.6} for the target quality {}, but {:.6} for {}", b.real, b.target, a.real, a.target)); }
            } }
        }
        let m = (sum / cnt as f64).exp();
        cal("mean", m, format!("{sh:?} s{speed} {via:?} c{colors}"));
        if m > 1.15 { return Err(format!("on average {m:.3} times as many colours are used for a target quality as a plain median cut needs")); }
        Ok(())
    });
    // only the shares of the colours matter, not how many pixels there are
    let mut items = vec![];
    for ct in &contents { for speed in 1..=10 { for t in x.q(vec![20u8, 50, 70, 85, 95], vec![5, 10, 20, 30, 40, 50, 60, 65, 70, 75, 80, 85, 90, 95, 98]) { items.push((*ct, speed, t)); } } }
    x.explore("repetition", &items, |i| format!("{i:?}"), |&(ct, speed, t)| {
        let mut c = cfg(ct, (24, 24)); c.speed = speed; c.colors = 256; c.quality = Some((0, t));
        let p = c.pixels();
        let a = c.attr();
        let mut len = vec![];
        for (hist, reps) in [(true, 1u32), (true, 7), (true, 1000), (false, 1), (false, 2), (false, 25)] {
            let mut r = if hist {
                let mut h = Histogram::new(&a);
                h.add_colors(&p.iter().map(|p| HistogramEntry { color: *p, count: reps * 255 }).collect::<Vec<_>>(), 0.).map_err(|e| format!("{e:?}"))?;
                h.quantize(&a)
            } else {
                let mut q = p.clone(); for _ in 1..reps { q.extend(&p); }
                let mut img = Image::new(&a, q, 24, 24 * reps as usize, 0.).map_err(|e| format!("{e:?}"))?;
                img.set_importance_map(vec![255u8; 24 * 24 * reps as usize]).map_err(|e| format!("{e:?}"))?;
                a.quantize(&mut img)
            }.map_err(|e| format!("{e:?}"))?;
            op(); trace();
            len.push(r.palette_vec().len());
        }
        let (min, max) = (*len.iter().min().unwrap(), *len.iter().max().unwrap());
        cal("rep", (max - min) as f64, format!("{c} {len:?}"));
        if max > min + min / 3 + 3 { return Err(format!("the number of colours for the target quality {t} depends on the number of pixels: {len:?} for counts x1, x7, x1000 and pixels x1, x2, x25")); }
        Ok(())
    });
    // other settings: lower targets are never dearer
    let mut bases = vec![];
    for (ct, im) in [(Content::Photo, Imp::None), (Content::NoiseA, Imp::Max)] { let mut b = base(); b.content = ct; b.imp = im; b.w = 24; b.h = 20; b.colors = 64; bases.push(b); }
    let d: Vec<_> = dims().into_iter().enumerate().filter(|(i, _)| ![7usize, 9, 12, 14].contains(i)).map(|x| x.1).collect();
    x.explore("deviations", &space_of(&bases, &d, x.q(2, 3)), |c| c.to_string(), |c| {
        let p = c.pixels();
        let mut last: Option<(u8, usize)> = None;
        for t in [20u8, 60, 85, 100] {
            let mut c = c.clone(); c.quality = Some((0, t));
            let a = c.attr();
            let mut img = c.image(&a, &p).map_err(|e| format!("{e:?}"))?;
            let mut r = match c.quantize(&a, &mut img, &p) { Ok(r) => r, Err(e) => { if c.legit("quantize", &format!("{e:?}")) { return Ok(()); } return Err(format!("{e:?}")) } };
            trace();
            let len = r.palette_vec().len();
            if let Some((t0, l0)) = last {
                cal("dev", l0 as f64 - len as f64, format!("{c} {t0} {l0} {t} {len}"));
                if l0 > len + len / 10 + 2 { return Err(format!("{l0} colours for the target quality {t0}, but only {len} for {t}")); }
            }
            last = Some((t, len));
        }
        Ok(())
    });
}
