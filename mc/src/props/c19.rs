//! No crash, no hang, no nonsense numbers: configurations and call sequences under the developers' own
//! assertions and overflow checks (profile `checked`), and the smallest of them under Miri.
use crate::core::*;
use crate::pipe::*;
use crate::pix::{make, px, Content};
use imagequant::{Attributes, Error, Histogram, HistogramEntry, Image, QuantizationResult, RGBA};
use std::mem::MaybeUninit;

fn sane(o: &Out) -> Result<(), String> {
    for (n, v) in [("quantization error", o.qerr), ("remapping error", o.rerr)] { if let Some(v) = v { if !(v.is_finite() && v >= 0.) { return Err(format!("{n} is {v}")); } } }
    for q in [o.qq, o.rq].into_iter().flatten() { if q > 100 { return Err(format!("quality {q}")); } }
    if o.err.is_none() && (o.pal.is_empty() || o.pal0.is_empty()) { return Err("empty palette".into()); }
    Ok(())
}
fn check(c: &Cfg) -> Result<(), String> {
    let o = crate::pipe::run(c);
    trace();
    if let Some((s, e)) = &o.err { if !c.legit(s, e) && e != "Unsupported" { return Err(format!("{s} failed with {e}")); } }
    sane(&o)
}

const OPS: &[&str] = &["new image 4x4", "new image 5x3 from callback", "new transparent image 1x1", "continue with clone of image", "importance all 0", "importance gradient", "set background", "set background of wrong size", "add fixed colours", "histogram add image", "histogram add extreme counts", "histogram add fixed", "quantize image", "quantize histogram", "remap dithered", "remap", "extreme output gamma", "next speed", "2 colours", "quality 60-70 and posterize 4", "read palette", "continue with clone of result", "new histogram", "prepare for dithering", "fixed colour on huge count histogram"];

struct W { a: Attributes, i: Option<Image<'static>>, h: Histogram, r: Option<QuantizationResult>, spd: usize }
impl W {
    fn img(&self, ct: Content, w: usize, h: usize) -> Image<'static> { Image::new(&self.a, make(ct, w, h), w, h, 0.).unwrap() }
    fn step(&mut self, o: usize) -> Result<(), String> {
        op();
        let soft = |r: Result<(), Error>| -> Result<(), String> { let _ = r; Ok(()) };
        match o {
            0 => self.i = Some(self.img(Content::Photo, 4, 4)),
            1 => { let p = make(Content::AlphaExt, 5, 3); self.i = Some(unsafe { Image::new_fn(&self.a, move |row, y| for (i, o) in row.iter_mut().enumerate() { o.write(p[y * 5 + i]); }, 5, 3, 1.) }.unwrap()); },
            2 => self.i = Some(Image::new(&self.a, vec![px(9, 9, 9, 0)], 1, 1, 1e-300).unwrap()),
            3 => if let Some(i) = self.i.take() { let c = i.clone(); drop(i); self.i = Some(c); },
            4 | 5 => if let Some(i) = &mut self.i { let n = i.width() * i.height(); soft(i.set_importance_map(imp_map(if o == 4 { Imp::Zero } else { Imp::Grad }, n).unwrap()))?; },
            6 | 7 => if let Some(i) = &self.i { let (w, h) = (i.width() + (o == 7) as usize, i.height()); let b = self.img(Content::Rgb, w, h); let r = self.i.as_mut().unwrap().set_background(b); if (r.is_ok()) != (o == 6) { return Err(format!("{}: {r:?}", OPS[o])); } },
            8 => if let Some(i) = &mut self.i { for f in [px(1, 2, 3, 0), px(255, 0, 0, 255), px(255, 0, 0, 255)] { soft(i.add_fixed_color(f))?; } },
            9 => if let Some(i) = &mut self.i { soft(self.h.add_image(&self.a, i))?; },
            10 => { let e: Vec<HistogramEntry> = [(px(0, 0, 0, 255), u32::MAX), (px(255, 255, 255, 1), u32::MAX), (px(0, 0, 0, 255), u32::MAX), (px(7, 7, 7, 7), 1), (px(9, 9, 9, 0), 0)].iter().map(|x| HistogramEntry { color: x.0, count: x.1 }).collect(); soft(self.h.add_colors(&e, f64::MIN_POSITIVE))?; },
            11 => { soft(self.h.add_fixed_color(px(128, 128, 128, 128), 1.))?; soft(self.h.add_fixed_color(px(0, 0, 0, 0), 0.))?; },
            12 => if let Some(i) = &mut self.i { if let Ok(r) = self.a.quantize(i) { self.r = Some(r); } },
            13 => if let Ok(r) = self.h.quantize(&self.a) { self.r = Some(r); },
            14 | 15 => if let (Some(i), Some(r)) = (&mut self.i, &mut self.r) {
                r.set_dithering_level(if o == 14 { 1. } else { 0. }).unwrap();
                let mut out = Out { pal0: r.palette_vec(), ..Out::default() };
                match remap(r, i, &mut out) { Ok(()) => { sane(&out)?; if out.idx.iter().any(|x| *x as usize >= out.pal.len()) { return Err("index outside of palette".into()); } }, Err(e) => return Err(format!("remap: {e:?}")) }
                outcome(out.digest());
            },
            16 => if let Some(r) = &mut self.r { let g = if r.output_gamma() < 0.5 { 0.99999 } else { 1e-300 }; r.set_output_gamma(g).map_err(|e| format!("{e:?}"))?; },
            17 => { self.spd = (self.spd + 1) % 5; self.a.set_speed([4, 1, 10, 6, 7][self.spd]).unwrap(); },
            18 => self.a.set_max_colors(2).unwrap(),
            19 => { self.a.set_quality(60, 70).unwrap(); self.a.set_min_posterization(4).unwrap(); },
            20 => if let Some(r) = &mut self.r { let p = r.palette_vec(); if p.is_empty() || p.len() != r.palette_len() { return Err(format!("palette of {} entries, {} announced", p.len(), r.palette_len())); } let o = Out { pal0: p.clone(), pal: p, qerr: r.quantization_error(), rerr: r.remapping_error(), qq: r.quantization_quality(), rq: r.remapping_quality(), ..Out::default() }; sane(&o)?; },
            21 => if let Some(r) = self.r.take() { self.r = Some(r.clone()); },
            22 => self.h = Histogram::new(&self.a),
            23 => if let (Some(i), Some(r)) = (&mut self.i, &mut self.r) { let mut b = vec![MaybeUninit::new(0u8); i.width() * i.height()]; soft(r.optionally_prepare_for_dithering_with_background_set(i, &mut b))?; },
            _ => { let e: Vec<HistogramEntry> = (0..if cfg!(miri) { 20 } else { 300u32 }).map(|k| HistogramEntry { color: px(k as u8, (k >> 1) as u8, 99, 255), count: u32::MAX >> (k % 32) }).collect(); soft(self.h.add_colors(&e, 0.))?; soft(self.h.add_fixed_color(px(1, 1, 1, 255), 0.))?; },
        }
        Ok(())
    }
}
fn seq(ops: &[usize]) -> Result<(), String> {
    let a = Attributes::new();
    let mut w = W { h: Histogram::new(&a), a, i: None, r: None, spd: 0 };
    for &o in ops { w.step(o)?; }
    trace();
    Ok(())
}

pub fn run(x: &Ctx) {
    if cfg!(miri) { return miri(x); }
    // call sequences, after each way of starting
    let n = OPS.len();
    let starts: Vec<Vec<usize>> = vec![vec![], vec![0, 12], vec![1, 12], vec![24, 1, 13], vec![2]];
    let depth = x.q(3, 4);
    for (si, s) in starts.iter().enumerate() {
        let depth = if si == 0 { depth + 1 } else { depth };
        let items: Vec<usize> = (0..n.pow(depth as u32)).collect();
        let dec = |&code: &usize| { let mut c = code; let mut v = s.clone(); for _ in 0..depth { v.push(c % n); c /= n; } v };
        x.explore(&format!("seq{si}"), &items, |i| dec(i).iter().map(|o| OPS[*o]).collect::<Vec<_>>().join(", "), |i| seq(&dec(i)));
    }
    // configurations
    let mut bases = vec![];
    for (ct, speed) in [(Content::Photo, 4), (Content::NoiseA, 6), (Content::Noise, 8)] { let mut b = base(); b.content = ct; b.speed = speed; bases.push(b); }
    let mut d = dims();
    d[8] = dim(&[1.0f64, 0.2, 1e-300, f64::MIN_POSITIVE, 0.9999999], |c, v| c.gin = v);
    d[9] = dim(&[Some(0.3f64), Some(1e-300), Some(0.9999999)], |c, v| c.gout = v);
    d[11] = dim(&[Imp::Max, Imp::HalfZero, Imp::Grad, Imp::One, Imp::OnlyLast, Imp::Zero], |c, v| c.imp = v);
    x.explore("configurations", &space_of(&bases[..x.q(2, 3)], &d, 2), |c| c.to_string(), check);
    if x.thorough() {
        let mut b = base(); b.w = 8; b.h = 8;
        x.explore("configurations3", &space_of(&[b], &d, 3), |c| c.to_string(), check);
    }
    // every small shape, every representation of the rows
    let mut items = vec![];
    for w in 1..=x.q(12usize, 24) { for h in 1..=x.q(12usize, 24) { for ct in [Content::Photo, Content::NoiseA, Content::Checker] { for speed in [1, 4, 8] { for bg in [Bg::None, Bg::Shift] { let mut c = base(); c.w = w; c.h = h; c.content = ct; c.speed = speed; c.colors = 4; c.bg = bg; items.push(c); } } } } }
    for h in [127usize, 128, 129, 130, 255, 256, 257, 384, 385] { for w in [1usize, 2, 5, 2050] { for cpus in [1, 2, 3, 8, 64] { for bg in [Bg::None, Bg::Shift] { let mut c = base(); c.w = w; c.h = h; c.speed = 6; c.colors = 4; c.bg = bg; c.cpus = cpus; items.push(c); } } } }
    // very wide and very tall, long runs of one colour
    for long in x.q(vec![1100usize, 2200, 6554, 26300, 70000], vec![1100, 2200, 6554, 13200, 26300, 33000, 65536, 70000, 270000]) { for (short, turn) in [(1usize, false), (4, false), (5, true), (7, false)] { for ct in [Content::Flat, Content::TwoTone, Content::Photo, Content::NoiseA] { for speed in x.q(vec![1, 4, 10], vec![1, 2, 4, 6, 8, 10]) { let mut c = base(); c.w = if turn { short } else { long }; c.h = if turn { long } else { short }; c.speed = speed; c.colors = 5; c.content = ct; c.bg = if short == 7 { Bg::Shift } else { Bg::None }; items.push(c); } } } }
    x.explore("shapes", &items, |c| c.to_string(), check);
    // degenerate weights
    let mut items = vec![];
    for pat in 0..64usize { for speed in [1, 4, 7, 10] { for colors in [2u32, 3, 256] { for fixed in [false, true] { items.push((pat, speed, colors, fixed)); } } } }
    x.explore("weights", &items, |i| format!("histogram of three colours with counts {:?}, speed {}, {} colours, fixed colour {}", counts(i.0), i.1, i.2, i.3), |&(pat, speed, colors, fixed)| {
        let mut a = Attributes::new();
        a.set_speed(speed).unwrap(); a.set_max_colors(colors).unwrap();
        let mut h = Histogram::new(&a);
        let c: [RGBA; 3] = [px(0, 0, 0, 255), px(255, 255, 255, 255), px(3, 200, 1, 3)];
        let e: Vec<HistogramEntry> = counts(pat).iter().zip(c).map(|(n, c)| HistogramEntry { color: c, count: *n }).collect();
        op();
        h.add_colors(&e, 0.).map_err(|e| format!("{e:?}"))?;
        if fixed { h.add_fixed_color(px(8, 8, 8, 255), 0.).map_err(|e| format!("{e:?}"))?; }
        op();
        match h.quantize(&a) {
            Ok(mut r) => {
                let p = r.palette_vec();
                let o = Out { pal0: p.clone(), pal: p, qerr: r.quantization_error(), qq: r.quantization_quality(), ..Out::default() };
                sane(&o)?;
                let mut i = Image::new(&a, make(Content::NoiseA, 6, 5), 6, 5, 0.).unwrap();
                let mut o = Out { pal0: o.pal0, ..Out::default() };
                remap(&mut r, &mut i, &mut o).map_err(|e| format!("{e:?}"))?;
                sane(&o)
            },
            Err(Error::Unsupported) if counts(pat).iter().all(|c| *c == 0) && !fixed => Ok(()),
            Err(e) => Err(format!("{e:?}")),
        }
    });
}
fn counts(p: usize) -> [u32; 3] { let k = [0, 1, 1 << 24, u32::MAX]; [k[p % 4], k[p / 4 % 4], k[p / 16 % 4]] }

/// Under Miri: the hand-picked histories below, and every history that inserts one operation (thorough: two)
/// anywhere into one of the base pipelines. Parts run as separate processes.
fn miri(x: &Ctx) {
    let env = |k: &str, d: usize| std::env::var(k).ok().and_then(|p| p.parse().ok()).unwrap_or(d);
    let (part, parts) = (env("MC_PART", 0), env("MC_PARTS", 1));
    let mut v: Vec<Vec<usize>> = vec![
        vec![0, 3, 6, 8, 12, 14, 21, 15, 20],
        vec![1, 5, 12, 16, 14, 17, 12],
        vec![2, 3, 12, 14, 3, 15],
        vec![10, 11, 13, 1, 14],
        vec![18, 1, 3, 7, 9, 13, 15, 3, 14],
        vec![0, 4, 11, 9, 13, 23, 14],
        vec![17, 0, 3, 12, 21, 14],
        vec![19, 17, 17, 1, 12, 3, 14],
    ];
    let bases: [&[usize]; 5] = [&[17, 17, 1, 12, 14], &[18, 0, 12, 15], &[17, 17, 17, 17, 0, 3, 12, 14], &[10, 13, 1, 14], &[17, 17, 17, 2, 12, 14]];
    let ins = |b: &[usize]| { let mut o = vec![]; for at in 0..=b.len() { for k in 0..OPS.len() { let mut s = b.to_vec(); s.insert(at, k); o.push(s); } } o };
    for b in bases { v.extend(ins(b)); }
    if x.thorough() { for b in [&bases[0][2..], bases[3]] { for s in ins(b) { v.extend(ins(&s)); } } }
    let mut seen = std::collections::HashSet::new();
    v.retain(|s| seen.insert(s.clone()));
    let v: Vec<_> = v.into_iter().enumerate().filter(|(i, _)| i % parts == part).map(|x| x.1).collect();
    x.explore(&format!("miri{part}"), &v, |s| s.iter().map(|o| OPS[*o]).collect::<Vec<_>>().join(", "), |s| seq(s));
    // shapes around the places where work is split
    let mut items = vec![];
    for (w, h, d, ct) in [(1, 1, 1., Content::Flat), (1, 130, 1., Content::Rgb), (4, 4, 0., Content::NoiseA), (2, 129, 1., Content::NoiseA), (5, 1, 1., Content::AlphaExt), (1, 5, 1., Content::AlphaExt), (3, 3, 0.5, Content::Checker), (2, 257, 1., Content::TwoTone)] { for (bg, speed) in [(Bg::None, 10), (Bg::Shift, 10), (Bg::None, 6), (Bg::Shift, 5)] { let mut c = base(); c.w = w; c.h = h; c.content = ct; c.speed = speed; c.colors = 3; c.dither = d; c.bg = bg; items.push(c); } }
    let items: Vec<_> = items.into_iter().enumerate().filter(|(i, _)| i % parts == part).map(|x| x.1).collect();
    x.explore(&format!("miri-shapes{part}"), &items, |c| c.to_string(), check);
}
