//! Dithering on average.
use crate::core::*;
use crate::model::*;
use crate::pix::{px, show_pal, show_px};
use imagequant::{Attributes, Histogram, Image, RGBA};

fn cal(what: &str, r: f64, s: String) { if std::env::var("CAL").is_ok() { println!("CAL {what} {r:.3} {s}"); } }
fn dist(a: &F, b: &F) -> f64 { (0..4).map(|c| (a[c] - b[c]).powi(2)).sum::<f64>().sqrt() }

#[derive(Clone, Debug)]
struct D { pal: usize, t: usize, kind: usize, w: usize, h: usize, speed: i32, cpus: usize, level: f32 }
const PALS: &[&[RGBA]] = &[
    &[p0(100, 100, 100, 255), p0(140, 140, 140, 255)],
    &[p0(0, 0, 0, 255), p0(255, 255, 255, 255)],
    &[p0(200, 60, 60, 255), p0(160, 90, 60, 255)],
    &[p0(40, 80, 160, 255), p0(60, 80, 200, 255), p0(40, 120, 160, 255)],
    &[p0(30, 30, 30, 255), p0(90, 90, 90, 255), p0(160, 160, 160, 255), p0(240, 240, 240, 255)],
    &[p0(90, 120, 60, 255), p0(90, 120, 60, 180)],
    &[p0(250, 250, 250, 255), p0(220, 220, 220, 255)],
    &[p0(0, 0, 0, 255), p0(40, 0, 0, 255), p0(0, 40, 0, 255), p0(0, 0, 40, 255)],
];
const fn p0(r: u8, g: u8, b: u8, a: u8) -> RGBA { RGBA { r, g, b, a } }
fn mix(a: RGBA, b: RGBA, t: f64) -> RGBA {
    let m = |x: u8, y: u8| (x as f64 + (y as f64 - x as f64) * t).round() as u8;
    px(m(a.r, b.r), m(a.g, b.g), m(a.b, b.b), m(a.a, b.a))
}
impl D {
    fn pixels(&self) -> Vec<RGBA> {
        let p = PALS[self.pal];
        let (a, b) = (p[self.t / 8 % p.len()], p[(self.t / 8 + 1) % p.len()]);
        let t = (self.t % 8) as f64 / 8.;
        (0..self.w * self.h).map(|i| {
            let (x, y) = (i % self.w, i / self.w);
            match self.kind {
                0 => mix(a, b, t),
                // gentle gradients
                1 => mix(a, b, (t + x as f64 / self.w as f64) / 2.),
                // busy above, flat below
                3 => if y < self.h / 2 { [a, b][(x / 2 + y / 2 + (x * y / 5)) % 2] } else { mix(a, b, t) },
                _ => mix(a, b, (t + y as f64 / self.h as f64) / 2.),
            }
        }).collect()
    }
    fn remap(&self, level: f32) -> Result<(Vec<RGBA>, Vec<u8>), String> {
        set_cpus(self.cpus);
        let mut a = Attributes::new();
        a.set_speed(self.speed).unwrap();
        let mut h = Histogram::new(&a);
        for c in PALS[self.pal] { h.add_fixed_color(*c, 0.).unwrap(); }
        let mut r = h.quantize(&a).map_err(|e| format!("{e:?}"))?;
        r.set_dithering_level(level).unwrap();
        op(); op(); op(); op();
        let o = r.remapped(&mut Image::new(&a, self.pixels(), self.w, self.h, 0.).unwrap()).map_err(|e| format!("{e:?}"))?;
        outcome(hash_bytes(&o.1));
        trace();
        Ok(o)
    }
}
/// sums over rectangles
struct Sums { w: usize, t: Vec<F> }
impl Sums {
    fn new(w: usize, v: &[F]) -> Self {
        let mut t = vec![[0.; 4]; (w + 1) * (v.len() / w + 1)];
        for (i, p) in v.iter().enumerate() { let (x, y) = (i % w + 1, i / w + 1); for k in 0..4 { t[y * (w + 1) + x][k] = p[k] + t[(y - 1) * (w + 1) + x][k] + t[y * (w + 1) + x - 1][k] - t[(y - 1) * (w + 1) + x - 1][k]; } }
        Sums { w: w + 1, t }
    }
    fn mean(&self, x: usize, y: usize, w: usize, h: usize) -> F { let at = |x: usize, y: usize| self.t[y * self.w + x]; let (a, b, c, d) = (at(x, y), at(x + w, y), at(x, y + h), at(x + w, y + h)); let n = (w * h) as f64; [0, 1, 2, 3].map(|k| (d[k] - b[k] - c[k] + a[k]) / n) }
}
/// one way to cut the picture into areas: size, and how far the mean may be off in units of the palette step
struct Area { name: &'static str, w: usize, h: usize, slow: f64, fast: f64 }
fn local(d: &D) -> Result<(), String> {
    let p = d.pixels();
    let (pal, idx) = d.remap(d.level)?;
    let g = Gam::new(0.);
    let q = PALS[d.pal];
    let gap = dist(&g.f(q[d.t / 8 % q.len()]), &g.f(q[(d.t / 8 + 1) % q.len()]));
    let pf: Vec<F> = pal.iter().map(|p| g.f(*p)).collect();
    let inp: Vec<F> = p.iter().map(|p| g.f(*p)).collect();
    let un: Vec<F> = inp.iter().map(|f| pf[nearest(f, &pf).0]).collect();
    let (si, so, su) = (Sums::new(d.w, &inp), Sums::new(d.w, &idx.iter().map(|i| pf[*i as usize]).collect::<Vec<_>>()), Sums::new(d.w, &un));
    let areas = [
        Area { name: "block", w: 8, h: 8, slow: 0.2, fast: 0.25 },
        Area { name: "rows", w: d.w, h: 4, slow: 0.2, fast: 0.26 },
        Area { name: "columns", w: 4, h: d.h, slow: 0.24, fast: 0.26 },
        Area { name: "picture", w: d.w, h: d.h, slow: 0.2, fast: 0.22 },
    ];
    for a in areas {
        let (w, h) = (a.w.min(d.w), a.h.min(d.h));
        let mut worst = (0., 0, 0);
        let mut gain = 0f64;
        for y in 0..=d.h - h { for x in 0..=d.w - w {
            let (i, o, u) = (si.mean(x, y, w, h), so.mean(x, y, w, h), su.mean(x, y, w, h));
            let e = dist(&i, &o) / gap;
            if e > worst.0 { worst = (e, x, y); }
            let v = dist(&i, &u) / gap;
            if v > 0.2 { gain = gain.max(e / v); }
        } }
        cal(&format!("{} {}", a.name, if d.speed < 7 { "slow" } else { "fast" }), worst.0, format!("{d:?}"));
        cal(&format!("{}-gain {}", a.name, if d.speed < 7 { "slow" } else { "fast" }), gain, format!("{d:?}"));
        let bound = if d.speed < 7 { a.slow } else { a.fast };
        if worst.0 > bound { return Err(format!("the mean of the {w}x{h} area at {},{} is off by {:.3} of the step between the palette colours, limit {bound}; palette {}", worst.1, worst.2, worst.0, show_pal(&pal))); }
    }
    Ok(())
}

/// error of the mean of areas of the picture, relative to the step between its palette colours
fn picture_error(d: &D, f: &mut dyn FnMut(&dyn Fn(usize, usize, usize, usize) -> f64)) -> Result<(), String> {
    let g = Gam::new(0.);
    let p = d.pixels();
    let (pl, idx) = d.remap(d.level)?;
    let q = PALS[d.pal];
    let gap = dist(&g.f(q[d.t / 8 % q.len()]), &g.f(q[(d.t / 8 + 1) % q.len()]));
    let pf: Vec<F> = pl.iter().map(|p| g.f(*p)).collect();
    let (si, so) = (Sums::new(d.w, &p.iter().map(|p| g.f(*p)).collect::<Vec<_>>()), Sums::new(d.w, &idx.iter().map(|i| pf[*i as usize]).collect::<Vec<_>>()));
    f(&|x, y, w, h| dist(&si.mean(x, y, w, h), &so.mean(x, y, w, h)) / gap);
    Ok(())
}
/// the rows after a place where work is split are as good as any others, on average over palettes and colours
fn seams(w: usize, h: usize, speed: i32, cpus: usize) -> Result<(), String> {
    let chunks = (w * h / 524_288).min(h / 128).max(2).min(cpus);
    let step = (h + chunks - 1) / chunks;
    let mut logs = 0.;
    for pal in 0..PALS.len() { for kind in 0..2 {
        let (mut at, mut other, mut n, mut m) = (0., 0., 0., 0.);
        for t in 0..8 * (PALS[pal].len() - 1) {
            if t % 8 == 0 && kind == 0 { continue; }
            picture_error(&D { pal, t, kind, w, h, speed, cpus, level: 1. }, &mut |e| {
                for k in 1..chunks { at += e(0, k * step, w, 2); n += 1.; }
                for y in 8..h - 2 { if y % step > 4 { other += e(0, y, w, 2); m += 1.; } }
            })?;
        }
        logs += ((at / n) / (other / m)).ln();
    } }
    let r = (logs / (2 * PALS.len()) as f64).exp();
    cal("seam", r, format!("{w}x{h} {speed} {cpus}"));
    let bound = if speed < 7 { 1.2 } else { 1.12 };
    if r > bound { return Err(format!("rows where work is split between threads are off {r:.3} times as much as other rows, limit {bound}")); }
    Ok(())
}
/// the outermost rows and columns are dithered as well, on average over palettes and colours
fn borders(w: usize, h: usize, speed: i32) -> Result<(), String> {
    let (mut sum, mut n) = ([0f64; 4], 0.);
    for pal in 0..PALS.len() { for kind in 0..3 { for t in 0..8 * (PALS[pal].len() - 1) {
        picture_error(&D { pal, t, kind, w, h, speed, cpus: 1, level: 1. }, &mut |e| {
            for (k, v) in [e(0, 0, 1, h), e(w - 1, 0, 1, h), e(0, 0, w, 1), e(0, h - 1, w, 1)].into_iter().enumerate() { sum[k] += v; }
            n += 1.;
        })?;
    } } }
    for (k, name) in ["first column", "last column", "first row", "last row"].into_iter().enumerate() {
        let r = sum[k] / n;
        cal(&format!("border {name}"), r, format!("{w}x{h} {speed}"));
        let bound = BORDER[k][(speed > 6) as usize];
        if r > bound { return Err(format!("the mean of the {name} is off by {r:.3} of the step between palette colours on average, limit {bound}")); }
    }
    Ok(())
}
const BORDER: [[f64; 2]; 4] = [[0.14, 0.155], [0.14, 0.155], [0.13, 0.15], [0.09, 0.115]];
/// areas are dithered according to what is in them, also when they are worked on by another thread than the rest
fn halves(w: usize, h: usize, speed: i32) -> Result<(), String> {
    let mut one = 0.;
    for cpus in [1, 2, 4] {
        let (mut sum, mut n) = (0., 0.);
        for pal in 0..PALS.len() { for t in 0..8 * (PALS[pal].len() - 1) {
            picture_error(&D { pal, t, kind: 3, w, h, speed, cpus, level: 1. }, &mut |e| {
                for y in (h / 2 + 8..=h - 8).step_by(4) { for x in (0..=w - 8).step_by(4) { sum += e(x, y, 8, 8); n += 1.; } }
            })?;
        } }
        let v = sum / n;
        if cpus == 1 { one = v; }
        cal("halves", v / one, format!("{v:.4} {w}x{h} {speed} {cpus}"));
        if v > one * 1.15 { return Err(format!("{cpus} CPUs: 8x8 blocks in the flat half of the picture are off by {v:.4} of the step between palette colours on average, with one CPU by {one:.4}")); }
    }
    Ok(())
}
/// mean error over all colours between the palettes', for the whole picture and for small blocks
fn bias(w: usize, h: usize, speed: i32, cpus: usize) -> Result<(), String> {
    let (mut sum, mut sumb) = (0., 0.);
    for pal in 0..PALS.len() { for kind in 0..3 {
        let (mut whole, mut block, mut n, mut nb) = (0., 0., 0., 0.);
        for t in 0..8 * (PALS[pal].len() - 1) {
            picture_error(&D { pal, t, kind, w, h, speed, cpus, level: 1. }, &mut |e| {
                whole += e(0, 0, w, h); n += 1.;
                for y in (0..=h - 8).step_by(4) { for x in (0..=w - 8).step_by(4) { block += e(x, y, 8, 8); nb += 1.; } }
            })?;
        }
        let (a, b) = (whole / n, block / nb);
        cal("one", a.max(b), format!("{pal} {kind} {w}x{h} {speed} {cpus}"));
        let bound = if speed < 7 { 0.075 } else { 0.105 };
        if a.max(b) > bound { return Err(format!("palette {}, picture kind {kind}: mean is off by {a:.3}, of 8x8 blocks {b:.3} of the step between palette colours on average, limit {bound}", show_pal(PALS[pal]))); }
        sum += a; sumb += b;
    } }
    let n = (3 * PALS.len()) as f64;
    let (a, b) = (sum / n, sumb / n);
    cal("bias", a, format!("{b:.3} {w}x{h} {speed} {cpus}"));
    let (la, lb) = if speed < 7 { (0.033, 0.038) } else { (0.066, 0.073) };
    if a > la || b > lb { return Err(format!("means are off by {a:.4} (pictures, limit {la}) and {b:.4} (8x8 blocks, limit {lb}) of the step between palette colours on average")); }
    Ok(())
}
/// patches of palette colours come out as they are
fn flat(pal: usize, w: usize, h: usize, patch: usize, speed: i32, cpus: usize, level: f32) -> Result<(), String> {
    set_cpus(cpus);
    let mut a = Attributes::new();
    a.set_speed(speed).unwrap();
    let mut hi = Histogram::new(&a);
    for c in PALS[pal] { hi.add_fixed_color(*c, 0.).unwrap(); }
    let mut r = hi.quantize(&a).map_err(|e| format!("{e:?}"))?;
    r.set_dithering_level(level).unwrap();
    let p: Vec<RGBA> = (0..w * h).map(|i| { let (x, y) = (i % w / patch, i / w / patch); PALS[pal][(x * 3 + y * 5 + x * y) % PALS[pal].len()] }).collect();
    let (pl, idx) = r.remapped(&mut Image::new(&a, p.clone(), w, h, 0.).unwrap()).map_err(|e| format!("{e:?}"))?;
    for _ in 0..4 { op(); }
    trace();
    for (i, q) in p.iter().enumerate() { if pl[idx[i] as usize] != *q { return Err(format!("pixel {},{} {} of a flat area is shown as {}", i % w, i / w, show_px(q), show_px(&pl[idx[i] as usize]))); } }
    Ok(())
}
/// partial levels: never further away than no dithering
fn levels(d: &D) -> Result<(), String> {
    let mut e = vec![];
    for level in [0f32, 0.05, 0.1, 0.25, 0.5, 0.75, 0.9, 1.] { picture_error(&D { level, ..d.clone() }, &mut |f| e.push(f(0, 0, d.w, d.h)))?; }
    for (i, v) in e.iter().enumerate().skip(1) {
        cal("level", v - e[0], format!("{i} {d:?}"));
        if *v > e[0] + 0.1 { return Err(format!("the mean at dithering level number {i} is off by {v:.3} of the step between palette colours, without dithering by {:.3}", e[0])); }
    }
    // level 0 is the closest colour
    let (pl, idx) = d.remap(0.)?;
    let g = Gam::new(0.);
    let pf: Vec<F> = pl.iter().map(|p| g.f(*p)).collect();
    for (i, p) in d.pixels().iter().enumerate() { let f = g.f(*p); if diff(&f, &pf[idx[i] as usize]) > nearest(&f, &pf).1 + super::c06::EPS { return Err(format!("pixel {i} {} is dithered at level 0: {}", show_px(p), show_px(&pl[idx[i] as usize]))); } }
    Ok(())
}

pub fn run(x: &Ctx) {
    let mut items = vec![];
    for pal in 0..PALS.len() { for t in 0..8 * (PALS[pal].len() - 1) { for kind in 0..3 { for (w, h) in [(16usize, 16usize), (33, 17), (8, 40), (40, 8), (24, 140), (16, 300)] { for speed in [1, 4, 7, 10] { for cpus in [1, 2, 4] {
        if cpus > 1 && h <= 128 { continue; }
        items.push(D { pal, t, kind, w, h, speed, cpus, level: 1. });
    } } } } } }
    x.explore("blocks", &items, |i| format!("{i:?}"), local);
    let mut items = vec![];
    for (w, h) in x.q(vec![(24usize, 140usize), (64, 300), (200, 260)], vec![(24, 140), (64, 300), (200, 260), (60, 600), (1100, 1000)]) { for speed in x.q(vec![4, 7], vec![2, 3, 4, 5, 6, 7, 8, 10]) { for cpus in [2, 4] { items.push((w, h, speed, cpus)); } } }
    for (w, h) in x.q(vec![(24usize, 138usize), (25, 145), (64, 290)], vec![(24, 138), (25, 145), (64, 290), (60, 602), (200, 262), (31, 137)]) { for speed in x.q(vec![4, 7], vec![2, 3, 4, 5, 6, 7, 8, 10]) { for cpus in [2, 4] { items.push((w, h, speed, cpus)); } } }
    x.explore("seams", &items, |i| format!("{i:?}"), |&(w, h, speed, cpus)| seams(w, h, speed, cpus));
    let mut items = vec![];
    for (w, h) in x.q(vec![(16usize, 16usize), (33, 17), (24, 140), (64, 64)], vec![(16, 16), (33, 17), (17, 33), (24, 140), (64, 64), (200, 200), (130, 260)]) { for speed in 1..=10 { items.push((w, h, speed)); } }
    let mut tall = vec![];
    for (w, h) in x.q(vec![(24usize, 140usize), (40, 301), (17, 600)], vec![(24, 140), (40, 301), (17, 600), (70, 1100), (16, 258)]) { for speed in 1..=10 { tall.push((w, h, speed)); } }
    x.explore("halves", &tall, |i| format!("{i:?}"), |&(w, h, speed)| halves(w, h, speed));
    x.explore("borders", &items, |i| format!("{i:?}"), |&(w, h, speed)| borders(w, h, speed));
    let mut items = vec![];
    for (w, h) in x.q(vec![(16usize, 16usize), (33, 17), (24, 140), (64, 64)], vec![(16, 16), (33, 17), (24, 140), (64, 64), (200, 200), (17, 520), (130, 260)]) { for speed in 1..=10 { for cpus in [1, 2, 4] { if cpus > 1 && h <= 128 { continue; } items.push((w, h, speed, cpus)); } } }
    x.explore("bias", &items, |i| format!("{i:?}"), |&(w, h, speed, cpus)| bias(w, h, speed, cpus));
    let mut items = vec![];
    for pal in 0..PALS.len() { for (w, h) in [(16usize, 16usize), (1, 1), (7, 5), (33, 17), (24, 140), (1, 300)] { for patch in [1usize, 2, 5, 16, 400] { for speed in [1, 4, 7, 10] { for cpus in [1, 2] { for level in [0f32, 0.1, 0.5, 1.] { items.push((pal, w, h, patch, speed, cpus, level)); } } } } } }
    x.explore("flat", &items, |i| format!("{i:?}"), |&(pal, w, h, patch, speed, cpus, level)| flat(pal, w, h, patch, speed, cpus, level));
    let mut items = vec![];
    for pal in 0..PALS.len() { for t in 0..8 * (PALS[pal].len() - 1) { for kind in 0..3 { for (w, h) in [(16usize, 16usize), (33, 17), (24, 140)] { for speed in [1, 4, 7, 10] { items.push(D { pal, t, kind, w, h, speed, cpus: 2, level: 1. }); } } } } }
    x.explore("levels", &items, |i| format!("{i:?}"), levels);
}
