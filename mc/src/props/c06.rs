//! Undithered remapping picks the nearest entry.
use crate::core::*;
use crate::model::*;
use crate::pipe::*;
use crate::pix::{px, sep, show_pal, show_px, Content};
use imagequant::{Attributes, Error, Histogram, Image, RGBA};

pub const EPS: f64 = 3e-6;

/// `seen` is what the remap produced for `pixels`
pub fn judge(pixels: &[RGBA], o: &Out, gin: f64, gout: f64) -> Result<(), String> {
    let gi = Gam::new(gin); let go = Gam::new(gout);
    let pal: Vec<F> = o.pal.iter().map(|p| go.f(*p)).collect();
    let mut cache: std::collections::HashMap<u32, f64> = Default::default();
    let mut sum = 0.;
    for (i, p) in pixels.iter().enumerate() {
        let f = gi.f(*p);
        let best = *cache.entry(u32::from_ne_bytes([p.r, p.g, p.b, p.a])).or_insert_with(|| nearest(&f, &pal).1);
        let k = o.idx[i] as usize;
        if k >= pal.len() { return Err(format!("pixel {i} has index {k}, palette has {}", pal.len())); }
        let d = diff(&f, &pal[k]);
        if d > best * (1. + 1e-4) + EPS { return Err(format!("pixel {i} {} was mapped to entry {k} {} at difference {d:.6}, but entry {} {} is at {best:.6}; palette {}", show_px(p), show_px(&o.pal[k]), nearest(&f, &pal).0, show_px(&o.pal[nearest(&f, &pal).0]), show_pal(&o.pal))); }
        sum += d;
    }
    trace();
    let mean = sum / pixels.len() as f64;
    let (Some(e), Some(q)) = (o.rerr, o.rq) else { return Err("no remapping error reported".into()) };
    if (from_std(e) - mean).abs() > mean * 1e-3 + EPS { return Err(format!("reported remapping error {e} but the actual one is {}", std_mse(mean))); }
    if q > mse_to_quality(from_std(e) * (1. - 1e-6) - 1e-9) || q < mse_to_quality(from_std(e) * (1. + 1e-6) + 1e-9) { return Err(format!("remapping quality {q} for error {e} (expected {})", mse_to_quality(from_std(e)))); }
    Ok(())
}

fn check(c: &Cfg) -> Result<(), String> {
    let p = c.pixels();
    let o = run_px(c, &p);
    if let Some((s, e)) = &o.err { return if c.legit(s, e) { Ok(()) } else { Err(format!("{s} failed: {e}")) }; }
    judge(&p, &o, c.gin, o.gamma)
}

/// a result whose palette is exactly `pal` (in some order)
pub fn exact_palette(attr: &Attributes, pal: &[RGBA], gamma: f64) -> Result<imagequant::QuantizationResult, Error> {
    let mut h = Histogram::new(attr);
    for c in pal { op(); h.add_fixed_color(*c, gamma)?; }
    op();
    h.quantize(attr)
}

pub struct PalCase { pub pal: Vec<RGBA>, pub pixels: Vec<RGBA>, pub w: usize, pub gamma: f64, pub name: String }
fn check_pal(c: &PalCase) -> Result<(), String> {
    let a = Attributes::new();
    let mut r = exact_palette(&a, &c.pal, c.gamma).map_err(|e| format!("{e:?}"))?;
    r.set_dithering_level(0.).unwrap();
    let mut img = Image::new(&a, c.pixels.clone(), c.w, c.pixels.len() / c.w, c.gamma).map_err(|e| format!("{e:?}"))?;
    let mut o = Out::default();
    remap(&mut r, &mut img, &mut o).map_err(|e| format!("{e:?}"))?;
    outcome(o.digest());
    if o.pal.len() != crate::props::c04::expected(&c.pal, 256).len() { return Err(format!("palette has {} entries instead of {}", o.pal.len(), c.pal.len())); }
    judge(&c.pixels, &o, c.gamma, c.gamma)
}

/// palettes of size n in different arrangements
pub fn families(n: usize) -> Vec<(String, Vec<RGBA>)> {
    let f = |name: &str, g: &dyn Fn(usize) -> RGBA| (format!("{name}{n}"), (0..n).map(g).collect::<Vec<_>>());
    let l = |i: usize| crate::pix::lcg(i as u64 * 7 + 1);
    vec![
        f("gray", &|i| { let v = (i * 255 / n.max(2)) as u8; px(v, v, v, 255) }),
        f("sep", &|i| sep(i)),
        f("noise", &|i| { let r = l(i); px(r as u8, (r >> 8) as u8, (r >> 16) as u8, 255) }),
        f("noisea", &|i| { let r = l(i + 1000); px(r as u8, (r >> 8) as u8, (r >> 16) as u8, (r >> 24) as u8) }),
        f("tight", &|i| px(100 + (i % 7) as u8, 150 + (i / 7 % 7) as u8, 200 + (i / 49) as u8, 255)),
        f("alpha", &|i| px(200, 100, 50, (255 - i) as u8)),
        f("twoclusters", &|i| if i % 2 == 0 { px((i / 2 % 16) as u8, (i / 32) as u8, 0, 255) } else { px(255 - (i / 2 % 16) as u8, 255 - (i / 32) as u8, 255, 255) }),
        f("greenline", &|i| px(10, i as u8, 10, 255)),
        f("shell", &|i| { let t = i as f64 * 0.7; let s = |x: f64| (128. + 127. * x) as u8; px(s((t).sin()), s((t * 1.7).cos()), s((t * 0.3).sin()), 255) }),
    ]
}

pub fn run(x: &Ctx) {
    // whole pipeline without dithering
    let mut b = base(); b.dither = 0.;
    let mut b2 = b.clone(); b2.content = Content::NoiseA; b2.colors = 256; b2.w = 33; b2.h = 33;
    let d: Vec<_> = dims().into_iter().enumerate().filter(|(i, _)| *i != 7 && *i != 12).map(|x| x.1).collect();
    x.explore("deviations", &space_of(&[b, b2], &d, x.q(2, 3)), |c| c.to_string(), check);
    // every palette of up to three (four) colours over an alphabet, every pixel of a grid
    let alpha = [px(0, 0, 0, 255), px(255, 255, 255, 255), px(0, 0, 0, 0), px(255, 0, 0, 255), px(254, 1, 0, 255), px(0, 128, 255, 255), px(0, 128, 255, 128), px(255, 255, 255, 10), px(127, 127, 127, 255), px(128, 127, 127, 254)];
    let lv = [0u8, 1, 64, 127, 128, 200, 254, 255];
    let mut grid = vec![];
    for a in [0u8, 1, 100, 254, 255] { for r in lv { for g in lv { for b in lv { grid.push(px(r, g, b, a)); } } } }
    let mut items = vec![];
    let mut sets: Vec<Vec<usize>> = vec![vec![]];
    let mut all = vec![];
    for _ in 0..x.q(3, 5) { sets = sets.iter().flat_map(|s| ((s.last().map_or(0, |l| l + 1))..alpha.len()).map(move |k| { let mut s = s.clone(); s.push(k); s })).collect(); all.extend(sets.clone()); }
    for s in all { for g in [0., 1.] { items.push(PalCase { pal: s.iter().map(|k| alpha[*k]).collect(), pixels: grid.clone(), w: 64, gamma: g, name: format!("{s:?}") }); } }
    x.explore("small-palettes", &items, |c| format!("palette {} gamma {}", show_pal(&c.pal), c.gamma), check_pal);
    // every palette size, several arrangements; pixels: palette colours, midpoints, grid, noise
    let sizes: Vec<usize> = x.q(vec![1, 2, 3, 6, 7, 8, 9, 13, 14, 15, 16, 31, 64, 127, 128, 200, 255, 256], (1..=256).collect());
    let mut items = vec![];
    for n in sizes { for (name, pal) in families(n) {
        let mut pixels: Vec<RGBA> = pal.clone();
        for w in pal.windows(2) { let m = |a: u8, b: u8| ((a as u16 + b as u16) / 2) as u8; pixels.push(px(m(w[0].r, w[1].r), m(w[0].g, w[1].g), m(w[0].b, w[1].b), m(w[0].a, w[1].a))); pixels.push(w[0]); }
        for i in 0..x.q(1500u64, 4000) { let r = crate::pix::lcg(i); pixels.push(px(r as u8, (r >> 8) as u8, (r >> 16) as u8, if i % 3 == 0 { (r >> 24) as u8 } else { 255 })); }
        let w = 50; while pixels.len() % w != 0 { pixels.push(px(1, 2, 3, 255)); }
        items.push(PalCase { pal, pixels, w, gamma: 0., name });
    } }
    x.explore("palette-sizes", &items, |c| format!("palette {} {}", c.name, show_pal(&c.pal)), check_pal);
    // guesses come from the previous pixel: every ordered pair of colours next to each other
    let mut items = vec![];
    for n in x.q(vec![5usize, 16, 40], vec![3, 5, 8, 16, 24, 40, 64, 100]) { for (name, pal) in families(n) {
        let mut al: Vec<RGBA> = pal.clone();
        for p in &pal { al.push(px(p.r ^ 3, p.g.saturating_add(9), p.b / 2, p.a)); }
        al.truncate(x.q(60, 130));
        let mut pixels = vec![];
        for a in &al { for b in &al { pixels.push(*a); pixels.push(*b); } }
        let w = 2 * al.len();
        items.push(PalCase { pal, pixels, w, gamma: 0., name });
    } }
    x.explore("neighbour-pairs", &items, |c| format!("palette {} {}", c.name, show_pal(&c.pal)), check_pal);
    // dense colour cube
    let mut cube = vec![];
    let st = x.q(17usize, 9);
    for r in (0..256).step_by(st) { for g in (0..256).step_by(st) { for b in (0..256).step_by(st) { for a in [255u8, 90] { cube.push(px(r as u8, g as u8, b as u8, a)); } } } }
    let w = 32; while cube.len() % w != 0 { cube.push(px(0, 0, 0, 0)); }
    let mut items = vec![];
    for n in x.q(vec![16usize, 256], vec![8, 16, 33, 100, 256]) { for (name, pal) in families(n) { items.push(PalCase { pal, pixels: cube.clone(), w, gamma: 0., name }); } }
    x.explore("colour-cube", &items, |c| format!("palette {} {}", c.name, show_pal(&c.pal)), check_pal);
    // pictures of every order of magnitude, up to more pixels than 32 bits can count
    let mut items = vec![(1usize, 1usize), (65537, 1), (1, 65537), (2048, 2049), (4097, 4097), (70000, 300)];
    if x.thorough() { items.extend([(1 << 24, 17), (65536, 65536), (65536, 65537)]); }
    x.explore("areas", &items, |i| format!("{i:?}"), |&(w, h)| {
        let mut a = Attributes::new(); a.set_speed(10).unwrap();
        let pal = [px(0, 0, 0, 255), px(255, 255, 255, 255)];
        let mut hist = Histogram::new(&a);
        for p in pal { hist.add_fixed_color(p, 0.).unwrap(); }
        let mut r = hist.quantize(&a).map_err(|e| format!("{e:?}"))?;
        r.set_dithering_level(0.).unwrap();
        let color = |x: usize, y: usize| if (x ^ y) & 64 == 0 { px(20, 20, 20, 255) } else { px(200, 210, 220, 255) };
        // nobody can hold the larger ones
        let mut img = unsafe { Image::new_fn(&a, move |row, y| for (x, p) in row.iter_mut().enumerate() { p.write(color(x, y)); }, w, h, 0.) }.map_err(|e| format!("{e:?}"))?;
        let mut buf = vec![];
        let got = r.remap_into_vec(&mut img, &mut buf).map_err(|e| format!("{e:?}"))?;
        op(); trace();
        if buf.len() != w * h { return Err(format!("{} pixels", buf.len())); }
        let g = Gam::new(0.);
        let k = |c: RGBA| (0..2).map(|i| (i as u8, diff(&g.f(c), &g.f(got[i])))).min_by(|a, b| a.1.partial_cmp(&b.1).unwrap()).unwrap();
        let (dark, light) = (k(px(20, 20, 20, 255)), k(px(200, 210, 220, 255)));
        let mut count = [0f64; 2];
        for (y, row) in buf.chunks_exact(w).enumerate() { for (x, i) in row.iter().enumerate() {
            let l = ((x ^ y) & 64 != 0) as usize;
            count[l] += 1.;
            if *i != [dark.0, light.0][l] { return Err(format!("pixel {x},{y} {} was mapped to {}", show_px(&color(x, y)), show_px(&got[*i as usize]))); }
        } }
        let mean = (count[0] * dark.1 + count[1] * light.1) / (w as f64 * h as f64);
        let e = r.remapping_error().ok_or("no remapping error reported")?;
        if !((from_std(e) - mean).abs() <= mean * 1e-3 + EPS) { return Err(format!("reported remapping error {e} but the actual one is {}", std_mse(mean))); }
        Ok(())
    });
}
