//! Reference colour arithmetic, written from the documentation and specification of the colour difference.
use imagequant::RGBA;

pub const DEFAULT_GAMMA: f64 = 0.45455;
const INTERNAL: f64 = 0.57;
const WA: f64 = 0.625;
const W: [f64; 3] = [0.5, 1.0, 0.45];
const WEIGHT_MSE: f64 = 0.45;

/// premultiplied, weighted: [r,g,b,a]
pub type F = [f64; 4];

#[derive(Clone)]
pub struct Gam { pub lut: [f64; 256], pub gamma: f64 }
impl Gam {
    pub fn new(gamma: f64) -> Self {
        let gamma = if gamma > 0. { gamma } else { DEFAULT_GAMMA };
        let mut lut = [0.; 256];
        for (i, l) in lut.iter_mut().enumerate() { *l = (i as f64 / 255.).powf(INTERNAL / gamma); }
        Self { lut, gamma }
    }
    pub fn f(&self, p: RGBA) -> F {
        let a = p.a as f64 / 255.;
        [self.lut[p.r as usize] * W[0] * a, self.lut[p.g as usize] * W[1] * a, self.lut[p.b as usize] * W[2] * a, a * WA]
    }
}

pub fn diff(x: &F, y: &F) -> f64 {
    let al = y[3] - x[3];
    let mut s = 0.;
    for c in 0..3 { let b = x[c] - y[c]; let w = b + al; s += (b * b).max(w * w); }
    s
}

/// internal mean difference -> the standard MSE the API reports
pub fn std_mse(d: f64) -> f64 { d * 65536. / 6. / WEIGHT_MSE }
pub fn from_std(m: f64) -> f64 { m * 6. * WEIGHT_MSE / 65536. }

pub fn quality_to_mse(q: u8) -> f64 {
    if q == 0 { return 1e20; }
    if q >= 100 { return 0.; }
    let q = q as f64;
    let fudge = (0.016 / (0.001 + q) - 0.001).max(0.);
    WEIGHT_MSE * (fudge + 2.5 / (210. + q).powf(1.2) * (100.1 - q) / 100.)
}
pub fn mse_to_quality(m: f64) -> u8 { (1..=100).rev().find(|&q| m <= quality_to_mse(q) + 0.000001).unwrap_or(0) }

/// input gamma -> output gamma conversion of one channel
pub fn regamma(c: u8, gin: f64, gout: f64) -> u8 {
    let v = (c as f64 / 255.).powf(INTERNAL / gin).powf(gout / INTERNAL);
    (v * 256.).min(255.) as u8
}

pub fn posterize(c: u8, bits: u8) -> u8 { if bits == 0 { c } else { (c & !((1u8 << bits) - 1)) | (c >> (8 - bits)) } }
pub fn posterize_px(p: RGBA, bits: u8) -> RGBA { RGBA { r: posterize(p.r, bits), g: posterize(p.g, bits), b: posterize(p.b, bits), a: posterize(p.a, bits) } }

/// index of the nearest palette entry and its difference
pub fn nearest(p: &F, pal: &[F]) -> (usize, f64) {
    let mut b = (0, f64::MAX);
    for (i, q) in pal.iter().enumerate() { let d = diff(p, q); if d < b.1 { b = (i, d); } }
    b
}

pub fn mean_error(pixels: &[RGBA], pal: &[RGBA], idx: &[u8], g: &Gam) -> f64 {
    let pf: Vec<F> = pal.iter().map(|p| g.f(*p)).collect();
    pixels.iter().zip(idx).map(|(p, i)| diff(&g.f(*p), &pf[*i as usize])).sum::<f64>() / pixels.len() as f64
}

/// Plain weighted median cut in the same colour space: the reference quantizer of C25.
pub fn reference_median_cut(pixels: &[RGBA], colors: usize, g: &Gam) -> f64 {
    reference_curve(pixels, &[colors], g, 1.)[0]
}
/// errors of the reference for several ascending colour counts. `cap`: the largest share of the weight one colour can have
pub fn reference_curve(pixels: &[RGBA], counts: &[usize], g: &Gam, cap: f64) -> Vec<f64> {
    let mut hist: std::collections::BTreeMap<u32, (F, f64)> = Default::default();
    for p in pixels { hist.entry(crate::pix::canon(*p)).or_insert_with(|| (g.f(*p), 0.)).1 += 1.; }
    let mut items: Vec<(F, f64)> = hist.into_values().collect();
    let total = pixels.len() as f64;
    for i in items.iter_mut() { i.1 = i.1.min(total * cap); }
    let n: f64 = items.iter().map(|x| x.1).sum();
    let mut boxes = vec![items.clone()];
    let mut res = vec![];
    let avg = |b: &[(F, f64)]| { let t: f64 = b.iter().map(|x| x.1).sum(); let mut m = [0.; 4]; for x in b { for c in 0..4 { m[c] += x.0[c] * x.1 / t; } } m };
    for &colors in counts {
    while boxes.len() < colors {
        // split the box with the largest weighted variance at its weighted median along its widest channel
        let Some((i, _, ch)) = boxes.iter().enumerate().filter(|b| b.1.len() > 1).map(|(i, b)| {
            let m = avg(b);
            let mut v = [0.; 4];
            for x in b { for c in 0..4 { v[c] += (x.0[c] - m[c]).powi(2) * x.1; } }
            let (c, mv) = v.iter().enumerate().fold((0, -1.), |a, (c, x)| if *x > a.1 { (c, *x) } else { a });
            (i, mv, c)
        }).max_by(|a, b| a.1.partial_cmp(&b.1).unwrap()) else { break };
        let mut b = boxes.swap_remove(i);
        b.sort_by(|x, y| x.0[ch].partial_cmp(&y.0[ch]).unwrap());
        let t: f64 = b.iter().map(|x| x.1).sum();
        let mut acc = 0.; let mut k = 0;
        while k < b.len() - 1 { acc += b[k].1; k += 1; if acc * 2. >= t { break; } }
        let r = b.split_off(k.max(1));
        boxes.push(b); boxes.push(r);
    }
    let pal: Vec<F> = boxes.iter().map(|b| avg(b)).collect();
    res.push(items.iter().map(|x| nearest(&x.0, &pal).1 * x.1).sum::<f64>() / n);
    }
    res
}
