//! One configuration of the whole pipeline, how to run it, and the enumeration of configurations.
use crate::core::*;
use crate::pix::{self, make, px, Content};
use imagequant::{Attributes, Error, Histogram, HistogramEntry, Image, QuantizationResult, RGBA};
use std::mem::MaybeUninit;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Via { Image, HistImage, HistColors }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fixed { None, Foreign, InImage, Transp, Semi, Dup, Many(usize), Near, Gray(usize) }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Imp { None, Max, Zero, HalfZero, Grad, One, OnlyLast }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Bg { None, Same, Flat, Transp, Shift, Alpha }

#[derive(Clone, PartialEq, Debug)]
pub struct Cfg {
    pub w: usize, pub h: usize, pub content: Content,
    pub speed: i32, pub colors: u32, pub quality: Option<(u8, u8)>, pub post: u8, pub last: bool,
    pub dither: f32, pub gin: f64, pub gout: Option<f64>,
    pub fixed: Fixed, pub imp: Imp, pub bg: Bg, pub via: Via, pub cpus: usize,
}
impl Default for Cfg {
    fn default() -> Self { Cfg { w: 16, h: 16, content: Content::Photo, speed: 4, colors: 16, quality: None, post: 0, last: false, dither: 1., gin: 0., gout: None, fixed: Fixed::None, imp: Imp::None, bg: Bg::None, via: Via::Image, cpus: 2 } }
}
impl std::fmt::Display for Cfg {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}x{} {:?} speed={} colors={}", self.w, self.h, self.content, self.speed, self.colors)?;
        if let Some(q) = self.quality { write!(f, " quality={}-{}", q.0, q.1)?; }
        if self.post != 0 { write!(f, " posterize={}", self.post)?; }
        if self.last { write!(f, " last-transparent")?; }
        write!(f, " dither={}", self.dither)?;
        if self.gin != 0. { write!(f, " gamma={}", self.gin)?; }
        if let Some(g) = self.gout { write!(f, " out-gamma={g}")?; }
        if self.fixed != Fixed::None { write!(f, " fixed={:?}", self.fixed)?; }
        if self.imp != Imp::None { write!(f, " importance={:?}", self.imp)?; }
        if self.bg != Bg::None { write!(f, " background={:?}", self.bg)?; }
        if self.via != Via::Image { write!(f, " via={:?}", self.via)?; }
        if self.cpus != 2 { write!(f, " cpus={}", self.cpus)?; }
        Ok(())
    }
}

pub fn fixed_list(k: Fixed, pixels: &[RGBA]) -> Vec<RGBA> {
    match k {
        Fixed::None => vec![],
        Fixed::Foreign => vec![px(255, 128, 1, 255), px(0, 77, 0, 255)],
        Fixed::InImage => vec![pixels[0], pixels[pixels.len() / 2]],
        Fixed::Transp => vec![px(5, 6, 7, 0)],
        Fixed::Semi => vec![px(200, 10, 60, 128), px(1, 2, 3, 1)],
        Fixed::Dup => vec![px(1, 200, 3, 255), px(9, 9, 9, 255), px(1, 200, 3, 255), px(0, 0, 255, 255)],
        Fixed::Many(n) => (0..n).map(|i| px((i * 5 % 256) as u8, (i * 11 % 256) as u8, (i / 2 % 256) as u8, 255)).collect(),
        Fixed::Near => { let p = pixels[0]; vec![px(p.r ^ 1, p.g, p.b, p.a.max(1))] },
        Fixed::Gray(n) => (0..n).map(|i| { let v = (i * 255 / n.max(2)) as u8; px(v, v, v, 255) }).collect(),
    }
}
pub fn imp_map(k: Imp, n: usize) -> Option<Vec<u8>> {
    match k {
        Imp::None => None,
        Imp::Max => Some(vec![255; n]),
        Imp::Zero => Some(vec![0; n]),
        Imp::HalfZero => Some((0..n).map(|i| if i * 2 < n { 0 } else { 255 }).collect()),
        Imp::Grad => Some((0..n).map(|i| (i * 255 / n.max(1)) as u8).collect()),
        Imp::One => Some(vec![1; n]),
        Imp::OnlyLast => Some((0..n).map(|i| if i + 1 == n { 3 } else { 0 }).collect()),
    }
}
pub fn bg_pixels(k: Bg, p: &[RGBA], w: usize) -> Option<Vec<RGBA>> {
    match k {
        Bg::None => None,
        Bg::Same => Some(p.to_vec()),
        Bg::Flat => Some(vec![px(90, 120, 90, 255); p.len()]),
        Bg::Transp => Some(vec![px(1, 2, 3, 0); p.len()]),
        Bg::Shift => Some((0..p.len()).map(|i| p[(i + w + 1) % p.len()]).collect()),
        Bg::Alpha => Some((0..p.len()).map(|i| px(p[i].r, p[i].g, p[i].b, (i * 37 % 256) as u8)).collect()),
    }
}

impl Cfg {
    pub fn pixels(&self) -> Vec<RGBA> { make(self.content, self.w, self.h) }
    pub fn attr(&self) -> Attributes {
        let mut a = Attributes::new();
        a.set_speed(self.speed).unwrap();
        a.set_max_colors(self.colors).unwrap();
        if let Some((m, t)) = self.quality { a.set_quality(m, t).unwrap(); }
        a.set_min_posterization(self.post).unwrap();
        a.set_last_index_transparent(self.last);
        for _ in 0..5 { op(); }
        a
    }
    pub fn fixed_colors(&self, pixels: &[RGBA]) -> Vec<RGBA> { fixed_list(self.fixed, pixels) }
    pub fn importance(&self) -> Option<Vec<u8>> { imp_map(self.imp, self.w * self.h) }
    pub fn gamma(&self) -> f64 { if self.gin > 0. { self.gin } else { crate::model::DEFAULT_GAMMA } }
    pub fn decorate(&self, attr: &Attributes, img: &mut Image<'_>, pixels: &[RGBA]) -> Result<(), Error> {
        if let Some(m) = self.importance() { op(); img.set_importance_map(m)?; }
        if let Some(b) = bg_pixels(self.bg, pixels, self.w) { op(); op(); img.set_background(Image::new(attr, b, self.w, self.h, self.gin)?)?; }
        if self.via == Via::Image || self.via == Via::HistImage { for c in self.fixed_colors(pixels) { op(); img.add_fixed_color(c)?; } }
        Ok(())
    }
    pub fn image(&self, attr: &Attributes, pixels: &[RGBA]) -> Result<Image<'static>, Error> {
        op();
        let mut i = Image::new(attr, pixels.to_vec(), self.w, self.h, self.gin)?;
        self.decorate(attr, &mut i, pixels)?;
        Ok(i)
    }
    pub fn quantize(&self, attr: &Attributes, img: &mut Image<'_>, pixels: &[RGBA]) -> Result<QuantizationResult, Error> {
        set_cpus(self.cpus);
        op();
        match self.via {
            Via::Image => attr.quantize(img),
            Via::HistImage => { let mut h = Histogram::new(attr); op(); h.add_image(attr, img)?; op(); h.quantize(attr) },
            Via::HistColors => {
                let mut h = Histogram::new(attr);
                let imp = self.importance();
                let e: Vec<HistogramEntry> = pixels.iter().enumerate().map(|(i, p)| HistogramEntry { color: *p, count: imp.as_ref().map_or(1, |m| m[i] as u32) }).collect();
                op();
                h.add_colors(&e, if self.gin >= 1. { 0.9999 } else { self.gin })?;
                for c in self.fixed_colors(pixels) { op(); h.add_fixed_color(c, self.gin)?; }
                op();
                h.quantize(attr)
            },
        }
    }
    /// errors that are correct answers for this configuration
    pub fn legit(&self, step: &str, err: &str) -> bool {
        step == "quantize" && (err == "QualityTooLow" && self.quality.map_or(false, |q| q.0 > 0)
            || err == "Unsupported" && self.fixed == Fixed::None && self.importance().map_or(false, |m| m.iter().all(|v| *v == 0)))
    }
    pub fn configure(&self, r: &mut QuantizationResult) -> Result<(), Error> {
        op();
        r.set_dithering_level(self.dither)?;
        if let Some(g) = self.gout { op(); r.set_output_gamma(g)?; }
        Ok(())
    }
}

#[derive(Clone, Debug, Default)]
pub struct Out {
    /// name of the step that returned an error, and the error
    pub err: Option<(&'static str, String)>,
    pub pal0: Vec<RGBA>, pub qerr: Option<f64>, pub qq: Option<u8>,
    pub pal: Vec<RGBA>, pub idx: Vec<u8>, pub rerr: Option<f64>, pub rq: Option<u8>, pub gamma: f64,
}
fn beq(a: Option<f64>, b: Option<f64>) -> bool { a.map(f64::to_bits) == b.map(f64::to_bits) }
pub fn near(a: Option<f64>, b: Option<f64>) -> bool { match (a, b) { (Some(a), Some(b)) => (a - b).abs() <= 1e-6 + 1e-4 * a.abs().max(b.abs()), (None, None) => true, _ => false } }
impl Out {
    pub fn digest(&self) -> u64 {
        let mut v = Vec::new();
        if let Some(e) = &self.err { v.extend_from_slice(e.0.as_bytes()); v.extend_from_slice(e.1.as_bytes()); }
        for p in self.pal0.iter().chain(&self.pal) { v.extend_from_slice(&[p.r, p.g, p.b, p.a]); }
        v.extend_from_slice(&self.idx);
        for f in [self.qerr, self.rerr, Some(self.gamma)].into_iter().flatten() { v.extend_from_slice(&f.to_bits().to_le_bytes()); }
        hash_bytes(&v)
    }
    /// first difference, if any; `exact` compares reported errors bit by bit
    pub fn differs(&self, o: &Out, exact: bool) -> Option<String> {
        if self.err != o.err { return Some(format!("outcome {:?} vs {:?}", self.err, o.err)); }
        if self.pal0 != o.pal0 { return Some(format!("palette before remap {} vs {}", pix::show_pal(&self.pal0), pix::show_pal(&o.pal0))); }
        if self.pal != o.pal { return Some(format!("palette {} vs {}", pix::show_pal(&self.pal), pix::show_pal(&o.pal))); }
        if self.idx != o.idx { let k = self.idx.iter().zip(&o.idx).position(|(a, b)| a != b); return Some(format!("indices differ (first at {k:?}, lengths {} {})", self.idx.len(), o.idx.len())); }
        let cmp = if exact { beq } else { near };
        if !cmp(self.qerr, o.qerr) || self.qq != o.qq { return Some(format!("quantization error {:?}/{:?} vs {:?}/{:?}", self.qerr, self.qq, o.qerr, o.qq)); }
        if !cmp(self.rerr, o.rerr) || self.rq != o.rq { return Some(format!("remapping error {:?}/{:?} vs {:?}/{:?}", self.rerr, self.rq, o.rerr, o.rq)); }
        if !cmp(Some(self.gamma), Some(o.gamma)) { return Some(format!("gamma {} vs {}", self.gamma, o.gamma)); }
        None
    }
    /// colour each pixel is shown with
    pub fn shown(&self) -> Vec<RGBA> { self.idx.iter().map(|i| self.pal.get(*i as usize).copied().unwrap_or_default()).collect() }
}

pub fn read(r: &mut QuantizationResult, o: &mut Out) {
    o.pal = r.palette_vec(); o.rerr = r.remapping_error(); o.rq = r.remapping_quality(); o.gamma = r.output_gamma();
    for _ in 0..4 { op(); }
}

pub fn remap(r: &mut QuantizationResult, img: &mut Image<'_>, o: &mut Out) -> Result<(), Error> {
    op();
    let n = img.width() * img.height();
    let mut buf: Vec<MaybeUninit<u8>> = vec![MaybeUninit::new(0xA5); n];
    r.remap_into(img, &mut buf)?;
    o.idx = buf.iter().map(|b| unsafe { b.assume_init() }).collect();
    read(r, o);
    Ok(())
}

/// quantize and remap with given pixels
pub fn run_with(c: &Cfg, attr: &Attributes, img: &mut Image<'_>, pixels: &[RGBA]) -> Out {
    let mut o = Out::default();
    let mut r = match c.quantize(attr, img, pixels) { Ok(r) => r, Err(e) => { o.err = Some(("quantize", format!("{e:?}"))); outcome(o.digest()); return o; } };
    o.qerr = r.quantization_error(); o.qq = r.quantization_quality();
    if let Err(e) = c.configure(&mut r) { o.err = Some(("configure", format!("{e:?}"))); return o; }
    o.pal0 = r.clone().palette_vec();
    if let Err(e) = remap(&mut r, img, &mut o) { o.err = Some(("remap", format!("{e:?}"))); }
    outcome(o.digest());
    o
}
pub fn run_px(c: &Cfg, pixels: &[RGBA]) -> Out {
    let a = c.attr();
    match c.image(&a, pixels) { Ok(mut i) => run_with(c, &a, &mut i, pixels), Err(e) => Out { err: Some(("image", format!("{e:?}"))), ..Out::default() } }
}
pub fn run(c: &Cfg) -> Out { run_px(c, &c.pixels()) }

// ---------------------------------------------------------------- enumeration

pub type Alt = Box<dyn Fn(&mut Cfg) + Sync + Send>;
pub fn dim<T: Clone + Sync + Send + 'static>(vals: &[T], f: impl Fn(&mut Cfg, T) + Sync + Send + Clone + 'static) -> Vec<Alt> {
    vals.iter().map(|v| { let v = v.clone(); let f = f.clone(); Box::new(move |c: &mut Cfg| f(c, v.clone())) as Alt }).collect()
}

use Content::*;
pub const ALL_CONTENT: &[Content] = &[Flat, TwoTone, Gray, Rgb, Noise, NoiseA, AlphaGrad, Sparse, Few(5), Few(16), Count(255), Count(256), Count(257), Transparent, Checker, NearDup, AlphaExt, Dark, Bright, Clusters(6), Odd, Blob, SemiNoise, CountA(17), CountA(200)];
pub const SHAPES_S: &[(usize, usize)] = &[(1, 1), (1, 2), (2, 1), (1, 40), (40, 1), (2, 2), (3, 3), (4, 4), (5, 3), (7, 7), (6, 9), (33, 17), (3, 130), (8, 129), (9, 257), (32, 32)];
pub const SPEEDS: &[i32] = &[1, 2, 3, 5, 6, 7, 8, 9, 10];
pub const COLORS: &[u32] = &[2, 3, 4, 7, 8, 15, 33, 100, 255, 256];
pub const QUALS: &[Option<(u8, u8)>] = &[Some((0, 100)), Some((0, 0)), Some((0, 30)), Some((0, 70)), Some((30, 80)), Some((70, 99)), Some((99, 100)), Some((100, 100))];

/// the standard dimensions; the first value of each is the default
pub fn dims() -> Vec<Vec<Alt>> {
    vec![
        dim(SHAPES_S, |c, v| { c.w = v.0; c.h = v.1; }),
        dim(ALL_CONTENT, |c, v| c.content = v),
        dim(SPEEDS, |c, v| c.speed = v),
        dim(COLORS, |c, v| c.colors = v),
        dim(QUALS, |c, v| c.quality = v),
        dim(&[1u8, 2, 3, 4], |c, v| c.post = v),
        dim(&[true], |c, v| c.last = v),
        dim(&[0f32, 0.5, 0.05], |c, v| c.dither = v),
        dim(&[1.0f64, 0.2, 0.75], |c, v| c.gin = v),
        dim(&[Some(0.3f64), Some(0.8)], |c, v| c.gout = v),
        dim(&[Fixed::Foreign, Fixed::InImage, Fixed::Transp, Fixed::Semi, Fixed::Dup, Fixed::Many(40), Fixed::Many(256), Fixed::Near], |c, v| c.fixed = v),
        dim(&[Imp::Max, Imp::HalfZero, Imp::Grad, Imp::One, Imp::OnlyLast], |c, v| c.imp = v),
        dim(&[Bg::Same, Bg::Flat, Bg::Transp, Bg::Shift, Bg::Alpha], |c, v| c.bg = v),
        dim(&[Via::HistImage, Via::HistColors], |c, v| c.via = v),
        dim(&[1usize, 8], |c, v| c.cpus = v),
    ]
}
/// every configuration within `k` deviations of any of the bases
pub fn space(bases: &[Cfg], k: usize) -> Vec<Cfg> { space_of(bases, &dims(), k) }
pub fn space_of(bases: &[Cfg], d: &[Vec<Alt>], k: usize) -> Vec<Cfg> {
    let mut v: Vec<Cfg> = Vec::new();
    let mut seen = std::collections::HashSet::new();
    for b in bases { for c in deviations(b, d, k) { if seen.insert(format!("{c:?}")) { v.push(c); } } }
    v
}

/// full product of the given dimensions
pub fn product(base: &Cfg, d: &[Vec<Alt>]) -> Vec<Cfg> {
    let mut v = vec![base.clone()];
    for dim in d {
        let mut n = Vec::with_capacity(v.len() * dim.len());
        for c in &v { for a in dim { let mut c = c.clone(); a(&mut c); n.push(c); } }
        v = n;
    }
    v
}
pub fn base() -> Cfg { Cfg::default() }
