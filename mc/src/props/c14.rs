//! Aborting from progress callbacks, at every notification.
use crate::core::*;
use crate::pipe::*;
use crate::pix::{Content, RGBAx};
use imagequant::{Attributes, ControlFlow, Error, Histogram, Image, QuantizationResult};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::Arc;

#[derive(Default)]
pub struct Mon { pub n: AtomicI64, pub stop: AtomicI64, pub persistent: AtomicI64, pub after: AtomicI64, pub bad: AtomicU64, pub last: AtomicU64 }
impl Mon {
    fn arm(&self, stop: i64, persistent: bool) { self.n.store(0, SeqCst); self.after.store(0, SeqCst); self.stop.store(stop, SeqCst); self.persistent.store(persistent as i64, SeqCst); }
    pub fn call(&self, p: f32) -> bool {
        if !(p >= 0. && p <= 100.) { self.bad.store(1 + p.to_bits() as u64, SeqCst); }
        let k = self.n.fetch_add(1, SeqCst);
        let stop = self.stop.load(SeqCst);
        if stop < 0 { return false; }
        if k > stop { self.after.fetch_add(1, SeqCst); }
        k == stop || (k > stop && self.persistent.load(SeqCst) != 0)
    }
    fn verdict(&self, what: &str) -> Result<(), String> {
        let b = self.bad.load(SeqCst);
        if b != 0 { return Err(format!("progress value {}", f32::from_bits((b - 1) as u32))); }
        let a = self.after.load(SeqCst);
        if a > 0 { return Err(format!("{what}: {a} more notifications after the one that asked to stop")); }
        Ok(())
    }
}
fn cb(m: &Arc<Mon>) -> impl Fn(f32) -> ControlFlow + Send + Sync + 'static { let m = m.clone(); move |p| if m.call(p) { ControlFlow::Break } else { ControlFlow::Continue } }

struct Env<'c> { c: &'c Cfg, a: Attributes, m: Arc<Mon>, p: Vec<RGBAx> }
impl Env<'_> {
    fn img(&self) -> Result<Image<'static>, String> { self.c.image(&self.a, &self.p).map_err(|e| format!("{e:?}")) }
    fn remap(&self, r: &mut QuantizationResult, i: &mut Image<'_>, m: &Arc<Mon>) -> Result<Out, Error> { r.set_progress_callback(cb(m)); let mut o = Out::default(); set_cpus(self.c.cpus); remap(r, i, &mut o)?; Ok(o) }
}
fn qout(r: &QuantizationResult) -> (Vec<RGBAx>, Option<u64>) { (r.clone().palette_vec(), r.quantization_error().map(f64::to_bits)) }

fn check(c: &Cfg) -> Result<(), String> {
    let p = c.pixels();
    let plain = run_px(c, &p);
    let m = Arc::new(Mon::default());
    let mut a = c.attr();
    a.set_progress_callback(cb(&m));
    let v = Env { c, a, m, p };
    // undisturbed, with callback
    v.m.arm(-1, false);
    let mut img = v.img()?;
    let r0 = c.quantize(&v.a, &mut img, &v.p);
    let n = v.m.n.load(SeqCst);
    v.m.verdict("quantize")?;
    if n == 0 { return Err("no progress is reported".into()); }
    let shown = |r: &Result<QuantizationResult, Error>| match r { Ok(r) => format!("{:?}", qout(r)), Err(e) => format!("{e:?}") };
    let want = shown(&r0);
    // every abort point of the quantization
    for k in 0..n { for pers in [false, true] {
        let mut i = v.img()?;
        v.m.arm(k, pers);
        match c.quantize(&v.a, &mut i, &v.p) { Err(Error::Aborted) => {}, r => return Err(format!("stop requested at notification {k} of {n} (persistent {pers}): quantize returned {:?}", r.map(|_| "a result"))) }
        trace();
        v.m.verdict(&format!("quantize aborted at {k}"))?;
        // same objects, not aborted
        v.m.arm(-1, false);
        let r = c.quantize(&v.a, &mut i, &v.p);
        let got = shown(&r);
        if got != want { return Err(format!("after an abort at notification {k} of {n}, repeating gives a different result: {got} instead of {want}")); }
        if v.m.n.load(SeqCst) != n { return Err(format!("after an abort at notification {k}, repeating reports {} instead of {n} notifications", v.m.n.load(SeqCst))); }
    } }
    let Ok(mut r0) = r0 else { return Ok(()) };
    c.configure(&mut r0).map_err(|e| format!("{e:?}"))?;
    // remapping
    let m2 = Arc::new(Mon::default());
    m2.arm(-1, false);
    let mut r = r0.clone();
    let ok = v.remap(&mut r, &mut img, &m2).map_err(|e| format!("remap {e:?}"))?;
    m2.verdict("remap")?;
    let n2 = m2.n.load(SeqCst);
    if c.via != Via::HistColors && (ok.idx != plain.idx || ok.pal != plain.pal) { return Err("installing a callback changes the result".into()); }
    outcome(hash_bytes(format!("{n} {n2} {}", ok.digest()).as_bytes()));
    for k in 0..n2 { for pers in [false, true] {
        let fresh = || -> Result<Image<'static>, String> { let mut i = v.img()?; v.m.arm(-1, false); if c.via != Via::HistColors { let _ = c.quantize(&v.a, &mut i, &v.p); } Ok(i) };
        let mut i = fresh()?;
        let mut r = r0.clone();
        m2.arm(k, pers);
        match v.remap(&mut r, &mut i, &m2) { Err(Error::Aborted) => {}, x => return Err(format!("stop requested at notification {k} of {n2} of remapping: returned {:?}", x.map(|_| "a result"))) }
        trace();
        m2.verdict(&format!("remap aborted at {k}"))?;
        m2.arm(-1, false);
        // the same image again
        let o = v.remap(&mut r, &mut i, &m2).map_err(|e| format!("remap repeated after an abort at {k}: {e:?}"))?;
        if o.idx.iter().any(|x| *x as usize >= o.pal.len()) || o.idx.len() != v.p.len() { return Err("invalid indices after a repeated remap".into()); }
        if c.dither == 0. { if let Some(d) = o.differs(&Out { pal0: o.pal0.clone(), qerr: o.qerr, qq: o.qq, ..ok.clone() }, false) { return Err(format!("remap repeated after an abort at {k}: {d}")); } }
        // a fresh one
        let mut i = fresh()?;
        let o = v.remap(&mut r, &mut i, &m2).map_err(|e| format!("{e:?}"))?;
        if o.idx != ok.idx || o.pal != ok.pal { return Err(format!("remapping another copy of the image after an abort at {k} gives a different result")); }
    } }
    Ok(())
}

/// histogram steps aborted separately
fn hist(c: &Cfg) -> Result<(), String> { for before in 0..4 { hist_with(c, before).map_err(|e| format!("histogram holding {} before: {e}", ["nothing", "fixed colours", "colours", "fixed colours and colours"][before]))?; } Ok(()) }
fn hist_with(c: &Cfg, before: usize) -> Result<(), String> {
    let p = c.pixels();
    let m = Arc::new(Mon::default());
    let mut a = c.attr();
    a.set_progress_callback(cb(&m));
    let img = || c.image(&a, &p).map_err(|e| format!("{e:?}"));
    m.arm(-1, false);
    let start = || -> Histogram {
        let mut h = Histogram::new(&a);
        if before & 1 != 0 { for k in 0..3u8 { h.add_fixed_color(imagequant::RGBA::new(90 * k, 7, 200 - 60 * k, 255), 0.).unwrap(); } }
        if before & 2 != 0 { h.add_colors(&(0..20u8).map(|k| imagequant::HistogramEntry { color: imagequant::RGBA::new(3 * k, 250 - 9 * k, 11 * k, 255), count: 100 + k as u32 }).collect::<Vec<_>>(), 0.).unwrap(); }
        h
    };
    let empty = start().quantize(&a).map(|r| qout(&r)).map_err(|e| format!("{e:?}"));
    let mut h = start();
    if before & 1 != 0 && matches!(c.fixed, Fixed::Many(n) if n > 200) {
        if h.add_image(&a, &mut img()?) != Err(Error::BufferTooSmall) { return Err("too many fixed colours accepted".into()); }
        return Ok(());
    }
    m.arm(-1, false);
    h.add_image(&a, &mut img()?).map_err(|e| format!("{e:?}"))?;
    let n1 = m.n.load(SeqCst);
    m.arm(-1, false);
    let want = h.quantize(&a).map(|r| qout(&r)).map_err(|e| format!("{e:?}"));
    let n2 = m.n.load(SeqCst);
    for k in 0..n1 { for j in 0..n2 {
        let mut h = start();
        let mut i = img()?;
        m.arm(k, true);
        match h.add_image(&a, &mut i) { Err(Error::Aborted) => {}, r => return Err(format!("add_image with a stop at {k}: {r:?}")) }
        m.verdict("add_image")?;
        // nothing has been added
        m.arm(-1, false);
        if h.quantize(&a).map(|r| qout(&r)).map_err(|e| format!("{e:?}")) != empty { return Err("an aborted add_image has changed the histogram".into()); }
        h.add_image(&a, &mut i).map_err(|e| format!("add_image repeated after an abort: {e:?}"))?;
        m.arm(j, false);
        match h.quantize(&a) { Err(Error::Aborted) => {}, r => return Err(format!("histogram quantize with a stop at {j} of {n2}: {:?}", r.map(|_| ()))) }
        m.verdict("quantize")?;
        m.arm(-1, false);
        trace();
        let got = h.quantize(&a).map(|r| qout(&r)).map_err(|e| format!("{e:?}"));
        if got != want { return Err(format!("histogram used after aborts at {k} and {j} gives a different palette: {got:?} instead of {want:?}")); }
    } }
    Ok(())
}

pub fn run(x: &Ctx) {
    let mut b2 = base(); b2.content = Content::AlphaExt; b2.bg = Bg::Shift; b2.w = 7; b2.h = 140; b2.speed = 6; b2.cpus = 8;
    let mut b3 = base(); b3.quality = Some((20, 60)); b3.content = Content::Noise; b3.dither = 0.;
    let mut b4 = base(); b4.w = 6; b4.h = 5; b4.speed = 1;
    x.explore("every-abort-point", &space(&[base(), b2, b3.clone(), b4], x.q(1, 2)), |c| c.to_string(), check);
    let fx: Vec<Fixed> = vec![Fixed::None, Fixed::Foreign, Fixed::InImage, Fixed::Many(100), Fixed::Many(200), Fixed::Many(256)];
    let d = vec![dim(&fx, |c, v| c.fixed = v), dim(&[1, 4, 7, 10], |c, v| c.speed = v), dim(&[Content::Photo, Content::AlphaExt, Content::Flat], |c, v| c.content = v), dim(&[16u32, 256], |c, v| c.colors = v), dim(&[None, Some((0u8, 70u8)), Some((90, 100))], |c, v| c.quality = v)];
    x.explore("histogram-aborts", &product(&base(), &d), |c| c.to_string(), hist);
    #[cfg(not(no_c))]
    c(x);
}

#[cfg(not(no_c))]
fn c(x: &Ctx) {
    use crate::capi::*;
    unsafe extern "C" fn prog(p: f32, user: *mut c_void) -> c_int { if (*(user as *const Mon)).call(p) { 0 } else { 1 } }
    let mut cs = vec![];
    for speed in [1, 4, 7, 10] { for dither in [0f32, 1.] { for (w, h) in [(9, 9), (3, 150)] { for ct in [Content::Photo, Content::AlphaExt] { let mut c = base(); c.speed = speed; c.dither = dither; c.w = w; c.h = h; c.content = ct; cs.push(c); } } } }
    x.explore("c-every-abort-point", &cs, |c| c.to_string(), |c| unsafe {
        let p = c.pixels();
        let plain = run_px(c, &p);
        let m = Box::new(Mon::default());
        let u: P = (&*m as *const Mon as *mut Mon).cast();
        let a = run::attr(c);
        w_liq_attr_set_progress_callback(a, prog as *mut c_void, u);
        let res = (|| {
            let go = |stop_q: i64, stop_r: i64| -> Result<(c_int, i64, c_int, i64, Vec<u8>, Vec<imagequant::RGBA>), String> {
                set_cpus(c.cpus);
                let (im, _k) = run::image(a, &p, c.w, c.h, 0., run::CRep::Rgba);
                let mut r: P = NULL;
                m.arm(stop_q, true);
                op();
                let e = w_liq_image_quantize(im, a, (&mut r as *mut P).cast());
                let n = m.n.load(SeqCst);
                m.verdict("C quantize")?;
                let mut out = (e, n, 0, 0, vec![], vec![]);
                if e == OK {
                    w_liq_set_dithering_level(r, c.dither);
                    w_liq_result_set_progress_callback(r, prog as *mut c_void, u);
                    m.arm(stop_r, true);
                    let mut b = vec![0u8; p.len()];
                    op();
                    out.2 = w_liq_write_remapped_image(r, im, b.as_mut_ptr().cast(), b.len());
                    out.3 = m.n.load(SeqCst);
                    m.verdict("C remap")?;
                    out.4 = b; out.5 = palette(r).unwrap_or_default();
                    w_liq_result_destroy(r);
                } else if !r.is_null() { return Err("aborted quantize left a result pointer".into()); }
                w_liq_image_destroy(im);
                trace();
                Ok(out)
            };
            let ok = go(-1, -1)?;
            if ok.0 != OK || ok.2 != OK || ok.4 != plain.idx || ok.5 != plain.pal { return Err(format!("with callback: {} {}", ok.0, ok.2)); }
            for k in 0..ok.1 { let r = go(k, -1)?; if r.0 != ABORTED { return Err(format!("stop at notification {k} of {}: quantize returned {}", ok.1, r.0)); } }
            for k in 0..ok.3 { let r = go(-1, k)?; if r.2 != ABORTED { return Err(format!("stop at notification {k} of {}: remap returned {}", ok.3, r.2)); } }
            let again = go(-1, -1)?;
            if again.4 != plain.idx { return Err("different result after aborts".into()); }
            Ok(())
        })();
        w_liq_attr_destroy(a);
        res
    });
}
