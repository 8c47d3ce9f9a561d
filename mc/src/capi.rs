//! The C interface, called through wrappers compiled from C against the published header.
#![allow(non_snake_case, dead_code)]
use imagequant::RGBA;
pub use std::os::raw::{c_int, c_void};
pub type P = *mut c_void;

#[cfg(not(no_c))]
mod f {
    use super::*;
    extern "C" {
        pub fn w_liq_attr_create() -> P;
        pub fn w_liq_attr_create_with_allocator(a: P, f: P) -> P;
        pub fn w_liq_attr_copy(a: P) -> P;
        pub fn w_liq_attr_destroy(a: P);
        pub fn w_liq_histogram_create(a: P) -> P;
        pub fn w_liq_histogram_add_image(h: P, a: P, i: P) -> c_int;
        pub fn w_liq_histogram_add_colors(h: P, a: P, e: *const c_void, n: c_int, g: f64) -> c_int;
        pub fn w_liq_histogram_add_fixed_color(h: P, c: RGBA, g: f64) -> c_int;
        pub fn w_liq_histogram_destroy(h: P);
        pub fn w_liq_set_max_colors(a: P, v: c_int) -> c_int;
        pub fn w_liq_get_max_colors(a: P) -> c_int;
        pub fn w_liq_set_speed(a: P, v: c_int) -> c_int;
        pub fn w_liq_get_speed(a: P) -> c_int;
        pub fn w_liq_set_min_opacity(a: P, v: c_int) -> c_int;
        pub fn w_liq_get_min_opacity(a: P) -> c_int;
        pub fn w_liq_set_min_posterization(a: P, v: c_int) -> c_int;
        pub fn w_liq_get_min_posterization(a: P) -> c_int;
        pub fn w_liq_set_quality(a: P, m: c_int, t: c_int) -> c_int;
        pub fn w_liq_get_min_quality(a: P) -> c_int;
        pub fn w_liq_get_max_quality(a: P) -> c_int;
        pub fn w_liq_set_last_index_transparent(a: P, v: c_int);
        pub fn w_liq_set_log_callback(a: P, f: P, u: P);
        pub fn w_liq_set_log_flush_callback(a: P, f: P, u: P);
        pub fn w_liq_attr_set_progress_callback(a: P, f: P, u: P);
        pub fn w_liq_result_set_progress_callback(r: P, f: P, u: P);
        pub fn w_liq_image_create_rgba_rows(a: P, rows: P, w: c_int, h: c_int, g: f64) -> P;
        pub fn w_liq_image_create_rgba(a: P, b: *const c_void, w: c_int, h: c_int, g: f64) -> P;
        pub fn w_liq_image_create_custom(a: P, f: P, u: P, w: c_int, h: c_int, g: f64) -> P;
        pub fn w_liq_image_set_memory_ownership(i: P, f: c_int) -> c_int;
        pub fn w_liq_image_set_background(i: P, b: P) -> c_int;
        pub fn w_liq_image_set_importance_map(i: P, b: P, n: usize, o: c_int) -> c_int;
        pub fn w_liq_image_add_fixed_color(i: P, c: RGBA) -> c_int;
        pub fn w_liq_image_get_width(i: P) -> c_int;
        pub fn w_liq_image_get_height(i: P) -> c_int;
        pub fn w_liq_image_destroy(i: P);
        pub fn w_liq_histogram_quantize(h: P, a: P, r: P) -> c_int;
        pub fn w_liq_image_quantize(i: P, a: P, r: P) -> c_int;
        pub fn w_liq_quantize_image(a: P, i: P) -> P;
        pub fn w_liq_set_dithering_level(r: P, v: f32) -> c_int;
        pub fn w_liq_set_output_gamma(r: P, v: f64) -> c_int;
        pub fn w_liq_get_output_gamma(r: P) -> f64;
        pub fn w_liq_get_palette(r: P, out: *mut u8) -> c_int;
        pub fn w_liq_write_remapped_image(r: P, i: P, b: P, n: usize) -> c_int;
        pub fn w_liq_write_remapped_image_rows(r: P, i: P, rows: P) -> c_int;
        pub fn w_liq_get_quantization_error(r: P) -> f64;
        pub fn w_liq_get_quantization_quality(r: P) -> c_int;
        pub fn w_liq_get_remapping_error(r: P) -> f64;
        pub fn w_liq_get_remapping_quality(r: P) -> c_int;
        pub fn w_liq_result_destroy(r: P);
        pub fn w_liq_version() -> c_int;
        pub fn w_const(k: c_int) -> c_int;
    }
}
#[cfg(not(no_c))]
pub use f::*;

pub const NULL: P = std::ptr::null_mut();
pub const OK: c_int = 0;
pub const TOO_LOW: c_int = 99;
pub const RANGE: c_int = 100;
pub const OOM: c_int = 101;
pub const ABORTED: c_int = 102;
pub const NOT_AVAIL: c_int = 103;
pub const SMALL: c_int = 104;
pub const INVALID: c_int = 105;
pub const UNSUP: c_int = 106;
pub const OWN_ROWS: c_int = 4;
pub const OWN_PIXELS: c_int = 8;
pub const COPY_PIXELS: c_int = 16;

pub fn code(e: &imagequant::Error) -> c_int {
    use imagequant::Error::*;
    match e { QualityTooLow => TOO_LOW, ValueOutOfRange => RANGE, OutOfMemory => OOM, Aborted => ABORTED, BufferTooSmall => SMALL, InvalidPointer => INVALID, Unsupported => UNSUP, _ => -1 }
}

#[cfg(not(no_c))]
pub fn palette(r: P) -> Option<Vec<RGBA>> {
    crate::core::op();
    let mut b = [0u8; 1024];
    let n = unsafe { w_liq_get_palette(r, b.as_mut_ptr()) };
    if n < 0 { return None; }
    Some(b.chunks(4).take(n as usize).map(|c| RGBA { r: c[0], g: c[1], b: c[2], a: c[3] }).collect())
}

#[cfg(not(no_c))]
pub mod run {
    //! the same pipeline as pipe::run, through the C interface
    use super::*;
    use crate::core::*;
    use crate::pipe::*;

    #[derive(Clone, Copy, PartialEq, Debug)]
    pub enum CRep { Rgba, Rows, RowsPad(usize), RowsReversed, Custom, RowsOwned }
    pub const CREPS: &[CRep] = &[CRep::Rgba, CRep::Rows, CRep::RowsPad(3), CRep::RowsReversed, CRep::Custom, CRep::RowsOwned];

    pub struct Src { pub p: Vec<RGBA>, pub w: usize, pub h: usize, pub bad: std::sync::atomic::AtomicU64, pub calls: std::sync::atomic::AtomicU64 }
    pub unsafe extern "C" fn row_cb(out: *mut RGBA, row: c_int, width: c_int, user: *mut c_void) {
        let s = &*(user as *const Src);
        s.calls.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        if row < 0 || row as usize >= s.h || width as usize != s.w { s.bad.fetch_add(1, std::sync::atomic::Ordering::SeqCst); return; }
        std::ptr::copy_nonoverlapping(s.p.as_ptr().add(row as usize * s.w), out, s.w);
    }
    /// memory that must outlive the image
    pub struct Keep { pub buf: Vec<RGBA>, pub orig: Vec<RGBA>, pub rows: Vec<*const RGBA>, pub src: Box<Src> }
    impl Keep {
        pub fn intact(&self) -> bool { self.buf == self.orig }
        pub fn cb_ok(&self) -> bool { self.src.bad.load(std::sync::atomic::Ordering::SeqCst) == 0 }
    }
    pub unsafe fn image(a: P, p: &[RGBA], w: usize, h: usize, g: f64, rep: CRep) -> (P, Keep) {
        op();
        let src = Box::new(Src { p: if rep == CRep::Custom { p.to_vec() } else { vec![] }, w, h, bad: 0.into(), calls: 0.into() });
        let mut k = Keep { buf: vec![], orig: vec![], rows: vec![], src };
        let junk = RGBA { r: 250, g: 3, b: 249, a: 255 };
        let im = match rep {
            CRep::Rgba => { k.buf = p.to_vec(); w_liq_image_create_rgba(a, k.buf.as_ptr().cast(), w as c_int, h as c_int, g) },
            CRep::RowsOwned => {
                let b = libc::malloc(p.len() * 4) as *mut RGBA;
                std::ptr::copy_nonoverlapping(p.as_ptr(), b, p.len());
                let r = libc::malloc(h * 8) as *mut *const RGBA;
                for y in 0..h { *r.add(y) = b.add(y * w); }
                let im = w_liq_image_create_rgba_rows(a, r.cast(), w as c_int, h as c_int, g);
                op();
                w_liq_image_set_memory_ownership(im, OWN_ROWS | OWN_PIXELS);
                im
            },
            CRep::Rows | CRep::RowsPad(_) | CRep::RowsReversed => {
                let pad = if let CRep::RowsPad(n) = rep { n } else { 0 };
                let st = w + pad;
                k.buf = vec![junk; st * h];
                let at = |y: usize| if rep == CRep::RowsReversed { h - 1 - y } else { y } * st;
                for y in 0..h { k.buf[at(y)..at(y) + w].copy_from_slice(&p[y * w..y * w + w]); }
                k.rows = (0..h).map(|y| k.buf.as_ptr().add(at(y))).collect();
                w_liq_image_create_rgba_rows(a, k.rows.as_mut_ptr().cast(), w as c_int, h as c_int, g)
            },
            CRep::Custom => w_liq_image_create_custom(a, row_cb as *mut c_void, (&*k.src as *const Src as *mut Src).cast(), w as c_int, h as c_int, g),
        };
        k.orig = k.buf.clone();
        (im, k)
    }
    pub fn name(c: c_int) -> String {
        match c { TOO_LOW => "QualityTooLow", RANGE => "ValueOutOfRange", OOM => "OutOfMemory", ABORTED => "Aborted", SMALL => "BufferTooSmall", INVALID => "InvalidPointer", UNSUP => "Unsupported", _ => return format!("code {c}") }.into()
    }
    pub unsafe fn attr(c: &Cfg) -> P {
        let a = w_liq_attr_create();
        w_liq_set_speed(a, c.speed); w_liq_set_max_colors(a, c.colors as c_int);
        if let Some(q) = c.quality { w_liq_set_quality(a, q.0 as c_int, q.1 as c_int); }
        w_liq_set_min_posterization(a, c.post as c_int); w_liq_set_last_index_transparent(a, c.last as c_int);
        for _ in 0..6 { op(); }
        a
    }
    fn e2(v: f64) -> Option<f64> { if v < 0. { None } else { Some(v) } }
    fn q2(v: c_int) -> Option<u8> { if v < 0 { None } else { Some(v as u8) } }
    pub fn run(c: &Cfg, p: &[RGBA], rep: CRep) -> Result<Out, String> {
        unsafe {
            let mut o = Out::default();
            let a = attr(c);
            set_cpus(c.cpus);
            let (im, keep) = image(a, p, c.w, c.h, c.gin, rep);
            if im.is_null() { return Err("image was not created".into()); }
            if w_liq_image_get_width(im) != c.w as c_int || w_liq_image_get_height(im) != c.h as c_int { return Err("wrong size reported".into()); }
            let mut bk = None;
            if let Some(m) = c.importance() { op(); let e = w_liq_image_set_importance_map(im, m.as_ptr() as P, m.len(), COPY_PIXELS); if e != OK { return Err(format!("set_importance_map {e}")); } }
            if let Some(b) = bg_pixels(c.bg, p, c.w) { let (b, k) = image(a, &b, c.w, c.h, c.gin, rep); op(); let e = w_liq_image_set_background(im, b); if e != OK { return Err(format!("set_background {e}")); } bk = Some(k); }
            if c.via != Via::HistColors { for f in c.fixed_colors(p) { op(); let e = w_liq_image_add_fixed_color(im, f); if e != OK { return Err(format!("add_fixed_color {e}")); } } }
            let mut r: P = 0x1234 as P;
            let rp: P = (&mut r as *mut P).cast();
            op();
            let e = match c.via {
                Via::Image => w_liq_image_quantize(im, a, rp),
                Via::HistImage => { let h = w_liq_histogram_create(a); let e = w_liq_histogram_add_image(h, a, im); let e = if e == OK { w_liq_histogram_quantize(h, a, rp) } else { r = NULL; e }; w_liq_histogram_destroy(h); e },
                Via::HistColors => {
                    let h = w_liq_histogram_create(a);
                    let imp = c.importance();
                    let en: Vec<imagequant::HistogramEntry> = p.iter().enumerate().map(|(i, p)| imagequant::HistogramEntry { color: *p, count: imp.as_ref().map_or(1, |m| m[i] as u32) }).collect();
                    let mut e = w_liq_histogram_add_colors(h, a, en.as_ptr().cast(), en.len() as c_int, if c.gin >= 1. { 0.9999 } else { c.gin });
                    if e == OK { for f in c.fixed_colors(p) { e = w_liq_histogram_add_fixed_color(h, f, c.gin); if e != OK { break; } } }
                    let e = if e == OK { w_liq_histogram_quantize(h, a, rp) } else { r = NULL; e };
                    w_liq_histogram_destroy(h);
                    e
                },
            };
            if e != OK {
                if !r.is_null() { return Err(format!("quantize returned {e} and the result pointer {r:?}")); }
                o.err = Some(("quantize", name(e)));
            } else {
                if r.is_null() { return Err("quantize returned OK and no result".into()); }
                o.qerr = e2(w_liq_get_quantization_error(r)); o.qq = q2(w_liq_get_quantization_quality(r));
                let e = w_liq_set_dithering_level(r, c.dither);
                let e2_ = c.gout.map_or(OK, |g| w_liq_set_output_gamma(r, g));
                if e != OK || e2_ != OK { return Err(format!("result setters returned {e} {e2_}")); }
                o.pal0 = palette(r).unwrap_or_default();
                let mut b = vec![0xA5u8; c.w * c.h];
                op();
                let e = w_liq_write_remapped_image(r, im, b.as_mut_ptr().cast(), b.len());
                if e != OK { o.err = Some(("remap", name(e))); } else {
                    o.idx = b; o.pal = palette(r).unwrap_or_default();
                    o.rerr = e2(w_liq_get_remapping_error(r)); o.rq = q2(w_liq_get_remapping_quality(r)); o.gamma = w_liq_get_output_gamma(r);
                }
                w_liq_result_destroy(r);
            }
            w_liq_image_destroy(im);
            w_liq_attr_destroy(a);
            if !keep.intact() || bk.as_ref().map_or(false, |k| !k.intact()) { return Err("the caller's pixels were modified".into()); }
            if !keep.cb_ok() || bk.as_ref().map_or(false, |k| !k.cb_ok()) { return Err("the row callback was called with a wrong row or width".into()); }
            outcome(o.digest());
            Ok(o)
        }
    }
}
