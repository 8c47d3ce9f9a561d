//! The C interface: same outcomes as the Rust one, bad handles refused without effect, callbacks get their pointers.
use crate::core::*;
use crate::pipe::*;
#[cfg(no_c)]
pub fn run(_: &Ctx) {}
#[cfg(not(no_c))]
pub use c::run;

#[cfg(not(no_c))]
mod c {
    use super::*;
    use crate::capi::{self, run as cr, *};
    use crate::pix::{make, px, Content};
    use std::sync::atomic::{AtomicU64, Ordering::*};

    const W: usize = 6;
    const H: usize = 5;
    /// a complete set of live objects
    struct Objs { a: P, i: P, h: P, r: P, _px: Vec<imagequant::RGBA> }
    impl Objs {
        unsafe fn new() -> Objs {
            let a = w_liq_attr_create();
            w_liq_set_speed(a, 8); w_liq_set_max_colors(a, 5);
            let px = make(Content::Photo, W, H);
            let i = w_liq_image_create_rgba(a, px.as_ptr().cast(), W as c_int, H as c_int, 0.);
            let h = w_liq_histogram_create(a);
            let e: Vec<imagequant::HistogramEntry> = px.iter().map(|p| imagequant::HistogramEntry { color: *p, count: 2 }).collect();
            w_liq_histogram_add_colors(h, a, e.as_ptr().cast(), e.len() as c_int, 0.);
            let mut r = NULL;
            w_liq_image_quantize(i, a, (&mut r as *mut P).cast());
            for _ in 0..7 { op(); }
            Objs { a, i, h, r, _px: px }
        }
        fn of(&self, k: u8) -> P { match k { b'A' => self.a, b'I' => self.i, b'H' => self.h, _ => self.r } }
        /// everything observable about the objects, by using all of them
        unsafe fn observe(&self) -> Vec<u8> {
            let mut v = vec![];
            let mut num = |x: i64| v.extend_from_slice(&x.to_le_bytes());
            let a = self.a;
            for g in [w_liq_get_max_colors(a), w_liq_get_speed(a), w_liq_get_min_posterization(a), w_liq_get_min_quality(a), w_liq_get_max_quality(a), w_liq_image_get_width(self.i), w_liq_image_get_height(self.i)] { num(g as i64); op(); }
            for f in [w_liq_get_output_gamma(self.r), w_liq_get_quantization_error(self.r), w_liq_get_remapping_error(self.r)] { num(f.to_bits() as i64); op(); }
            let mut b = vec![0u8; W * H];
            num(w_liq_write_remapped_image(self.r, self.i, b.as_mut_ptr().cast(), b.len()) as i64);
            let mut r2 = NULL;
            num(w_liq_histogram_quantize(self.h, a, (&mut r2 as *mut P).cast()) as i64);
            let p2 = capi::palette(r2).unwrap_or_default();
            w_liq_result_destroy(r2);
            let mut r3 = NULL;
            num(w_liq_image_quantize(self.i, a, (&mut r3 as *mut P).cast()) as i64);
            let p3 = capi::palette(r3).unwrap_or_default();
            w_liq_result_destroy(r3);
            for _ in 0..5 { op(); }
            v.extend(b);
            for p in capi::palette(self.r).unwrap_or_default().iter().chain(&p2).chain(&p3) { v.extend([p.r, p.g, p.b, p.a]); }
            v
        }
        unsafe fn free(self) { w_liq_result_destroy(self.r); w_liq_histogram_destroy(self.h); w_liq_image_destroy(self.i); w_liq_attr_destroy(self.a); for _ in 0..4 { op(); } }
    }

    /// what a refused call must return
    #[derive(Clone, Copy, PartialEq, Debug)]
    enum Bad { Code, MinusOne, Null, Nothing }
    type Call = unsafe fn(&[P], &mut Scratch) -> i64;
    struct Scratch { out: P, buf: Vec<u8>, rows: Vec<*mut u8>, imp: Vec<u8>, entries: Vec<imagequant::HistogramEntry>, px: Vec<imagequant::RGBA>, rowp: Vec<*const imagequant::RGBA> }
    unsafe extern "C" fn progress_no(_: f32, _: P) -> c_int { 0 }
    unsafe extern "C" fn log_nothing(_: P, _: *const i8, _: P) {}
    unsafe extern "C" fn flush_nothing(_: P, _: P) {}
    unsafe extern "C" fn row_black(o: *mut imagequant::RGBA, _: c_int, w: c_int, _: P) { for i in 0..w as usize { *o.add(i) = px(0, 0, 0, 255); } }
    macro_rules! calls { ($($name:ident $kinds:literal $bad:ident |$o:ident, $s:ident| $e:expr;)*) => { &[$((stringify!($name), $kinds, Bad::$bad, { unsafe fn f($o: &[P], $s: &mut Scratch) -> i64 { let _ = &$s; let v = $e; v as i64 } f as Call })),*] } }
    fn table() -> &'static [(&'static str, &'static [u8], Bad, Call)] {
        calls! {
            liq_attr_copy b"A" Null |o, s| w_liq_attr_copy(o[0]) as usize;
            liq_histogram_create b"A" Null |o, s| w_liq_histogram_create(o[0]) as usize;
            liq_histogram_add_image b"HAI" Code |o, s| w_liq_histogram_add_image(o[0], o[1], o[2]);
            liq_histogram_add_colors b"HA" Code |o, s| w_liq_histogram_add_colors(o[0], o[1], s.entries.as_ptr().cast(), 2, 0.);
            liq_histogram_add_colors_none b"HA" Code |o, s| w_liq_histogram_add_colors(o[0], o[1], s.entries.as_ptr().cast(), 0, 0.);
            liq_histogram_add_fixed_color b"H" Code |o, s| w_liq_histogram_add_fixed_color(o[0], px(9, 9, 9, 255), 0.);
            liq_set_max_colors b"A" Code |o, s| w_liq_set_max_colors(o[0], 3);
            liq_get_max_colors b"A" MinusOne |o, s| w_liq_get_max_colors(o[0]);
            liq_set_speed b"A" Code |o, s| w_liq_set_speed(o[0], 9);
            liq_get_speed b"A" MinusOne |o, s| w_liq_get_speed(o[0]);
            liq_set_min_opacity b"A" Nothing |o, s| { w_liq_set_min_opacity(o[0], 3); 0 };
            liq_get_min_opacity b"A" Nothing |o, s| { w_liq_get_min_opacity(o[0]); 0 };
            liq_set_min_posterization b"A" Code |o, s| w_liq_set_min_posterization(o[0], 2);
            liq_get_min_posterization b"A" MinusOne |o, s| w_liq_get_min_posterization(o[0]);
            liq_set_quality b"A" Code |o, s| w_liq_set_quality(o[0], 1, 3);
            liq_get_min_quality b"A" MinusOne |o, s| w_liq_get_min_quality(o[0]);
            liq_get_max_quality b"A" MinusOne |o, s| w_liq_get_max_quality(o[0]);
            liq_set_last_index_transparent b"A" Nothing |o, s| { w_liq_set_last_index_transparent(o[0], 1); 0 };
            liq_set_log_callback b"A" Nothing |o, s| { w_liq_set_log_callback(o[0], log_nothing as P, NULL); 0 };
            liq_set_log_flush_callback b"A" Nothing |o, s| { w_liq_set_log_flush_callback(o[0], flush_nothing as P, NULL); 0 };
            liq_attr_set_progress_callback b"A" Nothing |o, s| { w_liq_attr_set_progress_callback(o[0], progress_no as P, NULL); 0 };
            liq_result_set_progress_callback b"R" Nothing |o, s| { w_liq_result_set_progress_callback(o[0], progress_no as P, NULL); 0 };
            liq_image_create_rgba b"A" Null |o, s| w_liq_image_create_rgba(o[0], s.px.as_ptr().cast(), 2, 2, 0.) as usize;
            liq_image_create_rgba_rows b"A" Null |o, s| w_liq_image_create_rgba_rows(o[0], s.rowp.as_ptr() as P, 2, 2, 0.) as usize;
            liq_image_create_custom b"A" Null |o, s| w_liq_image_create_custom(o[0], row_black as P, NULL, 2, 2, 0.) as usize;
            liq_image_set_memory_ownership b"I" Code |o, s| w_liq_image_set_memory_ownership(o[0], OWN_ROWS);
            liq_image_set_background b"Ib" Code |o, s| w_liq_image_set_background(o[0], o[1]);
            liq_image_set_importance_map b"I" Code |o, s| w_liq_image_set_importance_map(o[0], s.imp.as_mut_ptr().cast(), W * H, COPY_PIXELS);
            liq_image_add_fixed_color b"I" Code |o, s| w_liq_image_add_fixed_color(o[0], px(9, 9, 9, 255));
            liq_image_get_width b"I" MinusOne |o, s| w_liq_image_get_width(o[0]);
            liq_image_get_height b"I" MinusOne |o, s| w_liq_image_get_height(o[0]);
            liq_histogram_quantize b"HA" Code |o, s| w_liq_histogram_quantize(o[0], o[1], (&mut s.out as *mut P).cast());
            liq_image_quantize b"IA" Code |o, s| w_liq_image_quantize(o[0], o[1], (&mut s.out as *mut P).cast());
            liq_quantize_image b"AI" Null |o, s| w_liq_quantize_image(o[0], o[1]) as usize;
            liq_set_dithering_level b"R" Code |o, s| w_liq_set_dithering_level(o[0], 0.5);
            liq_set_output_gamma b"R" Code |o, s| w_liq_set_output_gamma(o[0], 0.3);
            liq_get_output_gamma b"R" MinusOne |o, s| w_liq_get_output_gamma(o[0]);
            liq_get_palette b"R" MinusOne |o, s| { let mut b = [0u8; 1024]; w_liq_get_palette(o[0], b.as_mut_ptr()) };
            liq_write_remapped_image b"RI" Code |o, s| w_liq_write_remapped_image(o[0], o[1], s.buf.as_mut_ptr().cast(), s.buf.len());
            liq_write_remapped_image_rows b"RI" Code |o, s| w_liq_write_remapped_image_rows(o[0], o[1], s.rows.as_mut_ptr().cast());
            liq_get_quantization_error b"R" MinusOne |o, s| w_liq_get_quantization_error(o[0]);
            liq_get_quantization_quality b"R" MinusOne |o, s| w_liq_get_quantization_quality(o[0]);
            liq_get_remapping_error b"R" MinusOne |o, s| w_liq_get_remapping_error(o[0]);
            liq_get_remapping_quality b"R" MinusOne |o, s| w_liq_get_remapping_quality(o[0]);
        }
    }
    /// 0 valid, 1 null, 2.. the other kinds
    fn alts(k: u8) -> Vec<(&'static str, u8)> {
        let k = if k == b'b' { b'I' } else { k };
        let mut v = vec![("valid", k), ("NULL", 0)];
        for (n, o) in [("liq_attr", b'A'), ("liq_image", b'I'), ("liq_histogram", b'H'), ("liq_result", b'R')] { if o != k { v.push((n, o)); } }
        v
    }
    fn handles(fi: usize, code: usize) -> Vec<(&'static str, u8)> { let mut c = code; table()[fi].1.iter().map(|k| { let a = alts(*k)[c % 5]; c /= 5; a }).collect() }

    fn bad_call(fi: usize, code: usize, want: &[u8]) -> Result<(), String> {
        let (name, kinds, bad, f) = table()[fi];
        unsafe {
            let o = Objs::new();
            let other = Objs::new();
            let hs = handles(fi, code);
            let args: Vec<P> = hs.iter().zip(kinds).map(|((n, k), kind)| if *k == 0 { NULL } else if *n == "valid" && *kind == b'b' { other.of(b'I') } else { o.of(*k) }).collect();
            let mut s = Scratch { out: 0x10 as P, buf: vec![0x77; W * H], rows: vec![], imp: vec![255; W * H], entries: vec![imagequant::HistogramEntry { color: px(1, 2, 3, 255), count: 5 }; 2], px: vec![px(0, 0, 0, 255); 4], rowp: vec![] };
            s.rowp = vec![s.px.as_ptr(), s.px.as_ptr().wrapping_add(2)];
            let base = s.buf.as_mut_ptr();
            s.rows = (0..H).map(|y| base.add(y * W)).collect();
            op();
            let got = f(&args, &mut s);
            match bad {
                Bad::Code if got != INVALID as i64 => return Err(format!("{name} returned {got} instead of LIQ_INVALID_POINTER")),
                Bad::MinusOne if got != -1 => return Err(format!("{name} returned {got} instead of -1 / NULL")),
                Bad::Null if got != 0 => return Err(format!("{name} returned a pointer")),
                _ => {},
            }
            if name.ends_with("_quantize") && !s.out.is_null() { return Err(format!("{name} refused the call and left the result pointer as {:?}", s.out)); }
            if s.buf.iter().any(|b| *b != 0x77) { return Err(format!("{name} refused the call and wrote to the buffer")); }
            trace();
            let got = o.observe();
            if got != want { return Err(format!("{name}: refused call changed later behaviour")); }
            if args.len() < 2 || name != "liq_image_set_background" || hs[0].0 == "valid" { other.free(); } else { other.free(); }
            o.free();
        }
        Ok(())
    }

    // ---- callbacks
    #[derive(Default)]
    struct Seen { calls: AtomicU64, bad: AtomicU64, handle: AtomicU64, stop: AtomicU64 }
    fn seen() -> Box<Seen> { Box::default() }
    unsafe extern "C" fn progress(p: f32, u: P) -> c_int {
        let s = &*(u as *const Seen);
        let n = s.calls.fetch_add(1, SeqCst);
        if !(0. ..=100.).contains(&p) { s.bad.fetch_add(1, SeqCst); }
        if n + 1 == s.stop.load(SeqCst) { 0 } else if n % 2 == 0 { 1 } else { -7 }
    }
    unsafe extern "C" fn log(h: P, m: *const i8, u: P) {
        let s = &*(u as *const Seen);
        s.calls.fetch_add(1, SeqCst);
        if h as u64 != s.handle.load(SeqCst) || m.is_null() || std::ffi::CStr::from_ptr(m.cast()).to_bytes().is_empty() { s.bad.fetch_add(1, SeqCst); }
    }
    unsafe extern "C" fn flush(h: P, u: P) {
        let s = &*(u as *const Seen);
        s.calls.fetch_add(1, SeqCst);
        if h as u64 != s.handle.load(SeqCst) { s.bad.fetch_add(1, SeqCst); }
    }
    fn ptr(s: &Seen) -> P { s as *const Seen as P }

    const CB: &[&str] = &["set log", "clear log", "set flush", "clear flush", "set progress", "clear progress", "set result progress", "clear result progress", "quantize image", "quantize histogram", "remap", "continue with copy of attr"];
    fn callbacks(seq: &[usize]) -> Result<(), String> {
        unsafe {
            let (lg, fl, pr, rp) = (seen(), seen(), seen(), seen());
            let (mut on_l, mut on_p, mut on_r) = (false, false, false);
            let mut on_f = false;
            let mut a = w_liq_attr_create();
            w_liq_set_speed(a, 9); w_liq_set_max_colors(a, 3);
            let px = make(Content::Rgb, 4, 20);
            let mut i = w_liq_image_create_rgba(a, px.as_ptr().cast(), 4, 20, 0.);
            let mut r = NULL;
            if w_liq_image_quantize(i, a, (&mut r as *mut P).cast()) != OK { return Err("quantize failed".into()); }
            for s in [&lg, &fl] { s.handle.store(a as u64, SeqCst); }
            let count = |s: &Seen| s.calls.load(SeqCst);
            for &o in seq {
                op();
                let before = [count(&lg), count(&fl), count(&pr), count(&rp)];
                match o {
                    0 => { w_liq_set_log_callback(a, log as P, ptr(&lg)); on_l = true; },
                    1 => { w_liq_set_log_callback(a, NULL, ptr(&lg)); on_l = false; },
                    2 => { w_liq_set_log_flush_callback(a, flush as P, ptr(&fl)); on_f = true; },
                    3 => { w_liq_set_log_flush_callback(a, NULL, ptr(&fl)); on_f = false; },
                    4 => { w_liq_attr_set_progress_callback(a, progress as P, ptr(&pr)); on_p = true; },
                    5 => { w_liq_attr_set_progress_callback(a, NULL, NULL); on_p = false; },
                    6 => { w_liq_result_set_progress_callback(r, progress as P, ptr(&rp)); on_r = true; },
                    7 => { w_liq_result_set_progress_callback(r, NULL, NULL); on_r = false; },
                    8 | 9 => {
                        let mut n = NULL;
                        w_liq_image_destroy(i);
                        i = w_liq_image_create_rgba(a, px.as_ptr().cast(), 4, 20, 0.);
                        let e = if o == 8 { w_liq_image_quantize(i, a, (&mut n as *mut P).cast()) } else {
                            let h = w_liq_histogram_create(a);
                            let e = [imagequant::HistogramEntry { color: px[0], count: 1 }, imagequant::HistogramEntry { color: px[9], count: 1 }];
                            w_liq_histogram_add_colors(h, a, e.as_ptr().cast(), 2, 0.);
                            let e = w_liq_histogram_quantize(h, a, (&mut n as *mut P).cast());
                            w_liq_histogram_destroy(h);
                            e
                        };
                        if e != OK { return Err(format!("{} returned {e}", CB[o])); }
                        if on_l && count(&lg) == before[0] { return Err(format!("{}: nothing logged", CB[o])); }
                        if on_p && count(&pr) == before[2] { return Err(format!("{}: no progress reported", CB[o])); }
                        if count(&rp) != before[3] { return Err("progress of the old result reported while quantizing".into()); }
                        w_liq_result_destroy(r);
                        r = n; on_r = false;
                    },
                    10 => {
                        let mut b = vec![0u8; 80];
                        let e = w_liq_write_remapped_image(r, i, b.as_mut_ptr().cast(), 80);
                        if e != OK { return Err(format!("remap returned {e}")); }
                        if on_r && count(&rp) == before[3] { return Err("no remapping progress reported".into()); }
                        if count(&pr) != before[2] { return Err("quantization progress reported while remapping".into()); }
                    },
                    _ => {
                        let c = w_liq_attr_copy(a);
                        w_liq_attr_destroy(a);
                        a = c;
                        for s in [&lg, &fl] { s.handle.store(a as u64, SeqCst); }
                    },
                }
                let after = [count(&lg), count(&fl), count(&pr), count(&rp)];
                for (k, on) in [on_l, on_f, on_p, on_r].iter().enumerate() {
                    let named = ["log", "flush", "progress", "result progress"][k];
                    // a copied or destroyed attr may flush
                    if !on && after[k] != before[k] && !(o == 3 && k == 1) && !(o == 8 || o == 9) { return Err(format!("{named} callback called during {} although cleared", CB[o])); }
                    if !on && after[k] != before[k] && (o == 8 || o == 9) && k != 3 { return Err(format!("{named} callback called during {} although cleared", CB[o])); }
                }
            }
            w_liq_result_destroy(r);
            w_liq_image_destroy(i);
            w_liq_attr_destroy(a);
            trace();
            for (n, s) in [("log", &lg), ("flush", &fl), ("progress", &pr), ("result progress", &rp)] { if s.bad.load(SeqCst) > 0 { return Err(format!("{n} callback received a wrong argument")); } }
        }
        Ok(())
    }

    // ---- both interfaces in lockstep
    const LS: &[&str] = &[
        "set_speed(5)", "set_speed(10)", "set_speed(0)", "set_max_colors(4)", "set_max_colors(257)", "set_quality(0, 30)", "set_quality(90, 50)", "set_quality(70, 100)", "set_min_posterization(3)", "set_min_posterization(5)", "set_last_index_transparent", "copy attr",
        "image gamma 0.7", "custom image gamma 1", "rows image gamma -0.1", "image gamma 1.5", "image NaN gamma", "importance exact", "importance larger", "importance short", "importance owned", "importance owned larger", "importance bad flag", "fixed colour", "transparent fixed colour", "background", "background of another size",
        "new histogram", "add_colors gamma 0", "add_colors gamma 0.3", "add_colors gamma 1.2", "add_colors none", "histogram fixed gamma 0", "histogram fixed gamma 0.3", "histogram fixed gamma 1", "histogram fixed gamma -1", "histogram fixed gamma 2", "add_image",
        "quantize image", "quantize histogram", "set_dithering_level(0.5)", "set_dithering_level(2)", "set_dithering_level(0)", "set_output_gamma(0.3)", "set_output_gamma(1)", "remap", "remap to rows", "get palette",
    ];
    struct Both<'a> { a: imagequant::Attributes, i: imagequant::Image<'a>, h: imagequant::Histogram, r: Option<imagequant::QuantizationResult>, ca: P, ci: P, ch: P, cr: P }
    fn lockstep(seq: &[usize], first: Content) -> Result<(), String> {
        use imagequant::*;
        let px1 = make(first, W, H);
        let px2 = make(Content::NoiseA, W, H);
        let bgp = make(Content::Gray, W, H);
        let imp: Vec<u8> = (0..W * H + 9).map(|k| if k >= W * H { 255 } else { (k * 37 % 251) as u8 / (1 + k as u8 % 3) }).collect();
        let ent: Vec<HistogramEntry> = (0..7u32).map(|k| HistogramEntry { color: px(k as u8 * 31, 200 - k as u8 * 20, 90, 255), count: 1 + k * k }).collect();
        let mut keep: Vec<Box<cr::Src>> = vec![];
        let mut rowps: Vec<Vec<*const RGBA>> = vec![];
        let c = |r: Result<(), Error>| r.err().map_or(OK, |e| code(&e));
        unsafe {
            let mut a = Attributes::new();
            let _ = a.set_speed(8); let _ = a.set_max_colors(6);
            let ca = w_liq_attr_create();
            w_liq_set_speed(ca, 8); w_liq_set_max_colors(ca, 6);
            let i = a.new_image_borrowed(&px1, W, H, 0.).map_err(|e| e.to_string())?;
            let ci = w_liq_image_create_rgba(ca, px1.as_ptr().cast(), W as c_int, H as c_int, 0.);
            let h = Histogram::new(&a);
            let ch = w_liq_histogram_create(ca);
            let mut s = Both { a, i, h, r: None, ca, ci, ch, cr: NULL };
            let mut all: Vec<usize> = seq.to_vec();
            all.extend([38, 45, 47, 39, 47]);
            for &o in &all {
                op();
                let name = LS[o];
                let same = |r: c_int, c: c_int| if r == c { Ok(()) } else { Err(format!("{name}: Rust {r}, C {c}")) };
                match o {
                    0..=2 => { let v = [5, 10, 0][o]; same(c(s.a.set_speed(v)), w_liq_set_speed(s.ca, v))?; },
                    3 | 4 => { let v = [4, 257][o - 3]; same(c(s.a.set_max_colors(v)), w_liq_set_max_colors(s.ca, v as c_int))?; },
                    5..=7 => { let (m, t) = [(0, 30), (90, 50), (70, 100)][o - 5]; same(c(s.a.set_quality(m, t)), w_liq_set_quality(s.ca, m as c_int, t as c_int))?; },
                    8 | 9 => { let v = [3, 5][o - 8]; same(c(s.a.set_min_posterization(v)), w_liq_set_min_posterization(s.ca, v as c_int))?; },
                    10 => { s.a.set_last_index_transparent(true); w_liq_set_last_index_transparent(s.ca, 1); },
                    11 => { s.a = s.a.clone(); let n = w_liq_attr_copy(s.ca); w_liq_attr_destroy(s.ca); s.ca = n; },
                    12 | 15 | 16 => {
                        let g = [0.7, 0., 0., 1.5, f64::NAN][o - 12];
                        let r = s.a.new_image_borrowed(&px2, W, H, g);
                        let n = w_liq_image_create_rgba(s.ca, px2.as_ptr().cast(), W as c_int, H as c_int, g);
                        if r.is_err() != n.is_null() { return Err(format!("{name}: Rust {:?}, C {n:?}", r.err())); }
                        if let Ok(r) = r { s.i = r; w_liq_image_destroy(s.ci); s.ci = n; }
                    },
                    13 => {
                        let p = &px2;
                        let r = Image::new_fn(&s.a, move |row, y| { for (o, p) in row.iter_mut().zip(&p[y * W..]) { o.write(*p); } }, W, H, 1.);
                        let src = Box::new(cr::Src { p: px2.clone(), w: W, h: H, bad: 0.into(), calls: 0.into() });
                        let n = w_liq_image_create_custom(s.ca, cr::row_cb as P, (&*src as *const cr::Src as *mut cr::Src).cast(), W as c_int, H as c_int, 1.);
                        keep.push(src);
                        if r.is_err() != n.is_null() { return Err(format!("{name}: Rust {:?}, C {n:?}", r.err())); }
                        if let Ok(r) = r { s.i = r; w_liq_image_destroy(s.ci); s.ci = n; }
                    },
                    14 => {
                        let r = s.a.new_image_borrowed(&px2, W, H, -0.1);
                        rowps.push((0..H).map(|y| px2.as_ptr().add(y * W)).collect());
                        let n = w_liq_image_create_rgba_rows(s.ca, rowps.last_mut().unwrap().as_mut_ptr().cast(), W as c_int, H as c_int, -0.1);
                        if r.is_err() != n.is_null() { return Err(format!("{name}: Rust {:?}, C {n:?}", r.err())); }
                        if let Ok(r) = r { s.i = r; w_liq_image_destroy(s.ci); s.ci = n; }
                    },
                    17 | 18 => same(c(s.i.set_importance_map(&imp[..W * H])), w_liq_image_set_importance_map(s.ci, imp.as_ptr() as P, if o == 17 { W * H } else { W * H + 9 }, COPY_PIXELS))?,
                    19 => same(c(s.i.set_importance_map(&imp[..W * H - 1])), w_liq_image_set_importance_map(s.ci, imp.as_ptr() as P, W * H - 1, COPY_PIXELS))?,
                    20 | 21 => {
                        let n = if o == 20 { W * H } else { W * H + 9 };
                        let m = libc::malloc(n);
                        std::ptr::copy_nonoverlapping(imp.as_ptr(), m.cast::<u8>(), n);
                        same(c(s.i.set_importance_map(imp[..W * H].to_vec())), w_liq_image_set_importance_map(s.ci, m, n, OWN_PIXELS))?;
                    },
                    22 => same(UNSUP, w_liq_image_set_importance_map(s.ci, imp.as_ptr() as P, W * H, OWN_ROWS))?,
                    23 | 24 => { let v = if o == 23 { px(3, 7, 251, 255) } else { px(250, 9, 3, 0) }; same(c(s.i.add_fixed_color(v)), w_liq_image_add_fixed_color(s.ci, v))?; },
                    25 | 26 => {
                        let (bw, bh) = if o == 25 { (W, H) } else { (H, W) };
                        let b = s.a.new_image_borrowed(&bgp, bw, bh, 0.3).map_err(|e| e.to_string())?;
                        let cb = w_liq_image_create_rgba(s.ca, bgp.as_ptr().cast(), bw as c_int, bh as c_int, 0.3);
                        same(c(s.i.set_background(b)), w_liq_image_set_background(s.ci, cb))?;
                    },
                    27 => { s.h = Histogram::new(&s.a); w_liq_histogram_destroy(s.ch); s.ch = w_liq_histogram_create(s.ca); },
                    28..=30 => { let g = [0., 0.3, 1.2][o - 28]; let e = &ent[o - 28..]; same(c(s.h.add_colors(e, g)), w_liq_histogram_add_colors(s.ch, s.ca, e.as_ptr().cast(), e.len() as c_int, g))?; },
                    // documented in C as doing nothing
                    31 => same(OK, w_liq_histogram_add_colors(s.ch, s.ca, ent.as_ptr().cast(), 0, 0.))?,
                    32..=36 => { let g = [0., 0.3, 1., -1., 2.][o - 32]; let v = px(200, (o * 5) as u8, 100, 255); same(c(s.h.add_fixed_color(v, g)), w_liq_histogram_add_fixed_color(s.ch, v, g))?; },
                    37 => same(c(s.h.add_image(&s.a, &mut s.i)), w_liq_histogram_add_image(s.ch, s.ca, s.ci))?,
                    38 | 39 => {
                        let r = if o == 38 { s.a.quantize(&mut s.i) } else { s.h.quantize(&s.a) };
                        let mut n = 0x10 as P;
                        let ce = if o == 38 { w_liq_image_quantize(s.ci, s.ca, (&mut n as *mut P).cast()) } else { w_liq_histogram_quantize(s.ch, s.ca, (&mut n as *mut P).cast()) };
                        same(r.as_ref().err().map_or(OK, code), ce)?;
                        if n.is_null() != r.is_err() { return Err(format!("{name}: result pointer {n:?} with code {ce}")); }
                        w_liq_result_destroy(s.cr);
                        s.r = r.ok(); s.cr = n;
                    },
                    _ => if let Some(r) = &mut s.r { match o {
                        40..=42 => { let v = [0.5, 2., 0.][o - 40]; same(c(r.set_dithering_level(v)), w_liq_set_dithering_level(s.cr, v))?; },
                        43 | 44 => { let v = [0.3, 1.][o - 43]; same(c(r.set_output_gamma(v)), w_liq_set_output_gamma(s.cr, v))?; },
                        45 | 46 => {
                            let mut b = vec![0xEEu8; W * H];
                            let ce = if o == 45 { w_liq_write_remapped_image(s.cr, s.ci, b.as_mut_ptr().cast(), b.len()) } else {
                                let bp = b.as_mut_ptr();
                                let mut rows: Vec<*mut u8> = (0..H).map(|y| bp.add(y * W)).collect();
                                w_liq_write_remapped_image_rows(s.cr, s.ci, rows.as_mut_ptr().cast())
                            };
                            let want = r.remapped(&mut s.i);
                            same(want.as_ref().err().map_or(OK, code), ce)?;
                            if let Ok((pal, idx)) = want { if idx != b || Some(pal) != palette(s.cr) { return Err(format!("{name}: Rust and C give different pictures")); } }
                        },
                        _ => {
                            let want = r.palette_vec();
                            let got = palette(s.cr);
                            if Some(&want) != got.as_ref() { return Err(format!("{name}: Rust {}, C {}", crate::pix::show_pal(&want), crate::pix::show_pal(&got.unwrap_or_default()))); }
                        },
                    } },
                }
                // everything that can be asked
                let got = [w_liq_get_max_colors(s.ca), w_liq_get_speed(s.ca), w_liq_get_min_posterization(s.ca), w_liq_get_min_quality(s.ca), w_liq_get_max_quality(s.ca), w_liq_image_get_width(s.ci), w_liq_image_get_height(s.ci)];
                let want = [s.a.max_colors() as c_int, s.a.speed() as c_int, s.a.min_posterization() as c_int, s.a.quality().0 as c_int, s.a.quality().1 as c_int, s.i.width() as c_int, s.i.height() as c_int];
                if got != want { return Err(format!("after {name}: C getters {got:?}, Rust {want:?}")); }
                if let Some(r) = &s.r {
                    let f = |v: Option<f64>| v.unwrap_or(-1.).to_bits();
                    let q = |v: Option<u8>| v.map_or(-1, |v| v as c_int);
                    let got = (w_liq_get_output_gamma(s.cr).to_bits(), w_liq_get_quantization_error(s.cr).to_bits(), w_liq_get_remapping_error(s.cr).to_bits(), w_liq_get_quantization_quality(s.cr), w_liq_get_remapping_quality(s.cr));
                    let want = (r.output_gamma().to_bits(), f(r.quantization_error()), f(r.remapping_error()), q(r.quantization_quality()), q(r.remapping_quality()));
                    if got != want { return Err(format!("after {name}: C result {got:?}, Rust {want:?}")); }
                }
            }
            trace();
            w_liq_result_destroy(s.cr); w_liq_histogram_destroy(s.ch); w_liq_image_destroy(s.ci); w_liq_attr_destroy(s.ca);
        }
        Ok(())
    }

    pub fn run(x: &Ctx) {
        // both interfaces, call by call
        let n = LS.len();
        let mut items: Vec<(Vec<usize>, Content)> = vec![];
        for k in 0..n.pow(3) { items.push((vec![k % n, k / n % n, k / n / n], Content::Photo)); }
        if x.thorough() { for k in 0..n.pow(4) { items.push((vec![k % n, k / n % n, k / n / n % n, k / n / n / n], Content::NoiseA)); } }
        // with a result to work on, a picture with transparency
        for k in 0..n * n { items.push((vec![38, k % n, 45, k / n, 45], Content::NoiseA)); items.push((vec![0, k % n, k / n, 37], Content::NoiseA)); }
        x.explore("lockstep", &items, |i| format!("{:?}: {}", i.1, i.0.iter().map(|o| LS[*o]).collect::<Vec<_>>().join(", ")), |i| lockstep(&i.0, i.1));
        // constants and structures of the header against those of the library
        x.explore("header", &[0], |_| "constants".into(), |_| unsafe {
            use std::mem::{offset_of, size_of};
            type HE = imagequant::HistogramEntry;
            type C = imagequant::RGBA;
            let want = [0, 99, 100, 101, 102, 103, 104, 105, 106, 4, 8, 16, size_of::<C>() as c_int, size_of::<imagequant_sys::liq_palette>() as c_int, size_of::<HE>() as c_int, 4, offset_of!(HE, count) as c_int, offset_of!(C, r) as c_int, offset_of!(C, g) as c_int, offset_of!(C, b) as c_int, offset_of!(C, a) as c_int];
            for (k, w) in want.iter().enumerate() { op(); trace(); let g = w_const(k as c_int); if g != *w { return Err(format!("constant {k} of the header is {g}, library has {w}")); } }
            op();
            if w_liq_version() / 10000 != w_const(21) / 10000 || w_liq_version() < w_const(21) { return Err(format!("version {} of the library, {} of the header", w_liq_version(), w_const(21))); }
            use imagequant::Error::*;
            for (e, w) in [(QualityTooLow, TOO_LOW), (ValueOutOfRange, RANGE), (OutOfMemory, OOM), (Aborted, ABORTED), (BufferTooSmall, SMALL), (InvalidPointer, INVALID), (Unsupported, UNSUP)] { if e as c_int != w { return Err(format!("{e:?} is {}", e as c_int)); } }
            Ok(())
        });
        // pipelines
        let mut bases = vec![base()];
        { let mut b = base(); b.content = Content::NoiseA; b.speed = 6; b.w = 9; b.h = 11; bases.push(b); }
        { let mut b = base(); b.content = Content::Sparse; b.speed = 8; b.last = true; bases.push(b); }
        let d = dims();
        let mut cfgs = space_of(&bases, &d, 2);
        if x.thorough() { let mut b = base(); b.w = 6; b.h = 6; b.speed = 6; cfgs.extend(space_of(&[b], &d, 3)); }
        let items: Vec<(Cfg, cr::CRep)> = cfgs.into_iter().enumerate().map(|(k, c)| (c, cr::CREPS[k % cr::CREPS.len()])).collect();
        x.explore("pipelines", &items, |c| format!("{} as {:?}", c.0, c.1), |(c, rep)| {
            let p = c.pixels();
            let want = run_px(c, &p);
            let got = cr::run(c, &p, *rep)?;
            trace();
            match want.differs(&got, true) { Some(d) => Err(format!("Rust vs C: {d}")), None => Ok(()) }
        });
        // setters return what the Rust ones do
        let vals: Vec<i64> = (-300..=700).chain([1 << 16, (1 << 16) + 7, i32::MAX as i64, i32::MIN as i64, i32::MIN as i64 + 4, -65536 + 5]).collect();
        super::super::c13::c_values(x, &vals);
        // any non-zero value is true in C
        x.explore("last-index-values", &[0, 1, 2, -1, 256, 1 << 16, i32::MIN], |v| format!("liq_set_last_index_transparent({v})"), |&v| unsafe {
            let mut c = base(); c.content = Content::AlphaExt; c.last = v != 0;
            let want = crate::pipe::run(&c);
            c.last = v == 0;
            let a = cr::attr(&c);
            op();
            w_liq_set_last_index_transparent(a, v);
            let (im, _k) = cr::image(a, &c.pixels(), c.w, c.h, 0., cr::CRep::Rgba);
            let r = w_liq_quantize_image(a, im);
            let pal = palette(r);
            w_liq_result_destroy(r); w_liq_image_destroy(im); w_liq_attr_destroy(a);
            trace();
            if pal.as_ref() != Some(&want.pal0) { return Err("palette differs from the one of the Rust setter".into()); }
            Ok(())
        });
        // deprecated call, row output and stored values
        let mut items = vec![];
        for ct in [Content::Photo, Content::NoiseA, Content::Sparse, Content::Flat] { for speed in [1, 4, 8, 10] { for q in QUALS { for dither in [0f32, 1.] { for (w, h) in [(1usize, 1usize), (7, 5), (3, 131)] { let mut c = base(); c.content = ct; c.speed = speed; c.quality = *q; c.w = w; c.h = h; c.dither = dither; items.push(c); } } } } }
        x.explore("rows", &items, |c| c.to_string(), |c| unsafe {
            let p = c.pixels();
            let want = crate::pipe::run(c);
            let a = cr::attr(c);
            set_cpus(c.cpus);
            let (im, keep) = cr::image(a, &p, c.w, c.h, c.gin, cr::CRep::RowsReversed);
            op();
            let r = w_liq_quantize_image(a, im);
            trace();
            if r.is_null() != want.err.is_some() { return Err(format!("liq_quantize_image gave {r:?}, Rust {:?}", want.err)); }
            if !r.is_null() {
                w_liq_set_dithering_level(r, c.dither);
                // rows in descending order of address, with gaps
                let st = c.w + 3;
                let mut b = vec![0xA5u8; st * c.h];
                let bp = b.as_mut_ptr();
                let mut rows: Vec<*mut u8> = (0..c.h).map(|y| bp.add((c.h - 1 - y) * st)).collect();
                op();
                let e = w_liq_write_remapped_image_rows(r, im, rows.as_mut_ptr().cast());
                if e != OK { return Err(format!("liq_write_remapped_image_rows returned {e}")); }
                let got: Vec<u8> = (0..c.h).flat_map(|y| b[(c.h - 1 - y) * st..][..c.w].to_vec()).collect();
                if got != want.idx || palette(r) != Some(want.pal.clone()) { return Err("rows written by C differ from Rust's".into()); }
                for y in 0..c.h { if b[y * st + c.w..(y + 1) * st].iter().any(|v| *v != 0xA5) { return Err("bytes between rows written".into()); } }
                let q = |v: Option<u8>| v.map_or(-1, |v| v as c_int);
                let f = |v: Option<f64>| v.map_or(-1., |v| v);
                if w_liq_get_quantization_error(r) != f(want.qerr) || w_liq_get_remapping_error(r) != f(want.rerr) || w_liq_get_quantization_quality(r) != q(want.qq) || w_liq_get_remapping_quality(r) != q(want.rq) { return Err("reported errors differ".into()); }
                w_liq_result_destroy(r);
            }
            w_liq_image_destroy(im);
            w_liq_attr_destroy(a);
            if keep.intact() { Ok(()) } else { Err("input modified".into()) }
        });
        // bad handles
        let want = unsafe { let o = Objs::new(); let v = o.observe(); o.free(); v };
        let mut items = vec![];
        for (f, t) in table().iter().enumerate() { for code in 1..5usize.pow(t.1.len() as u32) { items.push((f, code)); } }
        x.explore("handles", &items, |i| format!("{}({})", table()[i.0].0, handles(i.0, i.1).iter().map(|h| h.0).collect::<Vec<_>>().join(", ")), |&(f, c)| bad_call(f, c, &want));
        x.explore("null-destroy", &[0], |_| "destroy functions with NULL".into(), |_| unsafe { w_liq_attr_destroy(NULL); w_liq_image_destroy(NULL); w_liq_histogram_destroy(NULL); w_liq_result_destroy(NULL); Ok(()) });
        // other bad pointers and sizes
        let bad: Vec<c_int> = vec![0, -1, -5, c_int::MIN, c_int::MAX];
        let mut items = vec![];
        for w in bad.iter().chain(&[1, 6]) { for h in bad.iter().chain(&[1, 5]) { items.push((*w, *h)); } }
        x.explore("sizes", &items, |i| format!("{}x{} through C", i.0, i.1), |&(w, h)| unsafe {
            let o = Objs::new();
            let ok = w > 0 && h > 0 && w < 100 && h < 100;
            let p = make(Content::Rgb, 6, 5);
            let rows: Vec<*const imagequant::RGBA> = (0..5).map(|y| p.as_ptr().wrapping_add(6 * y)).collect();
            for (n, i) in [("liq_image_create_rgba", w_liq_image_create_rgba(o.a, p.as_ptr().cast(), w, h, 0.)), ("liq_image_create_rgba_rows", w_liq_image_create_rgba_rows(o.a, rows.as_ptr() as P, w, h, 0.))] {
                op(); trace();
                if i.is_null() == ok { return Err(format!("{n} gave {i:?}")); }
                if ok { w_liq_image_destroy(i); }
            }
            if w <= 0 || h <= 0 { let i = w_liq_image_create_custom(o.a, row_black as P, NULL, w, h, 0.); op(); if !i.is_null() && (w == 0 || h == 0) { return Err("liq_image_create_custom accepted a zero size".into()); } w_liq_image_destroy(i); }
            let got = o.observe();
            o.free();
            if got == want { Ok(()) } else { Err("later behaviour changed".into()) }
        });
        // every ownership flag
        let flags: Vec<c_int> = (0..=66).chain([128, 256, 1 << 16, 1 << 30, -1, -8, c_int::MIN]).collect();
        x.explore("ownership-flags", &flags, |f| format!("{f:#x}"), |&f| unsafe {
            for rep in [run::CRep::Rgba, run::CRep::Rows, run::CRep::Custom] { for over in [0usize, 7] {
                let a = w_liq_attr_create();
                // an accepted owned map is released by the library
                let m = libc::malloc(W * H + over) as *mut u8;
                for i in 0..W * H + over { *m.add(i) = 200; }
                let p = vec![crate::pix::px(1, 2, 3, 255); W * H];
                let (im, keep) = run::image(a, &p, W, H, 0., rep);
                op(); op(); trace();
                let got = w_liq_image_set_importance_map(im, m.cast(), W * H + over, f);
                let want = if f == OWN_PIXELS || f == COPY_PIXELS { OK } else { UNSUP };
                if got != want { return Err(format!("liq_image_set_importance_map with ownership {f:#x} on a {rep:?} image returned {got} instead of {want}")); }
                if f != OWN_PIXELS { libc::free(m.cast()); }
                // none of these may be accepted
                if f & !(OWN_ROWS | OWN_PIXELS) != 0 || f == 0 {
                    let got = w_liq_image_set_memory_ownership(im, f);
                    if got != RANGE { return Err(format!("liq_image_set_memory_ownership with {f:#x} on a {rep:?} image returned {got}")); }
                }
                w_liq_image_destroy(im);
                w_liq_attr_destroy(a);
                if !keep.intact() { return Err("the caller's pixels were modified".into()); }
            } }
            Ok(())
        });
        x.explore("pointers", &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9], |i| ["pixels NULL", "rows NULL", "one row NULL", "importance NULL", "importance short", "output NULL", "output short", "output rows NULL", "entries NULL", "negative entries"][*i].to_string(), |&k| unsafe {
            let o = Objs::new();
            let p = make(Content::Rgb, 6, 5);
            let mut rows: Vec<*const imagequant::RGBA> = (0..5).map(|y| p.as_ptr().wrapping_add(6 * y)).collect();
            let mut b = vec![0u8; W * H];
            op();
            let r = match k {
                0 => w_liq_image_create_rgba(o.a, std::ptr::null(), 6, 5, 0.).is_null(),
                1 => w_liq_image_create_rgba_rows(o.a, NULL, 6, 5, 0.).is_null(),
                2 => { let mut good = true; for z in 0..5 { let s = rows[z]; rows[z] = std::ptr::null(); good &= w_liq_image_create_rgba_rows(o.a, rows.as_ptr() as P, 6, 5, 0.).is_null(); rows[z] = s; } good },
                3 => w_liq_image_set_importance_map(o.i, NULL, W * H, COPY_PIXELS) == INVALID,
                4 => (1..W * H).all(|n| w_liq_image_set_importance_map(o.i, b.as_mut_ptr().cast(), n, COPY_PIXELS) == SMALL),
                5 => w_liq_write_remapped_image(o.r, o.i, NULL, W * H) == INVALID,
                6 => (0..W * H).all(|n| w_liq_write_remapped_image(o.r, o.i, b.as_mut_ptr().cast(), n) == SMALL),
                7 => w_liq_write_remapped_image_rows(o.r, o.i, NULL) == INVALID,
                8 => w_liq_histogram_add_colors(o.h, o.a, std::ptr::null(), 3, 0.) == INVALID,
                _ => w_liq_histogram_add_colors(o.h, o.a, b.as_ptr().cast(), -1, 0.) == RANGE,
            };
            trace();
            if !r { return Err("not refused as documented".into()); }
            let got = o.observe();
            o.free();
            if got == want { Ok(()) } else { Err("refused call changed later behaviour".into()) }
        });
        // callback histories
        let n = CB.len();
        let depth = x.q(5u32, 6);
        let items: Vec<usize> = (0..n.pow(depth)).collect();
        let dec = |&code: &usize| { let mut c = code; let mut v = vec![]; for _ in 0..depth { v.push(c % n); c /= n; } v };
        x.explore("callbacks", &items, |i| dec(i).iter().map(|o| CB[*o]).collect::<Vec<_>>().join(", "), |i| callbacks(&dec(i)));
        // the user pointer reaches the abort decision: stop at the n-th notification
        x.explore("stop", &(1..=40u64).collect::<Vec<_>>(), |n| format!("stop at notification {n}"), |&n| unsafe {
            let s = seen();
            let total = { let a = w_liq_attr_create(); w_liq_attr_set_progress_callback(a, progress as P, ptr(&s)); let p = make(Content::Photo, 20, 20); let i = w_liq_image_create_rgba(a, p.as_ptr().cast(), 20, 20, 0.); let mut r = NULL; w_liq_image_quantize(i, a, (&mut r as *mut P).cast()); w_liq_result_destroy(r); w_liq_image_destroy(i); w_liq_attr_destroy(a); s.calls.load(SeqCst) };
            s.calls.store(0, SeqCst); s.stop.store(n, SeqCst);
            let a = w_liq_attr_create(); w_liq_attr_set_progress_callback(a, progress as P, ptr(&s)); let p = make(Content::Photo, 20, 20); let i = w_liq_image_create_rgba(a, p.as_ptr().cast(), 20, 20, 0.);
            let mut r = 0x10 as P;
            op(); trace();
            let e = w_liq_image_quantize(i, a, (&mut r as *mut P).cast());
            let want = if n <= total { ABORTED } else { OK };
            if e != want || r.is_null() != (e != OK) { return Err(format!("returned {e}, result {r:?}; {total} notifications in an undisturbed run")); }
            w_liq_result_destroy(r); w_liq_image_destroy(i); w_liq_attr_destroy(a);
            Ok(())
        });
    }
}
