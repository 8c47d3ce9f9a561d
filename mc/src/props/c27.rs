//! Log, flush and progress callbacks only observe.
use crate::core::*;
use crate::pipe::*;
use crate::pix::{make, Content};
use imagequant::{Attributes, ControlFlow, Histogram, HistogramEntry, Image, RGBA};
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, PartialEq)]
enum Ev { Log(usize, u64, bool), Flush(usize, u64) }

const OPS: &[&str] = &["log 0", "log 1", "flush 0", "flush 1", "copy, keep original", "copy, destroy original", "switch object", "quantize image", "quantize histogram", "refused image", "set_quality(0, 10)", "destroy", "clear log", "clear flush"];
const RUST_OPS: usize = 12;

/// one settings object as the caller knows it
#[derive(Clone, Copy, Debug)]
struct M { colors: u32, low: bool, log: Option<usize>, flush: Option<usize>, dirty: bool }

/// the object under test; identified by its handle (C) or its colour limit (Rust)
enum Obj {
    Rust(Attributes),
    #[cfg(not(no_c))]
    C(crate::capi::P),
}
type Log = Arc<Mutex<Vec<Ev>>>;

#[cfg(not(no_c))]
mod c {
    use super::*;
    use crate::capi::*;
    pub struct User { pub id: usize, pub log: Log }
    pub unsafe extern "C" fn log(a: P, msg: *const std::os::raw::c_char, u: P) {
        let u = &*(u as *const User);
        let ok = !msg.is_null() && !std::ffi::CStr::from_ptr(msg).to_bytes().is_empty();
        u.log.lock().unwrap().push(Ev::Log(u.id, a as u64, ok));
    }
    pub unsafe extern "C" fn flush(a: P, u: P) { let u = &*(u as *const User); u.log.lock().unwrap().push(Ev::Flush(u.id, a as u64)); }
    pub unsafe fn quantize(a: P, hist: bool, p: &[RGBA]) -> Result<Vec<RGBA>, String> {
        let mut r = NULL;
        let e = if hist {
            let h = w_liq_histogram_create(a);
            let en: Vec<HistogramEntry> = p.iter().map(|p| HistogramEntry { color: *p, count: 1 }).collect();
            w_liq_histogram_add_colors(h, a, en.as_ptr().cast(), en.len() as c_int, 0.);
            let e = w_liq_histogram_quantize(h, a, (&mut r as *mut P).cast());
            w_liq_histogram_destroy(h);
            e
        } else {
            let i = w_liq_image_create_rgba(a, p.as_ptr().cast(), 4, p.len() as c_int / 4, 0.);
            let e = w_liq_image_quantize(i, a, (&mut r as *mut P).cast());
            w_liq_image_destroy(i);
            e
        };
        if e != OK { return Err(format!("quantization returned {e}")); }
        let pal = palette(r).unwrap_or_default();
        w_liq_result_destroy(r);
        Ok(pal)
    }
}

impl Obj {
    fn new(is_c: bool, colors: u32) -> Obj {
        #[cfg(not(no_c))]
        if is_c { unsafe { let a = crate::capi::w_liq_attr_create(); crate::capi::w_liq_set_speed(a, 8); crate::capi::w_liq_set_max_colors(a, colors as i32); return Obj::C(a); } }
        let _ = is_c;
        let mut a = Attributes::new();
        a.set_speed(8).unwrap(); a.set_max_colors(colors).unwrap();
        Obj::Rust(a)
    }
    fn id(&self, m: &M) -> u64 { match self { Obj::Rust(_) => m.colors as u64, #[cfg(not(no_c))] Obj::C(a) => *a as u64 } }
    fn colors(&mut self, v: u32) { match self { Obj::Rust(a) => a.set_max_colors(v).unwrap(), #[cfg(not(no_c))] Obj::C(a) => unsafe { crate::capi::w_liq_set_max_colors(*a, v as i32); } } }
    fn copy(&self) -> Obj { match self { Obj::Rust(a) => Obj::Rust(a.clone()), #[cfg(not(no_c))] Obj::C(a) => Obj::C(unsafe { crate::capi::w_liq_attr_copy(*a) }) } }
    fn destroy(self) { match self { Obj::Rust(a) => drop(a), #[cfg(not(no_c))] Obj::C(a) => unsafe { crate::capi::w_liq_attr_destroy(a) } } }
    fn low(&mut self) -> bool { match self { Obj::Rust(a) => a.set_quality(0, 10).is_ok(), #[cfg(not(no_c))] Obj::C(a) => unsafe { crate::capi::w_liq_set_quality(*a, 0, 10) == 0 } } }
    fn refused(&self, p: &[RGBA]) -> bool { match self { Obj::Rust(a) => Image::new_borrowed(a, p, 4, p.len() / 4, 2.).is_err(), #[cfg(not(no_c))] Obj::C(a) => unsafe { crate::capi::w_liq_image_create_rgba(*a, p.as_ptr().cast(), 4, p.len() as i32 / 4, 2.).is_null() } } }
    fn quantize(&self, hist: bool, p: &[RGBA]) -> Result<Vec<RGBA>, String> {
        match self {
            Obj::Rust(a) => {
                let r = if hist { let mut h = Histogram::new(a); h.add_colors(&p.iter().map(|p| HistogramEntry { color: *p, count: 1 }).collect::<Vec<_>>(), 0.).unwrap(); h.quantize(a) } else { a.quantize(&mut Image::new_borrowed(a, p, 4, p.len() / 4, 0.).unwrap()) };
                Ok(r.map_err(|e| format!("{e:?}"))?.palette_vec())
            },
            #[cfg(not(no_c))]
            Obj::C(a) => unsafe { c::quantize(*a, hist, p) },
        }
    }
}

fn history(is_c: bool, seq: &[usize], cache: &Mutex<HashMap<(u32, bool, bool), Vec<RGBA>>>) -> Result<(), String> {
    let ev: Log = Arc::new(Mutex::new(vec![]));
    #[cfg(not(no_c))]
    let users: Vec<Box<c::User>> = (0..4).map(|id| Box::new(c::User { id: id % 2, log: ev.clone() })).collect();
    let p = make(Content::Rgb, 4, 6);
    let mut next = 3u32;
    let mut fresh = || { next += 1; next };
    let k = fresh();
    let mut cur = (Obj::new(is_c, k), M { colors: k, low: false, log: None, flush: None, dirty: false });
    let mut other: Option<(Obj, M)> = None;
    // (at the end everything is destroyed)
    let all: Vec<usize> = seq.iter().copied().chain([11, 11, 11]).collect();
    for (n, &o) in all.iter().enumerate() {
        op();
        let when = |m: &str| format!("{m} during {:?}, call {n}", OPS[o]);
        let before = cur.1;
        let mut id = cur.0.id(&cur.1);
        // must a flush have been delivered when the call returns?
        let mut due = None;
        match o {
            0 | 1 | 12 => {
                if cur.1.dirty { due = cur.1.flush; }
                match &mut cur.0 {
                    Obj::Rust(a) => { let e = ev.clone(); a.set_log_callback(move |a, m| e.lock().unwrap().push(Ev::Log(o, a.max_colors() as u64, !m.is_empty() && !m.contains('\0')))); },
                    #[cfg(not(no_c))]
                    Obj::C(a) => unsafe { crate::capi::w_liq_set_log_callback(*a, if o == 12 { crate::capi::NULL } else { c::log as crate::capi::P }, &*users[o % 2] as *const c::User as crate::capi::P); },
                }
                cur.1.log = (o < 2).then_some(o);
            },
            2 | 3 | 13 => {
                if cur.1.dirty { due = cur.1.flush; }
                match &mut cur.0 {
                    Obj::Rust(a) => { let e = ev.clone(); a.set_log_flush_callback(move |a| e.lock().unwrap().push(Ev::Flush(o - 2, a.max_colors() as u64))); },
                    #[cfg(not(no_c))]
                    Obj::C(a) => unsafe { crate::capi::w_liq_set_log_flush_callback(*a, if o == 13 { crate::capi::NULL } else { c::flush as crate::capi::P }, &*users[2 + o % 2] as *const c::User as crate::capi::P); },
                }
                cur.1.flush = (o < 4).then(|| o - 2);
            },
            4 | 5 => {
                let copy = cur.0.copy();
                let mut m = cur.1;
                m.dirty = false;
                let old = std::mem::replace(&mut cur, (copy, m));
                if o == 4 { if let Some(gone) = other.replace(old) { if gone.1.dirty { due = gone.1.flush; } id = gone.0.id(&gone.1); let (g, m) = gone; g.destroy(); judge(&ev, &m, &m, id, due, false, &when)?; } }
                else { if old.1.dirty { due = old.1.flush; } old.0.destroy(); judge(&ev, &old.1, &old.1, id, due, false, &when)?; }
                cur.1.colors = fresh();
                cur.0.colors(cur.1.colors);
                ev.lock().unwrap().clear();
                continue;
            },
            6 => { if let Some(x) = other.take() { other = Some(std::mem::replace(&mut cur, x)); } continue; },
            7 | 8 => {
                let got = cur.0.quantize(o == 8, &p).map_err(|e| when(&e))?;
                let key = (cur.1.colors, cur.1.low, o == 8);
                let c = cache.lock().unwrap().get(&key).cloned();
                let want = match c { Some(w) => w, None => { let mut q = Obj::new(false, key.0); if key.1 { q.low(); } let w = q.quantize(key.2, &p)?; cache.lock().unwrap().insert(key, w.clone()); w } };
                if got != want { return Err(when("the palette differs from that of a settings object without callbacks")); }
                if cur.1.log.is_some() && !ev.lock().unwrap().iter().any(|e| matches!(e, Ev::Log(..))) { return Err(when("nothing logged")); }
            },
            9 => { if !cur.0.refused(&p) { return Err(when("accepted")); } },
            10 => { if !cur.0.low() { return Err(when("refused")); } cur.1.low = true; },
            _ => {
                if cur.1.dirty { due = cur.1.flush; }
                let new = match other.take() { Some(x) => x, None => { let k = fresh(); (Obj::new(is_c, k), M { colors: k, low: false, log: None, flush: None, dirty: false }) } };
                let (g, m) = std::mem::replace(&mut cur, new);
                g.destroy();
                judge(&ev, &m, &m, id, due, false, &when)?;
                continue;
            },
        }
        cur.1.dirty = judge(&ev, &before, &cur.1, id, due, cur.1.dirty, &when)?;
    }
    cur.0.destroy();
    trace();
    Ok(())
}
/// are these the callbacks that may be called? Returns whether messages are left that no flush followed
fn judge(ev: &Log, before: &M, after: &M, id: u64, due: Option<usize>, mut dirty: bool, when: &dyn Fn(&str) -> String) -> Result<bool, String> {
    let mut flushed = false;
    for e in ev.lock().unwrap().drain(..) {
        match e {
            Ev::Log(k, who, ok) => {
                if before.log != Some(k) && after.log != Some(k) { return Err(when(&format!("message sent to log callback {k} instead of {:?}", after.log))); }
                if who != id { return Err(when("the log callback was given another settings object")); }
                if !ok { return Err(when("empty message")); }
                dirty = true;
            },
            Ev::Flush(k, who) => {
                if before.flush != Some(k) && after.flush != Some(k) { return Err(when(&format!("flush sent to callback {k} instead of {:?}", after.flush))); }
                if who != id { return Err(when("the flush callback was given another settings object")); }
                if due == Some(k) { flushed = true; }
                dirty = false;
            },
        }
    }
    if due.is_some() && !flushed { return Err(when(&format!("no flush sent to callback {due:?} after the last message"))); }
    Ok(dirty)
}

/// a pipeline with and without observers
fn observed(c: &Cfg) -> Result<(), String> {
    let p = c.pixels();
    let want = run_px(c, &p);
    for mode in 0..3 {
        let n = Arc::new(AtomicU64::new(0));
        let mut a = c.attr();
        if mode != 1 {
            let k = n.clone(); a.set_log_callback(move |_, m| { k.fetch_add(m.len() as u64, SeqCst); });
            let k = n.clone(); a.set_log_flush_callback(move |_| { k.fetch_add(1, SeqCst); });
        }
        if mode != 0 { let k = n.clone(); a.set_progress_callback(move |_| { k.fetch_add(1, SeqCst); ControlFlow::Continue }); }
        let mut i = c.image(&a, &p).map_err(|e| format!("{e:?}"))?;
        let mut o = Out::default();
        set_cpus(c.cpus);
        op();
        match c.quantize(&a, &mut i, &p) {
            Err(e) => o.err = Some(("quantize", format!("{e:?}"))),
            Ok(mut r) => {
                o.qerr = r.quantization_error(); o.qq = r.quantization_quality();
                c.configure(&mut r).map_err(|e| format!("{e:?}"))?;
                if mode != 0 { let k = n.clone(); r.set_progress_callback(move |_| { k.fetch_add(1, SeqCst); ControlFlow::Continue }); }
                o.pal0 = r.palette_vec();
                if let Err(e) = remap(&mut r, &mut i, &mut o) { o.err = Some(("remap", format!("{e:?}"))); }
            },
        }
        trace();
        outcome(o.digest());
        if let Some(d) = want.differs(&o, true) { return Err(format!("with {} the result differs: {d}", ["log callbacks", "progress callbacks", "log and progress callbacks"][mode])); }
        if o.err.is_none() && n.load(SeqCst) == 0 { return Err("no callback was ever called".into()); }
    }
    Ok(())
}

pub fn run(x: &Ctx) {
    let cache = Mutex::new(HashMap::new());
    let mut go = |is_c: bool, n: usize, depth: u32| {
        let items: Vec<usize> = (0..n.pow(depth)).collect();
        let dec = |&code: &usize| { let mut c = code; let mut v = vec![]; for _ in 0..depth { v.push(c % n); c /= n; } v };
        x.explore(if is_c { "c-histories" } else { "histories" }, &items, |i| dec(i).iter().map(|o| OPS[*o]).collect::<Vec<_>>().join(", "), |i| history(is_c, &dec(i), &cache));
    };
    go(false, RUST_OPS, x.q(5, 7));
    #[cfg(not(no_c))]
    go(true, OPS.len(), x.q(5, 6));
    let mut b2 = base(); b2.content = Content::NoiseA; b2.w = 5; b2.h = 150; b2.speed = 6; b2.cpus = 4;
    let mut b3 = base(); b3.content = Content::AlphaExt; b3.w = 9; b3.h = 7; b3.dither = 0.; b3.bg = Bg::Shift;
    x.explore("observers", &space(&[base(), b2, b3], x.q(1, 2)), |c| c.to_string(), observed);
}
