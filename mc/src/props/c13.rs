//! Setters and getters.
use crate::core::*;
use crate::pipe::*;
use crate::pix::{make, Content};
use imagequant::{Attributes, Error, Image, QuantizationResult, RGBA};
use std::collections::HashMap;
use std::sync::Mutex;

#[derive(Clone, Copy, PartialEq, Debug, Eq, Hash)]
struct M { colors: u32, q: Option<(u8, u8)>, speed: i32, post: u8, last: bool }
impl Default for M { fn default() -> Self { M { colors: 256, q: None, speed: 4, post: 0, last: false } } }

#[derive(Clone, Copy, Debug)]
enum Op { Colors(u32), Quality(u8, u8), Speed(i32), Post(u8), Last(bool) }
use Op::*;
const ALPHA: &[Op] = &[Colors(2), Colors(256), Colors(7), Colors(1), Colors(257), Colors(0), Quality(0, 100), Quality(20, 70), Quality(70, 20), Quality(0, 101), Quality(0, 55), Quality(101, 101), Speed(1), Speed(10), Speed(6), Speed(0), Speed(11), Post(0), Post(4), Post(5), Post(2), Last(true), Last(false)];

impl M {
    /// the documented ranges
    fn apply(&mut self, o: Op) -> bool {
        match o {
            Colors(v) => { if !(2..=256).contains(&v) { return false; } self.colors = v; },
            Quality(a, b) => { if b > 100 || a > b { return false; } self.q = Some((a, b)); },
            Speed(v) => { if !(1..=10).contains(&v) { return false; } self.speed = v; },
            Post(v) => { if v > 4 { return false; } self.post = v; },
            Last(v) => self.last = v,
        }
        true
    }
    fn direct(&self) -> Attributes {
        let mut a = Attributes::new();
        a.set_speed(self.speed).unwrap(); a.set_max_colors(self.colors).unwrap();
        if let Some((m, t)) = self.q { a.set_quality(m, t).unwrap(); }
        a.set_min_posterization(self.post).unwrap(); a.set_last_index_transparent(self.last);
        a
    }
}
fn rust(a: &mut Attributes, o: Op) -> Result<(), Error> {
    op();
    match o { Colors(v) => a.set_max_colors(v), Quality(m, t) => a.set_quality(m, t), Speed(v) => a.set_speed(v), Post(v) => a.set_min_posterization(v), Last(v) => { a.set_last_index_transparent(v); Ok(()) } }
}
fn getters(a: &Attributes, m: &M) -> Result<(), String> {
    op();
    trace();
    let got = (a.max_colors(), a.quality(), a.speed(), a.min_posterization());
    let want = (m.colors, m.q.unwrap_or((0, 100)), m.speed as u32, m.post);
    if got != want { return Err(format!("getters return {got:?} instead of {want:?}")); }
    Ok(())
}
fn step(a: &mut Attributes, m: &mut M, o: Op) -> Result<(), String> {
    let want = m.apply(o);
    match rust(a, o) { Ok(()) if want => {}, Err(Error::ValueOutOfRange) if !want => {}, r => return Err(format!("{o:?} returned {r:?}")) }
    getters(a, m)
}
fn outcome_of(a: &Attributes, tall: bool) -> u64 {
    // a tall picture is dithered in parts, if threads may be used
    let (w, h) = if tall { (3, 140) } else { (12, 9) };
    set_cpus(4);
    let p: Vec<RGBA> = make(Content::NoiseA, w, h);
    let mut i = Image::new(a, p, w, h, 0.).unwrap();
    op();
    let mut o = Out::default();
    match a.quantize(&mut i) {
        Ok(mut r) => { o.qerr = r.quantization_error(); o.pal0 = r.clone().palette_vec(); if let Err(e) = remap(&mut r, &mut i, &mut o) { o.err = Some(("remap", format!("{e:?}"))); } },
        Err(e) => o.err = Some(("quantize", format!("{e:?}"))),
    }
    outcome(o.digest());
    o.digest()
}
pub fn seqs(n: usize, d: usize) -> Vec<Vec<usize>> {
    let mut out: Vec<Vec<usize>> = vec![];
    let mut cur: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..d { cur = cur.iter().flat_map(|s| (0..n).map(move |k| { let mut s = s.clone(); s.push(k); s })).collect(); out.extend(cur.iter().cloned()); }
    out
}

#[derive(Clone, Copy, Debug)]
enum R { Dither(f32), Gamma(f64), Read, Remap }
const RALPHA: &[R] = &[R::Dither(0.), R::Dither(1.), R::Dither(0.5), R::Dither(-0.01), R::Dither(1.001), R::Dither(f32::NAN), R::Dither(f32::INFINITY), R::Gamma(0.3), R::Gamma(0.999), R::Gamma(0.), R::Gamma(1.), R::Gamma(-1.), R::Gamma(f64::NAN), R::Read, R::Remap];

pub fn run(x: &Ctx) {
    // sequences against the model
    let s = seqs(ALPHA.len(), x.q(4, 5));
    x.explore("sequences", &s, |s| format!("{:?}", s.iter().map(|k| ALPHA[*k]).collect::<Vec<_>>()), |s| {
        let mut a = Attributes::new();
        let mut m = M::default();
        getters(&a, &m)?;
        for k in s { step(&mut a, &mut m, ALPHA[*k])?; }
        Ok(())
    });
    // what quantization does depends on the accepted values only
    let cache: Mutex<HashMap<(M, bool), u64>> = Mutex::new(HashMap::new());
    let s = seqs(ALPHA.len(), x.q(3, 4));
    let tall_depth = x.q(2, 3);
    x.explore("effects", &s, |s| format!("{:?}", s.iter().map(|k| ALPHA[*k]).collect::<Vec<_>>()), |s| {
        let mut a = Attributes::new();
        let mut m = M::default();
        for k in s { step(&mut a, &mut m, ALPHA[*k])?; }
        for tall in [false, true] {
            if tall && s.len() > tall_depth { continue; }
            let c = cache.lock().unwrap().get(&(m, tall)).copied();
            let want = match c { Some(w) => w, None => { let w = outcome_of(&m.direct(), tall); cache.lock().unwrap().insert((m, tall), w); w } };
            trace();
            if outcome_of(&a, tall) != want { return Err(format!("quantizes or remaps differently than a settings object set directly to {m:?}{}", if tall { " (3x140)" } else { "" })); }
        }
        Ok(())
    });
    // the same for a picture so large that the speed decides about the dithering map
    let s: Vec<Vec<i32>> = x.q(vec![vec![1, 4], vec![2, 6], vec![10, 2], vec![1, 9, 5]], (1..=10).flat_map(|a| (1..=10).map(move |b| vec![a, b])).collect());
    let huge: Mutex<HashMap<i32, u64>> = Mutex::new(HashMap::new());
    let (w, h) = (2001, 2000);
    let pixels: Vec<RGBA> = (0..w * h).map(|i| { let (a, b) = (i % w, i / w); RGBA::new((a / 251 * 30) as u8, ((b / 9) & 248) as u8, 80, 255) }).collect();
    let at = |a: &Attributes| -> u64 {
        let mut i = Image::new_borrowed(a, &pixels, w, h, 0.).unwrap();
        op();
        let mut o = Out::default();
        set_cpus(1);
        match a.quantize(&mut i) { Ok(mut r) => if let Err(e) = remap(&mut r, &mut i, &mut o) { o.err = Some(("remap", format!("{e:?}"))); }, Err(e) => o.err = Some(("quantize", format!("{e:?}"))) }
        outcome(o.digest());
        o.digest()
    };
    x.explore("effects-huge", &s, |s| format!("speeds {s:?} one after another, 2001x2000"), |s| {
        let mut a = Attributes::new();
        a.set_max_colors(8).unwrap();
        for v in s { a.set_speed(*v).unwrap(); }
        let l = *s.last().unwrap();
        let c = huge.lock().unwrap().get(&l).copied();
        let want = match c { Some(w) => w, None => { let mut b = Attributes::new(); b.set_max_colors(8).unwrap(); b.set_speed(l).unwrap(); let w = at(&b); huge.lock().unwrap().insert(l, w); w } };
        trace();
        if at(&a) != want { return Err(format!("quantizes or remaps differently than a settings object set directly to speed {l}")); }
        Ok(())
    });
    // copies are independent
    let s = seqs(ALPHA.len(), 2);
    x.explore("copies", &s, |s| format!("{:?}", s.iter().map(|k| ALPHA[*k]).collect::<Vec<_>>()), |s| {
        for first in ALPHA {
            let mut a = Attributes::new();
            let mut m = M::default();
            step(&mut a, &mut m, *first)?;
            let mut b = a.clone();
            let mut mb = m;
            getters(&b, &mb)?;
            for k in s { step(&mut b, &mut mb, ALPHA[*k])?; getters(&a, &m)?; }
            step(&mut a, &mut m, ALPHA[s[0]])?;
            getters(&b, &mb)?;
        }
        Ok(())
    });
    // every value
    let mut vals: Vec<i64> = (-300..=1100).collect();
    for b in [8, 15, 16, 24, 31] { for d in -3i64..=300 { vals.push((1i64 << b) + d); vals.push(-(1i64 << b) + d); } }
    vals.retain(|v| *v >= i32::MIN as i64 && *v <= i32::MAX as i64);
    x.explore("all-values", &vals, |v| v.to_string(), |&v| {
        let mut ops = vec![Speed(v as i32)];
        if v >= 0 { ops.push(Colors(v as u32)); }
        if (0..256).contains(&v) { ops.push(Post(v as u8)); }
        for o in ops { let mut a = Attributes::new(); let mut m = M::default(); step(&mut a, &mut m, o)?; }
        Ok(())
    });
    let rows: Vec<u8> = (0..=255).collect();
    x.explore("all-qualities", &rows, |v| format!("minimum {v}"), |&v| { for t in 0..=255u8 { let mut a = Attributes::new(); let mut m = M::default(); step(&mut a, &mut m, Quality(v, t))?; } Ok(()) });
    x.explore("u32-extremes", &[u32::MAX, u32::MAX - 255, 1 << 31, (1 << 16) + 256, 65536 + 2], |v| v.to_string(), |&v| { let mut a = Attributes::new(); let mut m = M::default(); step(&mut a, &mut m, Colors(v)) });
    // results
    let mk_at = |speed: i32| -> (Attributes, QuantizationResult, Vec<RGBA>) { let mut a = Attributes::new(); a.set_speed(speed).unwrap(); a.set_max_colors(6).unwrap(); let p = make(Content::AlphaExt, 9, 8); let mut i = Image::new(&a, p.clone(), 9, 8, 0.).unwrap(); let r = a.quantize(&mut i).unwrap(); (a, r, p) };
    let mk = || mk_at(7);
    let fin = |a: &Attributes, r: &mut QuantizationResult, p: &[RGBA]| -> Result<u64, String> { let mut i = Image::new(a, p.to_vec(), 9, 8, 0.).unwrap(); let mut o = Out::default(); remap(r, &mut i, &mut o).map_err(|e| format!("{e:?}"))?; Ok(o.digest()) };
    let s = seqs(RALPHA.len(), x.q(3, 4));
    let cache: Mutex<HashMap<(u32, u64), u64>> = Mutex::new(HashMap::new());
    x.explore("result-sequences", &s, |s| format!("{:?}", s.iter().map(|k| RALPHA[*k]).collect::<Vec<_>>()), |s| {
        let (a, mut r, p) = mk();
        let (mut d, mut g) = (1f32, 0.45455f64);
        for k in s {
            op();
            match RALPHA[*k] {
                R::Dither(v) => { let ok = v >= 0. && v <= 1.; let got = r.set_dithering_level(v); if ok != got.is_ok() || (!ok && !matches!(got, Err(Error::ValueOutOfRange))) { return Err(format!("set_dithering_level({v}) returned {got:?}")); } if ok { d = v; } },
                R::Gamma(v) => { let ok = v > 0. && v < 1.; let got = r.set_output_gamma(v); if ok != got.is_ok() || (!ok && !matches!(got, Err(Error::ValueOutOfRange))) { return Err(format!("set_output_gamma({v}) returned {got:?}")); } if ok { g = v; } },
                R::Read => { r.palette_vec(); },
                R::Remap => { fin(&a, &mut r, &p)?; },
            }
            if r.output_gamma() != g { return Err(format!("output_gamma() is {} instead of {g}", r.output_gamma())); }
        }
        let key = (d.to_bits(), g.to_bits());
        let c = cache.lock().unwrap().get(&key).copied();
        let want = match c { Some(w) => w, None => { let (a, mut r, p) = mk(); r.set_dithering_level(d).unwrap(); if g != 0.45455 { r.set_output_gamma(g).unwrap(); } let w = fin(&a, &mut r, &p)?; cache.lock().unwrap().insert(key, w); w } };
        trace();
        if fin(&a, &mut r, &p)? != want { return Err(format!("remaps differently than a result set directly to dithering {d}, gamma {g}")); }
        Ok(())
    });
    // rejected calls keep what was read before; accepted and rejected calls between two remaps leave nothing behind
    let bad: Vec<&R> = RALPHA.iter().chain(&[R::Dither(f32::NAN), R::Dither(f32::INFINITY), R::Gamma(f64::NAN), R::Gamma(f64::INFINITY)]).filter(|o| match o { R::Dither(v) => !(*v >= 0. && *v <= 1.), R::Gamma(v) => !(*v > 0. && *v < 1.), _ => false }).collect();
    let mut items = vec![];
    for speed in 1..=10 { for d in [0f32, 0.5, 1.] { for g in [0.45455f64, 0.7] { for &o in &bad { for two in [None, Some(0), Some(bad.len() - 1)] { items.push((speed, d, g, *o, two)); } } } } }
    x.explore("rejected-keep-state", &items, |o| format!("{o:?}"), |&(speed, d, g, o, two)| {
        let (a, mut r, p) = mk_at(speed);
        r.set_dithering_level(d).unwrap();
        r.set_output_gamma(g).unwrap();
        let fail = |r: &mut QuantizationResult, o: R| match o { R::Dither(v) => r.set_dithering_level(v).is_err(), R::Gamma(v) => r.set_output_gamma(v).is_err(), _ => true };
        for remapped in [false, true] {
            if remapped { fin(&a, &mut r, &p)?; }
            let look = |r: &mut QuantizationResult| (r.palette_vec(), r.remapping_error(), r.remapping_quality(), r.quantization_error(), r.quantization_quality(), r.output_gamma());
            let before = look(&mut r);
            for o in [Some(o), two.map(|k| *bad[k])].into_iter().flatten() { op(); if !fail(&mut r, o) { return Err(format!("{o:?} was accepted")); } }
            trace();
            let after = look(&mut r);
            if before != after { return Err(format!("rejected call changed what is read from the result {}: {before:?}, {after:?}", if remapped { "after a remap" } else { "before a remap" })); }
        }
        Ok(())
    });
    // floating point values around the limits
    let mut fl: Vec<u64> = vec![];
    for v in [0f64, 1., -0., 0.5, f64::MIN_POSITIVE, f64::MAX, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 0.45455, 100., 1e-300] { for d in -2i64..=2 { fl.push((v.to_bits() as i64).wrapping_add(d) as u64); } }
    x.explore("float-values", &fl, |v| format!("{:e}", f64::from_bits(*v)), |&b| {
        let v = f64::from_bits(b);
        let (_, mut r, _) = mk();
        op(); trace();
        if r.set_output_gamma(v).is_ok() != (v > 0. && v < 1.) { return Err(format!("set_output_gamma({v:e})")); }
        let f = v as f32;
        if r.set_dithering_level(f).is_ok() != (f >= 0. && f <= 1.) { return Err(format!("set_dithering_level({f:e})")); }
        Ok(())
    });
    #[cfg(not(no_c))]
    c(x, &vals);
}

#[cfg(not(no_c))]
fn c(x: &Ctx, vals: &[i64]) {
    use crate::capi::*;
    unsafe fn cset(a: P, o: Op) -> c_int {
        op();
        match o { Colors(v) => w_liq_set_max_colors(a, v as c_int), Quality(m, t) => w_liq_set_quality(a, m as c_int, t as c_int), Speed(v) => w_liq_set_speed(a, v), Post(v) => w_liq_set_min_posterization(a, v as c_int), Last(v) => { w_liq_set_last_index_transparent(a, v as c_int); OK } }
    }
    c_values(x, vals);
    let s = seqs(ALPHA.len(), x.q(3, 4));
    x.explore("c-sequences", &s, |s| format!("{:?}", s.iter().map(|k| ALPHA[*k]).collect::<Vec<_>>()), |s| unsafe {
        let a = w_liq_attr_create();
        let mut m = M::default();
        let r = (|| {
            for (i, k) in s.iter().enumerate() {
                let b = w_liq_attr_copy(a);
                let mb = m;
                let ok = m.apply(ALPHA[*k]);
                let got = cset(a, ALPHA[*k]);
                if got != if ok { OK } else { RANGE } { return Err(format!("{:?} returned {got}", ALPHA[*k])); }
                let r = get(a, &m).and_then(|_| get(b, &mb));
                if i == 0 { cset(b, Colors(99)); cset(b, Speed(9)); }
                let r = r.and_then(|_| get(a, &m));
                w_liq_attr_destroy(b);
                r?;
            }
            Ok(())
        })();
        w_liq_attr_destroy(a);
        r
    });
    // settings made through C, and copies of them, do what the same settings made through Rust do
    let s = seqs(ALPHA.len(), x.q(2, 3));
    let cache: Mutex<HashMap<(M, bool), u64>> = Mutex::new(HashMap::new());
    x.explore("c-effects", &s, |s| format!("{:?}", s.iter().map(|k| ALPHA[*k]).collect::<Vec<_>>()), |s| unsafe {
        // copied before call number `at`, twice; the copy goes on with the remaining calls
        for at in 0..=s.len() + 1 {
            let mut a = w_liq_attr_create();
            let mut m = M::default();
            let copy = |a: &mut P| { for _ in 0..2 { let b = w_liq_attr_copy(*a); w_liq_attr_destroy(*a); *a = b; } };
            for (i, k) in s.iter().enumerate() {
                if i == at { copy(&mut a); }
                m.apply(ALPHA[*k]);
                cset(a, ALPHA[*k]);
            }
            if at == s.len() { copy(&mut a); }
            let mut r = Ok(());
            for tall in [false, true] {
                if tall && s.len() > 1 { continue; }
                let c = cache.lock().unwrap().get(&(m, tall)).copied();
                let want = match c { Some(w) => w, None => { let w = outcome_of(&m.direct(), tall); cache.lock().unwrap().insert((m, tall), w); w } };
                trace();
                if c_outcome_of(a, tall)? != want { r = Err(format!("quantizes or remaps differently than Rust settings set directly to {m:?}{}{}", if at <= s.len() { format!(", copied before call {at}") } else { String::new() }, if tall { " (3x140)" } else { "" })); break; }
            }
            w_liq_attr_destroy(a);
            r?;
        }
        Ok(())
    });
}
/// what a C settings object does, in the form of `outcome_of`
#[cfg(not(no_c))]
unsafe fn c_outcome_of(a: crate::capi::P, tall: bool) -> Result<u64, String> {
    use crate::capi::*;
    let (w, h) = if tall { (3, 140) } else { (12, 9) };
    set_cpus(4);
    let p: Vec<RGBA> = make(Content::NoiseA, w, h);
    let (im, _keep) = run::image(a, &p, w, h, 0., run::CRep::Rgba);
    op();
    let mut o = Out::default();
    let mut r = NULL;
    let e = w_liq_image_quantize(im, a, (&mut r as *mut P).cast());
    if e == OK {
        let v = w_liq_get_quantization_error(r);
        o.qerr = (v >= 0.).then_some(v);
        o.pal0 = palette(r).unwrap_or_default();
        let mut b = vec![0u8; w * h];
        let e = w_liq_write_remapped_image(r, im, b.as_mut_ptr().cast(), b.len());
        if e == OK {
            o.idx = b;
            o.pal = palette(r).unwrap_or_default();
            let v = w_liq_get_remapping_error(r);
            o.rerr = (v >= 0.).then_some(v);
            let q = w_liq_get_remapping_quality(r);
            o.rq = (q >= 0).then_some(q as u8);
            o.gamma = w_liq_get_output_gamma(r);
        } else { o.err = Some(("remap", run::name(e))); }
        w_liq_result_destroy(r);
    } else { o.err = Some(("quantize", run::name(e))); }
    w_liq_image_destroy(im);
    outcome(o.digest());
    Ok(o.digest())
}
#[cfg(not(no_c))]
unsafe fn get(a: crate::capi::P, m: &M) -> Result<(), String> { use crate::capi::*;
    op(); trace();
    let q = m.q.unwrap_or((0, 100));
    let got = (w_liq_get_max_colors(a), w_liq_get_min_quality(a), w_liq_get_max_quality(a), w_liq_get_speed(a), w_liq_get_min_posterization(a), w_liq_get_min_opacity(a));
    let want = (m.colors as c_int, q.0 as c_int, q.1 as c_int, m.speed, m.post as c_int, 0);
    if got != want { return Err(format!("C getters return {got:?} instead of {want:?}")); }
    Ok(())
}
#[cfg(not(no_c))]
pub fn c_values(x: &Ctx, vals: &[i64]) {
    use crate::capi::*;
    x.explore("c-all-values", vals, |v| v.to_string(), |&v| unsafe {
        let a = w_liq_attr_create();
        let v = v as c_int;
        let r = (|| {
            let chk = |n: &str, got: c_int, ok: bool| if got == if ok { OK } else { RANGE } { Ok(()) } else { Err(format!("{n}({v}) returned {got}")) };
            let mut m = M::default();
            let ok = (2..=256).contains(&v); chk("liq_set_max_colors", w_liq_set_max_colors(a, v), ok)?; if ok { m.colors = v as u32; } get(a, &m)?;
            let ok = (1..=10).contains(&v); chk("liq_set_speed", w_liq_set_speed(a, v), ok)?; if ok { m.speed = v; } get(a, &m)?;
            let ok = (0..=4).contains(&v); chk("liq_set_min_posterization", w_liq_set_min_posterization(a, v), ok)?; if ok { m.post = v as u8; } get(a, &m)?;
            w_liq_set_min_opacity(a, v); get(a, &m)?;
            for o in [0, 50, 100, 101, -1, 256, 300] { for (mn, t) in [(v, o), (o, v)] {
                let ok = (0..=100).contains(&t) && mn >= 0 && mn <= t;
                let got = w_liq_set_quality(a, mn, t);
                if got != if ok { OK } else { RANGE } { return Err(format!("liq_set_quality({mn}, {t}) returned {got}")); }
                if ok { m.q = Some((mn as u8, t as u8)); }
                get(a, &m)?;
            } }
            Ok(())
        })();
        w_liq_attr_destroy(a);
        r
    });
}
