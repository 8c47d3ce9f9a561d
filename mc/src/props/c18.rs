//! Ownership of memory passed through the C interface: every object history against an ownership model.
//! The registered free function only records and poisons, so wrong releases are visible and harmless.
use crate::core::*;
#[cfg(no_c)]
pub fn run(_: &Ctx) {}
#[cfg(not(no_c))]
pub use c::run;

#[cfg(not(no_c))]
mod c {
    use super::*;
    use crate::capi::{self, *};
    use crate::pix::{make, px, Content};
    use imagequant::RGBA;
    use std::cell::RefCell;

    enum Mem { Px(Box<[RGBA]>), Rows(Box<[*const RGBA]>), Map(Box<[u8]>) }
    impl Mem { fn ptr(&self) -> usize { match self { Mem::Px(b) => b.as_ptr() as usize, Mem::Rows(b) => b.as_ptr() as usize, Mem::Map(b) => b.as_ptr() as usize } } }
    struct Buf { name: String, mem: Mem, owned: bool, freed: u32 }
    #[derive(Default)]
    struct Reg { bufs: Vec<Buf>, wrong: Vec<String> }
    thread_local! { static REG: RefCell<Reg> = RefCell::default(); }
    static POISON: [RGBA; 64] = [RGBA { r: 255, g: 0, b: 255, a: 13 }; 64];

    unsafe extern "C" fn record_free(p: P) {
        REG.with(|r| {
            let mut r = r.borrow_mut();
            let r = &mut *r;
            match r.bufs.iter_mut().find(|b| b.mem.ptr() == p as usize) {
                None => r.wrong.push(format!("the free function was called with {} that was never passed to the library", if p.is_null() { "NULL" } else { "an address" })),
                Some(b) => {
                    b.freed += 1;
                    if !b.owned { r.wrong.push(format!("{} released although not owned by the library", b.name)); }
                    if b.freed > 1 { r.wrong.push(format!("{} released {} times", b.name, b.freed)); }
                    match &mut b.mem { Mem::Px(m) => m.fill(POISON[0]), Mem::Rows(m) => m.fill(POISON.as_ptr()), Mem::Map(m) => m.fill(1) }
                },
            }
        });
    }
    fn add(name: String, mem: Mem, owned: bool) -> (usize, usize) { REG.with(|r| { let mut r = r.borrow_mut(); r.bufs.push(Buf { name, owned, freed: 0, mem }); (r.bufs.len() - 1, r.bufs.last().unwrap().mem.ptr()) }) }
    fn own(id: usize, v: bool) { REG.with(|r| r.borrow_mut().bufs[id].owned = v) }

    #[derive(Clone, Copy, PartialEq, Debug)]
    enum Kind { Rgba, Rows, Reversed, Custom }
    unsafe extern "C" fn row_cb(o: *mut RGBA, row: c_int, w: c_int, u: P) { let p = u as *const RGBA; for i in 0..w as usize { *o.add(i) = *p.add(row as usize * w as usize + i); } }

    /// an image with its registered memory: (handle, rows buffer, pixels buffer)
    unsafe fn image(a: P, k: Kind, ct: Content, w: usize, h: usize, tag: &str) -> (P, Option<usize>, Option<usize>) {
        op();
        let p: Box<[RGBA]> = make(ct, w, h).into();
        let (pid, pp) = add(format!("pixels of {tag}"), Mem::Px(p), false);
        let pp = pp as *const RGBA;
        match k {
            Kind::Rgba => (w_liq_image_create_rgba(a, pp.cast(), w as c_int, h as c_int, 0.), None, Some(pid)),
            Kind::Custom => (w_liq_image_create_custom(a, row_cb as P, pp as P, w as c_int, h as c_int, 0.), None, None),
            Kind::Rows | Kind::Reversed => {
                let rows: Box<[*const RGBA]> = (0..h).map(|y| pp.add(if k == Kind::Rows { y } else { h - 1 - y } * w)).collect();
                let (rid, rp) = add(format!("row pointers of {tag}"), Mem::Rows(rows), false);
                (w_liq_image_create_rgba_rows(a, rp as P, w as c_int, h as c_int, 0.), Some(rid), Some(pid))
            },
        }
    }

    const OPS: &[&str] = &["own rows", "own pixels", "own both", "own flags 0", "own flags copy|pixels", "importance copy", "importance own", "importance own, short", "importance with rows flag",
        "background owning its pixels", "background of wrong size owning everything", "background from callback", "background NULL", "wrong kind of background", "background that has a background",
        "quantize", "remap", "destroy attr, continue with copy", "histogram add image", "importance own, larger", "replace image"];

    struct W { a: P, i: P, ids: (Option<usize>, Option<usize>), r: P, h: P, kind: Kind, w: usize, h_: usize, n: usize, touched: bool }

    /// runs a history; `give` false: the same calls without ever passing ownership. Returns what was observable.
    unsafe fn history(kind: Kind, copy: bool, w: usize, h: usize, ops: &[usize], give: bool) -> Result<Vec<u8>, String> {
        REG.with(|r| *r.borrow_mut() = Reg::default());
        let mut seen: Vec<u8> = vec![];
        let mut a = w_liq_attr_create_with_allocator(NULL, record_free as P);
        w_liq_set_speed(a, 10); w_liq_set_max_colors(a, 4);
        if copy { let c = w_liq_attr_copy(a); w_liq_attr_destroy(a); a = c; }
        let (i, ro, pi) = image(a, kind, Content::Sparse, w, h, "image 0");
        if i.is_null() { return Err("image not created".into()); }
        let mut s = W { a, i, ids: (ro, pi), r: NULL, h: w_liq_histogram_create(a), kind, w, h_: h, n: 1, touched: false };
        let code = |seen: &mut Vec<u8>, e: c_int| seen.push(e as u8);
        for &o in ops {
            op();
            let px_n = s.w * s.h_;
            match o {
                0..=4 => if give || o > 2 {
                    let flags = [OWN_ROWS, OWN_PIXELS, OWN_ROWS | OWN_PIXELS, 0, COPY_PIXELS | OWN_PIXELS][o];
                    let prev: Vec<bool> = [s.ids.0, s.ids.1].iter().map(|i| i.map_or(false, |i| REG.with(|r| r.borrow().bufs[i].owned))).collect();
                    // released inside of the call is allowed, so it counts as passed already
                    if o <= 2 { if let Some(id) = s.ids.0 { if flags & OWN_ROWS != 0 { own(id, true); } } if let Some(id) = s.ids.1 { if flags & OWN_PIXELS != 0 { own(id, true); } } }
                    let e = w_liq_image_set_memory_ownership(s.i, flags);
                    if e != OK { if let Some(id) = s.ids.0 { own(id, prev[0]); } if let Some(id) = s.ids.1 { own(id, prev[1]); } }
                    if o > 2 && e != RANGE { return Err(format!("{} returned {e}", OPS[o])); }
                    if o <= 2 && s.kind == Kind::Custom && e == OK { return Err(format!("{} succeeded on a callback image", OPS[o])); }
                    // before anything was read from the image there is no reason to refuse
                    if o <= 2 && s.kind != Kind::Custom && e != OK && !s.touched && !(s.kind == Kind::Rgba && o != 1) { return Err(format!("{} returned {e}", OPS[o])); }
                },
                5..=8 | 19 => {
                    let map: Box<[u8]> = (0..px_n + if o == 19 { 3 } else { 0 }).map(|k| (k * 40 % 256) as u8).collect();
                    let (id, p) = add(format!("importance map {}", s.n), Mem::Map(map), false);
                    s.n += 1;
                    let (len, fl) = match o { 5 => (px_n, COPY_PIXELS), 6 => (px_n, if give { OWN_PIXELS } else { COPY_PIXELS }), 7 => (px_n - 1, OWN_PIXELS), 19 => (px_n + 3, if give { OWN_PIXELS } else { COPY_PIXELS }), _ => (px_n, OWN_ROWS) };
                    if (o == 6 || o == 19) && give { own(id, true); }
                    let e = w_liq_image_set_importance_map(s.i, p as P, len, fl);
                    if e != OK { own(id, false); }
                    let bad = match o { 5 | 6 | 19 => e != OK, 7 => e == OK, _ => e != UNSUP };
                    if bad { return Err(format!("{} returned {e}", OPS[o])); }
                    // a copied map may be reused by the caller at once
                    if o == 5 { REG.with(|r| if let Mem::Map(m) = &mut r.borrow_mut().bufs[id].mem { m.fill(0) }); }
                },
                9..=11 | 14 => {
                    let tag = format!("background {}", s.n);
                    s.n += 1;
                    let (k, bw) = match o { 9 => (Kind::Rgba, s.w), 10 => (Kind::Reversed, s.w + 1), 11 => (Kind::Custom, s.w), _ => (Kind::Rows, s.w) };
                    let (b, ro, pi) = image(s.a, k, Content::Rgb, bw, s.h_, &tag);
                    if give && (o == 9 || o == 10 || o == 14) {
                        if let Some(id) = ro { own(id, true); } if let Some(id) = pi { own(id, true); }
                        let e = w_liq_image_set_memory_ownership(b, if o == 9 { OWN_PIXELS } else { OWN_PIXELS | OWN_ROWS });
                        if e != OK { return Err(format!("ownership of the background refused with {e}")); }
                    }
                    if o == 14 { let (bb, _, pi) = image(s.a, Kind::Rgba, Content::Gray, bw, s.h_, &format!("background of {tag}")); if give { own(pi.unwrap(), true); w_liq_image_set_memory_ownership(bb, OWN_PIXELS); } let e = w_liq_image_set_background(b, bb); if e != OK { return Err(format!("background of the background refused with {e}")); } }
                    let e = w_liq_image_set_background(s.i, b);
                    code(&mut seen, e);
                    if (e == OK) != (o == 9 || o == 11) { return Err(format!("{} returned {e}", OPS[o])); }
                },
                12 | 13 => { let e = w_liq_image_set_background(s.i, if o == 12 { NULL } else { s.a }); if e != INVALID { return Err(format!("{} returned {e}", OPS[o])); } },
                15 => {
                    let mut r = NULL;
                    let e = w_liq_image_quantize(s.i, s.a, (&mut r as *mut P).cast());
                    s.touched = true;
                    code(&mut seen, e);
                    if e == OK { w_liq_result_destroy(s.r); s.r = r; for p in capi::palette(r).unwrap_or_default() { seen.extend([p.r, p.g, p.b, p.a]); } } else if !r.is_null() { return Err("failed quantization left a result".into()); }
                },
                16 => if !s.r.is_null() {
                    let mut b = vec![0u8; px_n];
                    let e = w_liq_write_remapped_image(s.r, s.i, b.as_mut_ptr().cast(), px_n);
                    s.touched = true;
                    code(&mut seen, e);
                    if e == OK { seen.extend(b); for p in capi::palette(s.r).unwrap_or_default() { seen.extend([p.r, p.g, p.b, p.a]); } }
                },
                17 => { let c = w_liq_attr_copy(s.a); w_liq_attr_destroy(s.a); s.a = c; },
                18 => {
                    let e = w_liq_histogram_add_image(s.h, s.a, s.i);
                    s.touched = true;
                    code(&mut seen, e);
                    let mut r = NULL;
                    let e = w_liq_histogram_quantize(s.h, s.a, (&mut r as *mut P).cast());
                    code(&mut seen, e);
                    if e == OK { w_liq_result_destroy(s.r); s.r = r; for p in capi::palette(r).unwrap_or_default() { seen.extend([p.r, p.g, p.b, p.a]); } }
                },
                _ => {
                    w_liq_image_destroy(s.i);
                    finished(&format!("image {} destroyed", s.n))?;
                    let (i, ro, pi) = image(s.a, s.kind, Content::Photo, s.w, s.h_, &format!("image {}", s.n));
                    s.n += 1;
                    s.i = i; s.ids = (ro, pi); s.touched = false;
                },
            }
            REG.with(|r| r.borrow().wrong.first().map_or(Ok(()), |w| Err(format!("{w} during {}", OPS[o]))))?;
        }
        w_liq_image_destroy(s.i);
        finished("the image destroyed")?;
        w_liq_result_destroy(s.r); w_liq_histogram_destroy(s.h); w_liq_attr_destroy(s.a);
        for _ in 0..4 { op(); }
        finished("all objects destroyed")?;
        REG.with(|r| *r.borrow_mut() = Reg::default());
        Ok(seen)
    }
    fn finished(when: &str) -> Result<(), String> {
        REG.with(|r| {
            let r = r.borrow();
            if let Some(w) = r.wrong.first() { return Err(w.clone()); }
            trace();
            for b in &r.bufs { if b.freed != b.owned as u32 { return Err(format!("{}: ownership passed {}, released {} times after {when}", b.name, b.owned, b.freed)); } }
            Ok(())
        })
    }

    fn check(kind: Kind, copy: bool, w: usize, h: usize, ops: &[usize]) -> Result<(), String> {
        unsafe {
            let a = history(kind, copy, w, h, ops, true)?;
            let before = live();
            let b = history(kind, copy, w, h, ops, false)?;
            drop(b.clone());
            if a != b { return Err(format!("results differ from those of the same history without passing ownership ({} and {} bytes observed, first difference at {:?})", a.len(), b.len(), a.iter().zip(&b).position(|(x, y)| x != y))); }
            drop(b);
            outcome(hash_bytes(&a));
            if cfg!(feature = "shim") {
                // the first two runs warmed up any caches; a leak grows every time
                let m0 = live();
                let c = history(kind, copy, w, h, ops, true)?;
                drop(c);
                let m1 = live();
                if m1 != m0 {
                    let c = history(kind, copy, w, h, ops, true)?;
                    drop(c);
                    let m2 = live();
                    if m1 > m0 && m2 - m1 == m1 - m0 { return Err(format!("{} bytes left behind by every run of the history after all objects are destroyed", m1 - m0)); }
                }
                let _ = before;
            }
        }
        Ok(())
    }

    pub fn run(x: &Ctx) {
        let n = OPS.len();
        let depth = x.q(4u32, 5);
        for kind in [Kind::Rgba, Kind::Rows, Kind::Reversed, Kind::Custom] {
            for copy in [false, true] {
                let d = if copy { depth - 1 } else { depth };
                let (w, h) = if copy { (5, 4) } else { (2, 3) };
                let items: Vec<usize> = (0..n.pow(d)).collect();
                let dec = |&code: &usize| { let mut c = code; let mut v = vec![]; for _ in 0..d { v.push(c % n); c /= n; } v };
                x.explore(&format!("{kind:?}{}", if copy { "-copy" } else { "" }), &items, |i| format!("{kind:?} image {w}x{h}{}: {}", if copy { " made with a copied attr" } else { "" }, dec(i).iter().map(|o| OPS[*o]).collect::<Vec<_>>().join(", ")), |i| check(kind, copy, w, h, &dec(i)));
            }
        }
        // whole pipelines with owned memory, histograms and results outliving each other in every order of destruction
        let mut items = vec![];
        for kind in [Kind::Rgba, Kind::Rows, Kind::Reversed, Kind::Custom] { for perm in 0..24usize { for dith in [0f32, 1.] { for speed in [1, 4, 8] { for (w, h) in [(1usize, 1usize), (6, 5), (3, 130)] { items.push((kind, perm, dith, speed, w, h)); } } } } }
        x.explore("destruction", &items, |i| format!("{i:?}"), |&(kind, perm, dith, speed, w, h)| unsafe {
            let go = || -> Result<(), String> {
                REG.with(|r| *r.borrow_mut() = Reg::default());
                let a = w_liq_attr_create_with_allocator(NULL, record_free as P);
                w_liq_set_speed(a, speed); w_liq_set_max_colors(a, 7);
                let (i, ro, pi) = image(a, kind, Content::NoiseA, w, h, "image");
                if kind != Kind::Custom {
                    if let Some(id) = ro { own(id, true); }
                    own(pi.unwrap(), true);
                    w_liq_image_set_memory_ownership(i, if kind == Kind::Rgba { OWN_PIXELS } else { OWN_ROWS | OWN_PIXELS });
                }
                w_liq_image_add_fixed_color(i, px(0, 0, 0, 0));
                let (b, _, bp) = image(a, Kind::Rgba, Content::Rgb, w, h, "background");
                own(bp.unwrap(), true);
                w_liq_image_set_memory_ownership(b, OWN_PIXELS);
                w_liq_image_set_background(i, b);
                let hist = w_liq_histogram_create(a);
                if w_liq_histogram_add_image(hist, a, i) != OK { return Err("add_image failed".into()); }
                let mut r = NULL;
                if w_liq_image_quantize(i, a, (&mut r as *mut P).cast()) != OK { return Err("quantize failed".into()); }
                w_liq_set_dithering_level(r, dith);
                let mut out = vec![0u8; w * h];
                if w_liq_write_remapped_image(r, i, out.as_mut_ptr().cast(), w * h) != OK { return Err("remap failed".into()); }
                for _ in 0..10 { op(); }
                let mut left = vec![0, 1, 2, 3];
                let mut p = perm;
                for k in (1..=4).rev() { match left.remove(p % k) { 0 => w_liq_attr_destroy(a), 1 => w_liq_image_destroy(i), 2 => w_liq_histogram_destroy(hist), _ => w_liq_result_destroy(r) } p /= k; }
                finished("all objects destroyed")?;
                REG.with(|r| *r.borrow_mut() = Reg::default());
                Ok(())
            };
            go()?;
            if cfg!(feature = "shim") {
                let m0 = live(); go()?; let m1 = live();
                if m1 > m0 { go()?; let m2 = live(); if m2 - m1 == m1 - m0 { return Err(format!("{} bytes left behind by every run", m1 - m0)); } }
            }
            Ok(())
        });
    }
}
