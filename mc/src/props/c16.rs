//! All schedules of the library's parallel sections, up to a preemption bound.
use crate::core::*;
use crate::pipe::*;
use crate::pix::Content;
use imagequant::{ControlFlow, Image};
use std::sync::Arc;

#[allow(unused_imports)]
pub use imp::run;

/// One pipeline whose pixels come from a callback and whose progress is observed: both are scheduling points.
pub fn pipeline(c: &Cfg, cb: bool, pt: fn(&'static str)) -> Out {
    set_cpus(c.cpus);
    let p = c.pixels();
    let mut a = c.attr();
    a.set_progress_callback(move |_| { pt("progress"); ControlFlow::Continue });
    let q = Arc::new(p.clone());
    let w = c.w;
    let mut o = Out::default();
    let img = if cb { unsafe { Image::new_fn(&a, move |row, y| { pt("row"); for (i, o) in row.iter_mut().enumerate() { o.write(q[y * w + i]); } }, c.w, c.h, c.gin) } } else { Image::new(&a, p.clone(), c.w, c.h, c.gin) };
    let mut img = match img { Ok(i) => i, Err(e) => { o.err = Some(("image", format!("{e:?}"))); return o; } };
    if let Err(e) = c.decorate(&a, &mut img, &p) { o.err = Some(("image", format!("{e:?}"))); return o; }
    let mut r = match c.quantize(&a, &mut img, &p) { Ok(r) => r, Err(e) => { o.err = Some(("quantize", format!("{e:?}"))); return o; } };
    set_cpus(c.cpus);
    o.qerr = r.quantization_error(); o.qq = r.quantization_quality();
    c.configure(&mut r).unwrap();
    o.pal0 = r.clone().palette_vec();
    r.set_progress_callback(move |_| { pt("progress"); ControlFlow::Continue });
    if let Err(e) = remap(&mut r, &mut img, &mut o) { o.err = Some(("remap", format!("{e:?}"))); }
    o
}

/// equal apart from the order in which floating-point sums were made
pub fn same(a: &Out, b: &Out) -> Option<String> {
    if a.err != b.err { return Some(format!("outcome {:?} vs {:?}", a.err, b.err)); }
    for (n, x, y) in [("palette before remapping", &a.pal0, &b.pal0), ("palette", &a.pal, &b.pal)] {
        if x.len() != y.len() || x.iter().zip(y).any(|(p, q)| [(p.r, q.r), (p.g, q.g), (p.b, q.b), (p.a, q.a)].iter().any(|(u, v)| u.abs_diff(*v) > 1)) { return Some(format!("{n} {} vs {}", crate::pix::show_pal(x), crate::pix::show_pal(y))); }
    }
    if a.idx.len() != b.idx.len() { return Some("index count".into()); }
    let d = a.idx.iter().zip(&b.idx).filter(|(x, y)| x != y).count();
    if d * 50 > a.idx.len() || (d > 0 && a.pal == b.pal && a.pal0 == b.pal0) { return Some(format!("{d} of {} indices differ, first at {:?}", a.idx.len(), a.idx.iter().zip(&b.idx).position(|(x, y)| x != y))); }
    if !near(a.qerr, b.qerr) { return Some(format!("quantization error {:?} vs {:?}", a.qerr, b.qerr)); }
    if !near(a.rerr, b.rerr) { return Some(format!("remapping error {:?} vs {:?}", a.rerr, b.rerr)); }
    None
}

/// inputs that reach every parallel section with few work items
pub fn scenarios() -> Vec<(&'static str, Cfg, bool)> {
    let mut v = vec![];
    let b = |ct, w, h, speed, colors, dither: f32| { let mut c = base(); c.content = ct; c.w = w; c.h = h; c.speed = speed; c.colors = colors; c.dither = dither; c };
    v.push(("plain remap", b(Content::Photo, 3, 3, 10, 4, 0.), false));
    v.push(("plain remap from row callback", b(Content::Rgb, 2, 3, 10, 3, 0.), true));
    { let mut c = b(Content::Sparse, 4, 4, 10, 4, 0.); c.bg = Bg::Shift; v.push(("plain remap over background", c, false)); }
    { let mut c = b(Content::Noise, 3, 5, 9, 3, 0.); c.imp = Imp::Grad; v.push(("plain remap with importance", c, false)); }
    v.push(("k-means", b(Content::Noise, 33, 24, 7, 5, 0.), false));
    v.push(("k-means twice", { let mut c = b(Content::NoiseA, 30, 18, 8, 7, 0.); c.quality = Some((1, 100)); c }, false));
    v.push(("dither map", b(Content::Photo, 4, 5, 6, 3, 1.), false));
    v.push(("dithering in two chunks", { let mut c = b(Content::Rgb, 2, 130, 8, 4, 1.); c.cpus = 2; c }, false));
    v.push(("dithering in two chunks from row callback", { let mut c = b(Content::Rgb, 2, 131, 9, 4, 1.); c.cpus = 2; c }, true));
    v.push(("dithering in chunks over background", { let mut c = b(Content::Sparse, 3, 133, 10, 4, 0.7); c.cpus = 4; c.bg = Bg::Shift; c }, false));
    v.push(("streamed plain remap from row callback", b(Content::Few(9), 1_400_000, 3, 10, 3, 0.), true));
    v.push(("streamed chunks from row callback", { let mut c = b(Content::Few(9), 32_300, 130, 10, 4, 1.); c.cpus = 2; c }, true));
    { let mut c = b(Content::Few(9), 1_400_000, 3, 10, 3, 0.); c.bg = Bg::Shift; c.fixed = Fixed::Transp; v.push(("streamed plain remap over background", c, true)); }
    v
}

/// pixels exactly half way between palette colours: which of the two is used must not depend on the rows done before by the same thread
pub fn tied(v: &[u8], h: usize) -> Out {
    let g = 0.57; // linear in the internal colour space
    let mut a = imagequant::Attributes::new();
    a.set_speed(10).unwrap();
    let gray = |v: u8| crate::pix::px(v, v, v, 255);
    // every second palette colour, pixels also in between
    let pal: Vec<_> = v.iter().map(|v| gray(*v)).collect();
    let mut o = Out::default();
    let mut r = match super::c06::exact_palette(&a, &pal, g) { Ok(r) => r, Err(e) => { o.err = Some(("quantize", format!("{e:?}"))); return o; } };
    r.set_dithering_level(0.).unwrap();
    let w = 3;
    let p: Vec<_> = (0..w * h).map(|i| { let y = i / w; let k = y % (v.len() - 1); let mid = ((v[k] as u16 + v[k + 1] as u16) / 2) as u8; gray(match i % w { 0 => mid, 1 => v[(y * 3 + 1) % v.len()], _ => v[(k + 1 + y % 2) % v.len()] }) }).collect();
    let mut img = Image::new(&a, p, w, h, g).unwrap();
    if let Err(e) = remap(&mut r, &mut img, &mut o) { o.err = Some(("remap", format!("{e:?}"))); }
    o
}
pub fn tied_palettes() -> Vec<Vec<u8>> { let mut v = vec![]; for s in [2u8, 4, 8, 16, 32, 64] { for o in [0u8, 1, 3, 20] { v.push((0..6u8).filter_map(|k| { let x = o as u32 + s as u32 * k as u32; (x < 256).then_some(x as u8) }).collect::<Vec<_>>()); } } v.retain(|v| v.len() > 1); v }

#[cfg(not(feature = "shim"))]
mod imp {
    use super::*;
    /// Conformance of the scheduler stand-in: the real thread pool gives what the explored schedules give.
    pub fn run(x: &Ctx) {
        let mut items = vec![];
        for (n, c, cb) in scenarios() { for rep in 0..x.q(20, 200) { items.push((n, c.clone(), cb, rep)); } }
        // what the explored schedules gave
        if let Ok(f) = std::env::var("MC_REF") { let t = std::fs::read_to_string(f).unwrap(); let mut r = REF.lock().unwrap(); for l in t.lines() { let (k, v) = l.split_once('\t').unwrap(); r.insert(k.into(), load(v)); } x.count("reference_outcomes_from_explored_schedules", r.len() as u64); }
        for c in big() { for rep in 0..x.q(2, 8) { items.push(("config", c.clone(), false, rep)); } }
        x.explore("real-pool", &items, |i| format!("{}: {} (real thread pool)", i.0, i.1), |(n, c, cb, _)| {
            let o = pipeline(c, *cb, |_| {});
            trace();
            let f = format!("{n}|{c}");
            let want = REF.lock().unwrap().entry(f).or_insert_with(|| o.clone()).clone();
            if let Some(m) = same(&o, &want) { return Err(format!("differs from sequential execution (or another run): {m}")); }
            Ok(())
        });
    }
    static REF: std::sync::Mutex<std::collections::BTreeMap<String, Out>> = std::sync::Mutex::new(std::collections::BTreeMap::new());
}

pub fn store(o: &Out) -> String {
    let h = |v: &[imagequant::RGBA]| v.iter().map(crate::pix::show_px).collect::<String>();
    let f = |v: Option<f64>| v.map_or("-".into(), |v| format!("{:x}", v.to_bits()));
    format!("{};{};{};{};{};{}", o.err.as_ref().map_or(String::new(), |e| format!("{}:{}", e.0, e.1)), h(&o.pal0), h(&o.pal), o.idx.iter().map(|i| format!("{i:02x}")).collect::<String>(), f(o.qerr), f(o.rerr))
}
#[allow(dead_code)]
pub fn load(s: &str) -> Out {
    let v: Vec<&str> = s.split(';').collect();
    let b = |s: &str| (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect::<Vec<u8>>();
    let p = |s: &str| b(s).chunks(4).map(|c| crate::pix::px(c[0], c[1], c[2], c[3])).collect::<Vec<_>>();
    let f = |s: &str| if s == "-" { None } else { Some(f64::from_bits(u64::from_str_radix(s, 16).unwrap())) };
    Out { err: v[0].split_once(':').map(|(_, e)| ("quantize", e.to_string())), pal0: p(v[1]), pal: p(v[2]), idx: b(v[3]), qerr: f(v[4]), rerr: f(v[5]), ..Out::default() }
}

pub fn big() -> Vec<Cfg> {
    let mut v = vec![];
    for ct in [Content::Photo, Content::Noise, Content::NoiseA, Content::AlphaGrad, Content::Sparse] { for (w, h) in [(40, 40), (7, 260), (100, 30)] { for speed in [1, 3, 6, 8] { for d in [0f32, 1.] { for colors in [5, 64] {
        let mut c = base(); c.content = ct; c.w = w; c.h = h; c.speed = speed; c.dither = d; c.colors = colors; c.cpus = 2;
        v.push(c.clone());
        // duplicate palette entries: which of them is used must not depend on what the thread did before
        if d == 0. && w != 7 { for post in [3, 4] { c.post = post; v.push(c.clone()); } c.post = 0; }
        if speed == 6 && colors == 5 { c.bg = Bg::Shift; c.fixed = Fixed::Transp; v.push(c); }
    } } } } }
    v
}

/// settings that differ in everything, for pipelines run at the same time
#[allow(dead_code)]
pub fn trio() -> Vec<Cfg> {
    let mut cs = vec![];
    for (k, (ct, g, speed)) in [(Content::Photo, 0.3, 8), (Content::AlphaGrad, 0.9, 7), (Content::Rgb, 0.45455, 6)].into_iter().enumerate() { let mut c = base(); c.content = ct; c.gin = g; c.speed = speed; c.w = 3 + k; c.h = 4; c.colors = 3 + k as u32; c.dither = 1. - k as f32 * 0.5; c.cpus = 1; c.last = k == 1; c.post = k as u8; cs.push(c); }
    cs
}

#[cfg(feature = "shim")]
mod imp {
    use super::*;
    use rayon::mc;
    const POINTS: usize = 4000;

    struct Dfs<'a> { bound: usize, f: &'a (dyn Fn(&[usize]) -> Result<mc::Run, String> + Sync), limit: u64, n: u64, trunc: bool }
    fn preemptions(t: &[mc::Point]) -> usize { t.iter().filter(|p| p.running_enabled && p.chosen != 0).count() }
    /// prefixes that deviate from the run of `prefix` at one later point
    fn children(prefix: &[usize], t: &[mc::Point], bound: usize) -> Vec<Vec<usize>> {
        let mut out = vec![];
        let mut used = preemptions(&t[..prefix.len().min(t.len())]);
        for i in prefix.len()..t.len() {
            let p = &t[i];
            if !p.running_enabled || used < bound {
                for alt in 1..p.enabled { let mut n: Vec<usize> = t[..i].iter().map(|p| p.chosen).collect(); n.push(alt); out.push(n); }
            }
            if p.running_enabled && p.chosen != 0 { used += 1; }
        }
        out
    }
    impl Dfs<'_> {
        fn go(&mut self, prefix: Vec<usize>) -> Result<(), String> {
            let mut stack = vec![prefix];
            while let Some(p) = stack.pop() {
                if self.n >= self.limit { self.trunc = true; return Ok(()); }
                self.n += 1;
                let run = (self.f)(&p).map_err(|m| format!("schedule {p:?}: {m}"))?;
                if run.diverged { return Err(format!("schedule {p:?}: the set of runnable threads differs between runs of the same schedule")); }
                stack.extend(children(&p, &run.trace, self.bound));
            }
            Ok(())
        }
    }

    /// Race detection: freely running workers under Miri, which checks every memory access of the run.
    fn races(x: &Ctx) {
        let mut v = vec![];
        for (n, mut c, cb) in scenarios().into_iter().filter(|s| !s.0.contains("streamed")) {
            if c.h > 128 { c.w = 1; } else { c.w = c.w.min(4); c.h = c.h.min(4); }
            if n.starts_with("k-means") { continue; }
            v.push((n, c, cb));
        }
        { let mut c = base(); c.content = Content::Noise; c.w = 20; c.h = 27; c.speed = 8; c.colors = 2; c.quality = Some((1, 100)); c.dither = 0.; v.push(("k-means", c, false)); }
        x.explore("races", &v, |i| format!("{}: {} under Miri", i.0, i.1), |(_, c, cb)| {
            let o = mc::free(2, || pipeline(c, *cb, |_| {}));
            trace();
            if let Some(m) = same(&o, &pipeline(c, *cb, |_| {})) { return Err(m); }
            Ok(())
        });
    }
    /// Scheduling points at every memory access and basic block of the library.
    #[cfg(feature = "fine")]
    fn fine(x: &Ctx) {
        use crate::fine::*;
        use std::sync::atomic::{AtomicU64, Ordering::*};
        mc::STUCK_MS.store(120, SeqCst);
        // one quantization is suspended at an access while another one runs from start to end
        let cs = trio();
        let want: Vec<Out> = cs.iter().map(|c| pipeline(c, true, |_| {})).collect();
        let waits = AtomicU64::new(0);
        let mut pairs = vec![(0usize, 1usize, 2usize), (1, 0, 0), (0, 0, 1), (2, 1, 1)];
        if x.thorough() { pairs.extend([(0, 2, 1), (1, 1, 0), (1, 2, 1), (2, 0, 2), (2, 2, 0)]); }
        for (pi, (a, b, prime)) in pairs.into_iter().enumerate() {
            pipeline(&cs[prime], true, |_| {});
            let (o, ev) = recorded(|| pipeline(&cs[a], true, |_| {}));
            if let Some(m) = o.differs(&want[a], true) { x.fail_at(format!("interrupt{pi}/0"), format!("{} after {}: {m}", cs[a], cs[prime])); continue; }
            // thorough: at every single access
            let t = targets(&ev, x.q(300, usize::MAX), x.q(3, u32::MAX));
            x.count("accesses_recorded", ev.len() as u64);
            x.count("accesses_of_static_memory", static_accesses(&ev) as u64);
            if std::env::var("MC_V").is_ok() { println!("pair {a} {b}: {} accesses, {} static, {} suspension points, {:.1} s", ev.len(), static_accesses(&ev), t.len(), x.start.elapsed().as_secs_f32()); }
            x.explore(&format!("interrupt{pi}"), &t, |k| format!("{} suspended at its access {k} while {} runs (after {})", cs[a], cs[b], cs[prime]), |&k| {
                if waits.load(SeqCst) > 40 { return Ok(()); } // the threads exclude each other by locks: little left to see
                pipeline(&cs[prime], true, |_| {});
                let cb = cs[b].clone();
                let (oa, ob, done) = interrupted(k, || pipeline(&cs[a], true, |_| {}), move || pipeline(&cb, true, |_| {}));
                if done == Some(false) { waits.fetch_add(1, SeqCst); }
                trace(); outcome(oa.digest());
                if let Some(m) = oa.differs(&want[a], true) { return Err(format!("the suspended one is affected: {m}")); }
                if let Some(ob) = ob { trace(); if let Some(m) = ob.differs(&want[b], true) { return Err(format!("the one that ran meanwhile is affected: {m}")); } }
                let later = pipeline(&cs[b], true, |_| {});
                trace();
                if let Some(m) = later.differs(&want[b], true) { return Err(format!("a later one is affected: {m}")); }
                Ok(())
            });
        }
        // the same with both using one settings object
        let mut items = vec![];
        for (k, (q, speed, post)) in [((0, 100), 8, 0u8), ((30, 80), 6, 2), ((0, 90), 3, 0)].into_iter().enumerate() {
            let mk = move || { let mut a = imagequant::Attributes::new(); a.set_quality(q.0, q.1).unwrap(); a.set_speed(speed).unwrap(); a.set_min_posterization(post).unwrap(); a.set_max_colors(3 + k as u32).unwrap(); a.set_last_index_transparent(k == 1); a };
            let (wa, ev) = recorded(|| with_shared(&mk(), Content::Photo, 0.3));
            let wb = with_shared(&mk(), Content::AlphaGrad, 0.9);
            for t in targets(&ev, x.q(100, usize::MAX), x.q(1, 20)) { items.push((k, t, mk, wa.clone(), wb.clone())); }
        }
        x.explore("shared-settings", &items, |i| format!("settings {}: image A suspended at access {} while image B is quantized with the same settings object", i.0, i.1), |(_, k, mk, wa, wb)| {
            if waits.load(SeqCst) > 80 { return Ok(()); }
            let a = Arc::new(mk());
            let a2 = a.clone();
            let (oa, ob, done) = interrupted(*k, || with_shared(&a, Content::Photo, 0.3), move || with_shared(&a2, Content::AlphaGrad, 0.9));
            if done == Some(false) { waits.fetch_add(1, SeqCst); }
            trace();
            if let Some(m) = oa.differs(wa, true) { return Err(format!("the suspended one is affected: {m}")); }
            if let Some(ob) = ob { trace(); if let Some(m) = ob.differs(wb, true) { return Err(format!("the one that ran meanwhile is affected: {m}")); } }
            Ok(())
        });
        x.count("suspensions_where_the_other_had_to_wait", waits.into_inner());
        // accesses of the workers of one parallel section that do not commute
        let v: Vec<_> = scenarios().into_iter().filter(|s| !s.0.contains("streamed")).collect();
        x.explore("accesses", &v, |s| format!("{}: {}, 2 workers, preempted at memory accesses shared between them", s.0, s.1), |(name, c, cb)| {
            let seq = pipeline(c, *cb, |_| {});
            let mut conflict = std::collections::HashSet::new();
            let mut n = 0;
            // work is spread over the workers in these ways
            for p in [vec![], vec![1; 40], [0, 1].repeat(40), [1, 0].repeat(20), [0, 0, 1].repeat(30), [1, 1, 0].repeat(30)] {
                let e = Eng::recorder();
                let (o, _) = e.run(|| mc::controlled(2, &p, POINTS, || pipeline(c, *cb, |_| {})));
                trace();
                if let Some(m) = same(&o, &seq) { return Err(format!("schedule {p:?}: {m}")); }
                let (s, k) = e.conflicts();
                n += k;
                conflict.extend(s);
            }
            x.count("accesses_of_concurrent_workers_recorded", n as u64);
            x.count("places_with_conflicting_accesses", conflict.len() as u64);
            if std::env::var("MC_V").is_ok() { println!("{name}: {n} accesses, {} conflicting places, {:.1} s {}", conflict.len(), x.start.elapsed().as_secs_f32(), conflict.iter().map(|c| format!(" {:x}", c - base_addr())).collect::<String>()); }
            if conflict.is_empty() { return Ok(()); } // all accesses between the coarse scheduling points commute
            let waits = AtomicU64::new(0);
            let f = |p: &[usize]| -> Result<mc::Run, String> {
                // the accesses are protected by a lock, which the other worker waits for: nothing to be seen by stopping inside it
                if waits.load(SeqCst) > x.q(20, 300) { return Ok(mc::Run { trace: vec![], diverged: false, foreign_block: true }); }
                let e = Eng::explorer(conflict.clone());
                let (o, mut run) = e.run(|| mc::controlled(2, p, POINTS, || pipeline(c, *cb, |_| {})));
                outcome(o.digest()); trace();
                if run.foreign_block { waits.fetch_add(1, SeqCst); run.diverged = false; }
                match same(&o, &seq) { None => Ok(run), Some(m) => Err(format!("differs from sequential execution: {m}")) }
            };
            // from the ways above, deviate once more
            let per = x.q(600u64, 20_000);
            for p in [vec![1; 6], vec![], [0, 1].repeat(3)] {
                let mut d = Dfs { bound: preempted(&p) + x.q(1, 2), f: &f, limit: per, n: 0, trunc: false };
                d.go(p)?;
                x.count("schedules_at_access_level", d.n);
                x.count("subtrees_cut_by_schedule_budget", d.trunc as u64);
            }
            Ok(())
        });
    }
    #[cfg(feature = "fine")]
    fn with_shared(a: &imagequant::Attributes, ct: Content, gamma: f64) -> Out {
        let mut c = base(); c.content = ct; c.w = 4; c.h = 5;
        set_cpus(1);
        let mut o = Out::default();
        let mut img = Image::new(a, c.pixels(), c.w, c.h, gamma).unwrap();
        let mut r = match a.quantize(&mut img) { Ok(r) => r, Err(e) => { o.err = Some(("quantize", format!("{e:?}"))); return o; } };
        o.qerr = r.quantization_error(); o.qq = r.quantization_quality(); o.pal0 = r.clone().palette_vec();
        if let Err(e) = remap(&mut r, &mut img, &mut o) { o.err = Some(("remap", format!("{e:?}"))); }
        o
    }
    #[cfg(feature = "fine")]
    fn preempted(p: &[usize]) -> usize { p.iter().filter(|c| **c != 0).count() }
    pub fn run(x: &Ctx) {
        #[cfg(feature = "fine")]
        return fine(x);
        #[allow(unreachable_code)]
        if cfg!(miri) { return races(x); }
        if let Ok(f) = std::env::var("MC_REF_OUT") {
            let mut t = String::new();
            for (n, c, cb) in scenarios().into_iter().filter(|s| !s.0.contains("streamed")).chain(big().into_iter().map(|c| ("config", c, false))) { t += &format!("{n}|{c}\t{}\n", store(&pipeline(&c, cb, |_| {}))); }
            std::fs::write(f, t).unwrap();
        }
        let mut scheds = 0u64;
        for (si, (name, c, cb)) in scenarios().into_iter().enumerate() {
            let seq = pipeline(&c, cb, |_| {});
            for workers in [2usize, 3] {
                if name.contains("chunks") && workers == 3 && c.cpus < 3 { continue; }
                let f = |p: &[usize]| -> Result<mc::Run, String> {
                    let (o, run) = mc::controlled(workers, p, POINTS, || pipeline(&c, cb, mc::point));
                    outcome(o.digest());
                    trace();
                    match same(&o, &seq) { None => Ok(run), Some(m) => Err(format!("differs from sequential execution: {m}")) }
                };
                let bound = x.q(2, 3);
                // the root run gives the first level; every subtree is explored by one harness thread
                let root = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&[]))) { Ok(Ok(r)) => r, Ok(Err(m)) => { x.fail_at(format!("s{si}w{workers}/0"), format!("{name} {c} with {workers} workers: {m}")); continue; }, Err(_) => { x.fail_at(format!("s{si}w{workers}/0"), format!("{name} {c}: panic")); continue; } };
                let kids = children(&[], &root.trace, bound);
                let budget = if name.contains("streamed") { x.q(24u64, 1000) } else { x.q(10_000, 200_000) };
                let per = budget / (kids.len() as u64).max(1) + 2;
                let total = std::sync::atomic::AtomicU64::new(1);
                let trunc = std::sync::atomic::AtomicU64::new(0);
                x.explore(&format!("s{si}w{workers}"), &kids, |k| format!("{name}: {c}, {workers} workers, schedules starting with {k:?}"), |k| {
                    let mut d = Dfs { bound, f: &f, limit: per, n: 0, trunc: false };
                    let r = d.go(k.clone());
                    total.fetch_add(d.n, std::sync::atomic::Ordering::SeqCst);
                    trunc.fetch_add(d.trunc as u64, std::sync::atomic::Ordering::SeqCst);
                    r
                });
                let t = total.into_inner();
                scheds += t;
                if std::env::var("MC_V").is_ok() { println!("{name} w{workers}: points {} kids {} schedules {t} truncated {}", root.trace.len(), kids.len(), trunc.load(std::sync::atomic::Ordering::SeqCst)); }
                x.count("subtrees_cut_by_schedule_budget", trunc.into_inner());
            }
        }
        // ties
        x.explore("ties", &tied_palettes(), |v| format!("grey palette {v:?} and pixels half way between its colours"), |v| {
            for h in [4usize, 5, 7] {
                let seq = tied(v, h);
                if let Some(e) = &seq.err { return Err(format!("{e:?}")); }
                for workers in [2usize, 3] {
                    let f = |p: &[usize]| -> Result<mc::Run, String> {
                        let (o, run) = mc::controlled(workers, p, POINTS, || tied(v, h));
                        outcome(o.digest());
                        trace();
                        match same(&o, &seq) { None => Ok(run), Some(m) => Err(format!("{workers} workers: differs from sequential execution: {m}")) }
                    };
                    let mut d = Dfs { bound: x.q(1, 2), f: &f, limit: x.q(400, 20_000), n: 0, trunc: false };
                    d.go(vec![])?;
                    x.count("schedules", d.n);
                    x.count("subtrees_cut_by_schedule_budget", d.trunc as u64);
                }
            }
            Ok(())
        });
        // several application threads at once, each with its own settings
        let cs = trio();
        let want: Vec<Out> = cs.iter().map(|c| pipeline(c, true, |_| {})).collect();
        for (a, b) in [(0usize, 1usize), (1, 2), (0, 2), (0, 0)] {
            let f = |p: &[usize]| -> Result<mc::Run, String> {
                let (oa, ob) = (std::sync::Mutex::new(None), std::sync::Mutex::new(None));
                let (_, run) = mc::controlled(1, p, POINTS, || mc::run_tasks(vec![
                    Box::new(|| *oa.lock().unwrap() = Some(pipeline(&cs[a], true, mc::point))),
                    Box::new(|| *ob.lock().unwrap() = Some(pipeline(&cs[b], true, mc::point)))]));
                for (o, k) in [(oa, a), (ob, b)] {
                    let o = o.into_inner().unwrap().ok_or("no result")?;
                    trace(); outcome(o.digest());
                    if let Some(m) = o.differs(&want[k], true) { return Err(format!("{} is affected by the other thread: {m}", cs[k])); }
                }
                Ok(run)
            };
            let bound = x.q(1, 2);
            let root = match f(&[]) { Ok(r) => r, Err(m) => { x.fail_at(format!("two{a}{b}/0"), m); continue } };
            let kids = children(&[], &root.trace, bound);
            let per = x.q(10_000u64, 200_000) / (kids.len() as u64).max(1) + 4;
            let total = std::sync::atomic::AtomicU64::new(1);
            x.explore(&format!("two{a}{b}"), &kids, |k| format!("{} while {} runs, schedules starting with {k:?}", cs[a], cs[b]), |k| { let mut d = Dfs { bound, f: &f, limit: per, n: 0, trunc: false }; let r = d.go(k.clone()); total.fetch_add(d.n, std::sync::atomic::Ordering::SeqCst); x.count("subtrees_cut_by_schedule_budget", d.trunc as u64); r });
            if std::env::var("MC_V").is_ok() { println!("two {a}{b}: points {} kids {} schedules {}", root.trace.len(), kids.len(), total.load(std::sync::atomic::Ordering::SeqCst)); }
            scheds += total.into_inner();
        }
        x.count("schedules", scheds);
        // the number of workers
        x.explore("worker-count", &big(), |c| c.to_string(), |c| {
            let mut c = c.clone();
            let one = pipeline(&c, false, |_| {});
            if let Some(e) = &one.err { return Err(format!("{e:?}")); }
            for n in [2usize, 4, 8] {
                let o = mc::free(n, || pipeline(&c, false, |_| {}));
                trace();
                if let Some(m) = same(&o, &one) { return Err(format!("{n} freely running workers: {m}")); }
            }
            // the number of CPUs only decides where tall dithered images are split
            c.cpus = 1;
            let whole = pipeline(&c, false, |_| {});
            for n in [2usize, 3, 8] {
                c.cpus = n;
                let o = pipeline(&c, false, |_| {});
                trace();
                let first = if c.dither == 0. || c.h <= 128 || c.speed == 1 { c.h } else { c.h / n.min((c.h / 128).max(2)) };
                if o.pal != whole.pal || o.pal0 != whole.pal0 || !near(o.qerr, whole.qerr) || !near(o.rerr, whole.rerr) { return Err(format!("{n} CPUs instead of 1 changed the palette or errors")); }
                if let Some(p) = o.idx.iter().zip(&whole.idx).position(|(a, b)| a != b) { if p / c.w < first { return Err(format!("{n} CPUs instead of 1 changed pixel {p} in row {} before the place where work is split ({first})", p / c.w)); } }
            }
            Ok(())
        });
    }
}
