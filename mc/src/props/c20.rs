//! The same configurations in each build of the library. The first build stores its outcomes (MC_REF_OUT), the
//! others are compared with them (MC_REF).
use crate::core::*;
use crate::pipe::*;
use crate::pix::{self, make, px, Content};
use crate::props::c16::{load, same, store};
use imagequant::{Attributes, ControlFlow, Histogram, HistogramEntry, Image};
use std::collections::BTreeMap;
use std::sync::Mutex;

fn configs(x: &Ctx) -> Vec<Cfg> {
    let mut bases = vec![];
    for (ct, speed) in [(Content::Photo, 4), (Content::NoiseA, 6), (Content::Sparse, 8), (Content::Noise, 1)] { let mut b = base(); b.content = ct; b.speed = speed; b.cpus = 1; bases.push(b); }
    let mut v = space(&bases[..x.q(3, 4)], 2);
    if x.thorough() { let mut b = base(); b.w = 8; b.h = 8; b.cpus = 1; v.extend(space(&[b], 3)); }
    // tall and large images, rows around the places where work is split
    for (w, h) in [(1usize, 127usize), (2, 128), (2, 129), (3, 255), (3, 257), (5, 385), (300, 300), (2049, 3), (64, 600)] { for ct in [Content::Photo, Content::NoiseA, Content::Rgb, Content::Blob] { for speed in [1, 4, 7, 10] { for dither in [0f32, 1.] { for bg in [Bg::None, Bg::Shift] { let mut c = base(); c.w = w; c.h = h; c.content = ct; c.speed = speed; c.dither = dither; c.bg = bg; c.cpus = if dither == 0. { 8 } else { 1 }; v.push(c); } } } } }
    // splitting a tall image between threads is the one allowed difference
    for c in &mut v { if c.h > 128 && c.dither > 0. { c.cpus = 1; } }
    v
}

/// code returned when the k-th progress notification asks to stop; number of notifications
fn abort(c: &Cfg, k: usize) -> String {
    let n = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let p = c.pixels();
    let mut a = c.attr();
    set_cpus(1);
    let m = n.clone();
    a.set_progress_callback(move |_| if m.fetch_add(1, std::sync::atomic::Ordering::SeqCst) + 1 == k { ControlFlow::Break } else { ControlFlow::Continue });
    let mut i = c.image(&a, &p).unwrap();
    op();
    let r = c.quantize(&a, &mut i, &p);
    let q = n.load(std::sync::atomic::Ordering::SeqCst);
    let m = n.clone();
    match r {
        Err(e) => format!("quantize {e:?} after {q}"),
        Ok(mut r) => {
            r.set_dithering_level(c.dither).unwrap();
            r.set_progress_callback(move |_| if m.fetch_add(1, std::sync::atomic::Ordering::SeqCst) + 1 == k { ControlFlow::Break } else { ControlFlow::Continue });
            let mut o = Out::default();
            let e = remap(&mut r, &mut i, &mut o);
            format!("remap {e:?} after {q} and {}", n.load(std::sync::atomic::Ordering::SeqCst))
        },
    }
}

pub fn run(x: &Ctx) {
    let mut want: BTreeMap<String, String> = BTreeMap::new();
    if let Ok(f) = std::env::var("MC_REF") { for l in std::fs::read_to_string(f).unwrap().lines() { let (k, v) = l.split_once('\t').unwrap(); want.insert(k.into(), v.into()); } x.count("outcomes_of_the_reference_build", want.len() as u64); }
    let got: Mutex<BTreeMap<String, String>> = Mutex::default();
    let cs = configs(x);
    x.explore("configurations", &cs, |c| c.to_string(), |c| {
        let o = crate::pipe::run(c);
        let key = c.to_string();
        // the quality floor is stricter for images with few colours, and "few" depends on the build
        if cfg!(feature = "large") && c.quality.map_or(false, |q| q.0 > 0) && pix::distinct(&c.pixels()).len() + c.fixed_colors(&c.pixels()).len() > 256 - 128 { return Ok(()); }
        if let Some(w) = want.get(&key) {
            trace();
            let mut w = load(w);
            // the stored form does not keep the step name
            if let (Some(a), Some(b)) = (&mut w.err, &o.err) { a.0 = b.0; }
            if let Some(m) = same(&o, &w) { return Err(format!("this build vs build with threads: {m}")); }
        } else if !want.is_empty() { return Err("not explored by the reference build".into()); } else { got.lock().unwrap().insert(key, store(&o)); }
        Ok(())
    });
    let mut items = vec![];
    for ct in [Content::Photo, Content::Few(9), Content::Sparse] { for speed in [1, 4, 8, 10] { for q in [None, Some((60, 70))] { for k in 1..=x.q(12usize, 30) { let mut c = base(); c.content = ct; c.speed = speed; c.quality = q; items.push((c, k)); } } } }
    x.explore("aborts", &items, |i| format!("{} stopped at notification {}", i.0, i.1), |(c, k)| {
        let o = abort(c, *k);
        let key = format!("abort {k} {c}");
        if let Some(w) = want.get(&key) { trace(); if *w != o { return Err(format!("this build: {o}, build with threads: {w}")); } }
        else { got.lock().unwrap().insert(key, o); }
        Ok(())
    });
    if let Ok(f) = std::env::var("MC_REF_OUT") { std::fs::write(f, got.lock().unwrap().iter().map(|(k, v)| format!("{k}\t{v}\n")).collect::<String>()).unwrap(); }
    if cfg!(feature = "large") { large(x); }
}

/// limits above 256 in the build that supports them
fn large(x: &Ctx) {
    let mut items = vec![];
    for n in [1u32, 2, 255, 256, 257, 258, 300, 511, 512, 513, 1024, 2047, 2048] { for max in [Some(256u32), Some(257), Some(300), Some(1000), Some(2048), None] { for speed in [1, 3, 5, 7, 8, 10] { for dither in [0f32, 1.] { for hist in [false, true] { items.push((n, max, speed, dither, hist)); } } } } }
    x.explore("large", &items, |i| format!("{} colours, limit {:?}, speed {}, dithering {}, histogram {}", i.0, i.1, i.2, i.3, i.4), |&(n, max, speed, dither, hist)| {
        let (w, h) = (64, n.div_ceil(64).max(1) as usize);
        let p: Vec<imagequant::RGBA> = (0..w * h).map(|i| { let j = (i as u32) % n; px((j % 16) as u8 * 16, (j / 16 % 16) as u8 * 16, (j / 256) as u8 * 30, 255) }).collect();
        let mut a = Attributes::new();
        a.set_speed(speed).unwrap();
        // limits above 256 may be refused (documented range), the default may be larger
        if let Some(m) = max { if let Err(e) = a.set_max_colors(m) { return if m > 256 { Ok(()) } else { Err(format!("limit refused: {e:?}")) }; } }
        let limit = a.max_colors();
        if max.map_or(limit < 256, |m| m != limit) { return Err(format!("limit {limit}")); }
        let mut i = Image::new(&a, p.clone(), w, h, 0.).unwrap();
        op(); op();
        let r = if hist { let mut hg = Histogram::new(&a); hg.add_colors(&p.iter().map(|c| HistogramEntry { color: *c, count: 1 }).collect::<Vec<_>>(), 0.).unwrap(); hg.quantize(&a) } else { a.quantize(&mut i) };
        let mut r = r.map_err(|e| format!("quantize: {e:?}"))?;
        r.set_dithering_level(dither).unwrap();
        let pal = r.palette_vec();
        trace();
        if pal.is_empty() || pal.len() > limit as usize || pal.len() != r.palette_len() { return Err(format!("palette of {} entries", pal.len())); }
        let img = pix::distinct(&p);
        if speed <= 7 && img.len() <= limit as usize && pix::distinct(&pal) != img { return Err(format!("palette of {} entries is not the {} colours of the image", pal.len(), img.len())); }
        let mut buf = vec![std::mem::MaybeUninit::new(0xA5u8); w * h];
        op();
        match r.remap_into(&mut i, &mut buf) {
            Ok(()) => {
                let q = r.palette_vec();
                if q.len() > 256 { return Err(format!("remapped with a palette of {} entries", q.len())); }
                let idx: Vec<u8> = buf.iter().map(|b| unsafe { b.assume_init() }).collect();
                if idx.iter().any(|k| *k as usize >= q.len()) { return Err("index outside of the palette".into()); }
                if speed <= 7 && img.len() <= limit as usize && p.iter().zip(&idx).any(|(p, k)| q[*k as usize] != *p) { return Err("wrong colours".into()); }
                Ok(())
            },
            Err(e) => {
                if pal.len() <= 256 { return Err(format!("remap with {} entries: {e:?}", pal.len())); }
                if buf.iter().any(|b| unsafe { b.assume_init() } != 0xA5) { return Err("refused remap wrote to the buffer".into()); }
                Ok(())
            },
        }
    });
    // many colours with real merging; fixed colours
    let mut items = vec![];
    for max in [Some(300), None, Some(256u32)] { for speed in [1, 4, 8] { for fixed in [0usize, 1, 40, 256, 257, 300] { for ct in [Content::Noise, Content::NoiseA] { items.push((max, speed, fixed, ct)); } } } }
    x.explore("large-merge", &items, |i| format!("{i:?}"), |&(max, speed, fixed, ct)| {
        let (w, h) = (64, 64);
        let p = make(ct, w, h);
        let mut a = Attributes::new();
        a.set_speed(speed).unwrap();
        if let Some(m) = max { if a.set_max_colors(m).is_err() { return Ok(()); } }
        let max = a.max_colors();
        let mut i = Image::new(&a, p, w, h, 0.).unwrap();
        let mut f = vec![];
        for k in 0..fixed { let c = px((k % 256) as u8, (k / 256) as u8 * 9, 77, 255); op(); if i.add_fixed_color(c).is_ok() { f.push(c); } }
        op(); trace();
        let mut r = a.quantize(&mut i).map_err(|e| format!("quantize: {e:?}"))?;
        let pal = r.palette_vec();
        if pal.len() > max as usize || pal.is_empty() { return Err(format!("{} entries", pal.len())); }
        for c in f.iter().take(max as usize) { if !pal.contains(c) { return Err(format!("fixed colour {c:?} missing")); } }
        if r.quantization_error().map_or(false, |e| !e.is_finite()) { return Err("error not finite".into()); }
        let ok = r.remapped(&mut i).is_ok();
        if ok != (pal.len() <= 256) { return Err(format!("remap of {} entries gave {ok}", pal.len())); }
        Ok(())
    });
}
