//! Output pixels of a remap.
use crate::core::*;
use crate::pipe::*;
use crate::pix;
use imagequant::Error;
use std::mem::MaybeUninit;

fn buf(n: usize, fill: u8) -> Vec<MaybeUninit<u8>> { vec![MaybeUninit::new(fill); n] }
fn get(b: &[MaybeUninit<u8>]) -> Vec<u8> { b.iter().map(|x| unsafe { x.assume_init() }).collect() }

/// remaps with different previous buffer contents, a guard area, and every entry point
pub fn check(c: &Cfg) -> Result<(), String> {
    let p = c.pixels();
    let n = p.len();
    let a = c.attr();
    const G: usize = 37;
    let fresh = || c.image(&a, &p).map_err(|e| format!("image: {e:?}"));
    let mut img = fresh()?;
    let res = match c.quantize(&a, &mut img, &p) { Ok(r) => r, Err(e) => { if c.legit("quantize", &format!("{e:?}")) { return Ok(()); } return Err(format!("quantize: {e:?}")); } };
    // too small buffers are refused and left alone
    for short in [n - 1, n / 2, 0] {
        let mut r = res.clone();
        c.configure(&mut r).map_err(|e| format!("{e:?}"))?;
        let mut b = buf(short, 0x77);
        op();
        match r.remap_into(&mut img, &mut b) { Err(Error::BufferTooSmall) => {}, o => return Err(format!("buffer of {short} bytes for {n} pixels: {o:?}")) }
        if get(&b).iter().any(|x| *x != 0x77) { return Err(format!("buffer of {short} bytes was written to although too small")); }
    }
    let mut first: Option<(Vec<u8>, usize)> = None;
    for fill in [0x00u8, 0xFF, 0xA5] {
        let mut r = res.clone();
        c.configure(&mut r).map_err(|e| format!("{e:?}"))?;
        let mut img = fresh()?;
        if c.via == Via::Image { let _ = c.quantize(&a, &mut img, &p); }
        set_cpus(c.cpus);
        let mut b = buf(n + G, fill);
        op();
        r.remap_into(&mut img, &mut b).map_err(|e| format!("remap: {e:?}"))?;
        let b = get(&b);
        if b[n..].iter().any(|x| *x != fill) { return Err("bytes after the image area were written".into()); }
        let pl = r.palette_vec().len();
        if r.palette_len() != pl { return Err(format!("palette_len() {} but the palette has {pl} entries", r.palette_len())); }
        if let Some(k) = b[..n].iter().position(|x| *x as usize >= pl) { return Err(format!("index {} at pixel {k} is outside the palette of {pl}", b[k])); }
        trace();
        match &first {
            None => first = Some((b[..n].to_vec(), pl)),
            Some(f) => if f.0[..] != b[..n] { let k = f.0.iter().zip(&b).position(|(x, y)| x != y).unwrap(); return Err(format!("pixel {k} depends on the previous contents of the buffer ({} vs {})", f.0[k], b[k])); },
        }
    }
    let f = first.unwrap();
    outcome(hash_bytes(&f.0));
    // the vector entry points return the same picture
    let mut r = res.clone();
    c.configure(&mut r).map_err(|e| format!("{e:?}"))?;
    let mut img = fresh()?;
    if c.via == Via::Image { let _ = c.quantize(&a, &mut img, &p); }
    set_cpus(c.cpus);
    op();
    let mut v = vec![9u8; 5];
    let pal = r.remap_into_vec(&mut img, &mut v).map_err(|e| format!("remap_into_vec: {e:?}"))?;
    if v != f.0 || pal.len() != f.1 { return Err(format!("remap_into_vec differs from remap_into (lengths {} {n}, palettes {} {})", v.len(), pal.len(), f.1)); }
    let mut r = res.clone();
    c.configure(&mut r).map_err(|e| format!("{e:?}"))?;
    let mut img = fresh()?;
    if c.via == Via::Image { let _ = c.quantize(&a, &mut img, &p); }
    op();
    let (pal, v) = r.remapped(&mut img).map_err(|e| format!("remapped: {e:?}"))?;
    if v != f.0 || pal.len() != f.1 { return Err("remapped() differs from remap_into()".into()); }
    c_rows(c, &p, &f.0)
}

/// C row-pointer output: rows scattered in one arena, in every arrangement, with guards between them
#[cfg(not(no_c))]
fn c_rows(c: &Cfg, p: &[imagequant::RGBA], expect: &[u8]) -> Result<(), String> {
    use crate::capi::*;
    if c.fixed != Fixed::None || c.imp != Imp::None || c.bg != Bg::None || c.via != Via::Image || c.gout.is_some() { return Ok(()); }
    unsafe {
        for order in 0..3 {
            let a = w_liq_attr_create();
            w_liq_set_speed(a, c.speed); w_liq_set_max_colors(a, c.colors as i32);
            if let Some(q) = c.quality { w_liq_set_quality(a, q.0 as i32, q.1 as i32); }
            w_liq_set_min_posterization(a, c.post as i32); w_liq_set_last_index_transparent(a, c.last as i32);
            set_cpus(c.cpus);
            let im = w_liq_image_create_rgba(a, p.as_ptr().cast(), c.w as i32, c.h as i32, c.gin);
            let mut r: P = NULL;
            for _ in 0..7 { op(); }
            let e = w_liq_image_quantize(im, a, (&mut r as *mut P).cast());
            if e != OK { return Err(format!("C quantize returned {e}")); }
            w_liq_set_dithering_level(r, c.dither);
            let gap = [0usize, 5, 64][order];
            let stride = c.w + gap;
            let mut arena = vec![0xC3u8; stride * c.h + 64];
            let base = arena.as_mut_ptr().add(32);
            let at = |y: usize| -> usize { let k = match order { 0 => y, 1 => c.h - 1 - y, _ => if y % 2 == 0 { y / 2 } else { (c.h + 1) / 2 + y / 2 } }; k * stride };
            let mut rows: Vec<*mut u8> = (0..c.h).map(|y| base.add(at(y))).collect();
            op();
            let e = w_liq_write_remapped_image_rows(r, im, rows.as_mut_ptr().cast());
            if e != OK { return Err(format!("C remap rows returned {e}")); }
            let mut owned = vec![false; arena.len()];
            for y in 0..c.h { for i in 0..c.w { owned[32 + at(y) + i] = true; if arena[32 + at(y) + i] != expect[y * c.w + i] { return Err(format!("row-pointer output (layout {order}) differs at {i},{y}: {} instead of {}", arena[32 + at(y) + i], expect[y * c.w + i])); } } }
            if let Some(k) = (0..arena.len()).find(|&k| !owned[k] && arena[k] != 0xC3) { return Err(format!("row-pointer output wrote outside the rows (offset {k}, layout {order})")); }
            // contiguous buffer, exact, larger and too small
            if order == 0 {
                let n = c.w * c.h;
                for (size, want) in [(n - 1, SMALL), (0, SMALL), (n, OK), (n + 9, OK)] {
                    let mut b = vec![0xC3u8; n + 16];
                    op();
                    // a fresh image: the dither map of an image is made once
                    let im2 = w_liq_image_create_rgba(a, p.as_ptr().cast(), c.w as i32, c.h as i32, c.gin);
                    let mut r2: P = NULL;
                    w_liq_image_quantize(im2, a, (&mut r2 as *mut P).cast());
                    w_liq_set_dithering_level(r2, c.dither);
                    let e = w_liq_write_remapped_image(r2, im2, b.as_mut_ptr().cast(), size);
                    w_liq_result_destroy(r2);
                    w_liq_image_destroy(im2);
                    if e != want { return Err(format!("liq_write_remapped_image with a buffer of {size} for {n} returned {e}, expected {want}")); }
                    if want == OK && b[..n] != expect[..] { return Err("liq_write_remapped_image differs from Rust".into()); }
                    let from = if want == OK { n } else { 0 };
                    if b[from..].iter().any(|x| *x != 0xC3) { return Err(format!("liq_write_remapped_image (buffer size {size}) wrote outside the image")); }
                }
            }
            w_liq_result_destroy(r); w_liq_image_destroy(im); w_liq_attr_destroy(a);
        }
    }
    Ok(())
}
#[cfg(no_c)]
fn c_rows(_: &Cfg, _: &[imagequant::RGBA], _: &[u8]) -> Result<(), String> { Ok(()) }

const STEPS: &[&str] = &["remap without dithering", "remap with half dithering", "remap with full dithering", "aborted remap", "prepare for dithering", "remap with another palette", "continue with a clone of the image"];

/// one image remapped again and again (it keeps maps between remaps), each time into a new buffer with other old contents
fn history(c: &Cfg, seq: &[usize]) -> Result<(), String> {
    let p = c.pixels();
    let n = p.len();
    let a = c.attr();
    const G: usize = 19;
    let mut runs: Vec<Vec<Vec<u8>>> = vec![];
    for fill in [0x00u8, 0xFF, 0xA5] {
        let mut img = c.image(&a, &p).map_err(|e| format!("image: {e:?}"))?;
        set_cpus(c.cpus);
        let mut res = c.quantize(&a, &mut img, &p).map_err(|e| format!("quantize: {e:?}"))?;
        let mut a2 = c.attr();
        a2.set_max_colors(3).unwrap();
        let mut other = { let mut i2 = c.image(&a2, &p).map_err(|e| format!("image: {e:?}"))?; c.quantize(&a2, &mut i2, &p).map_err(|e| format!("quantize: {e:?}"))? };
        let mut outs = vec![];
        for (step, &o) in seq.iter().enumerate() {
            op();
            let at = |m: String| format!("step {step} ({}): {m}", STEPS[o]);
            let mut b = buf(n + G, fill);
            match o {
                0 | 1 | 2 | 5 => {
                    let r = if o == 5 { &mut other } else { res.set_dithering_level([0., 0.5, 1.][o]).unwrap(); &mut res };
                    r.remap_into(&mut img, &mut b).map_err(|e| at(format!("{e:?}")))?;
                    let pl = r.palette_len();
                    let b = get(&b);
                    if b[n..].iter().any(|x| *x != fill) { return Err(at("bytes after the image area were written".into())); }
                    if let Some(k) = b[..n].iter().position(|x| *x as usize >= pl) { return Err(at(format!("index {} at pixel {k} is outside the palette of {pl}", b[k]))); }
                    trace();
                    outs.push(b[..n].to_vec());
                },
                3 => {
                    let mut r = res.clone();
                    r.set_progress_callback(|_| imagequant::ControlFlow::Break);
                    match r.remap_into(&mut img, &mut b) { Err(Error::Aborted) => {}, o => return Err(at(format!("{o:?}"))) }
                    if get(&b)[n..].iter().any(|x| *x != fill) { return Err(at("bytes after the image area were written".into())); }
                },
                4 => {
                    res.optionally_prepare_for_dithering_with_background_set(&mut img, &mut b[..n]).map_err(|e| at(format!("{e:?}")))?;
                    if get(&b)[n..].iter().any(|x| *x != fill) { return Err(at("bytes after the image area were written".into())); }
                },
                _ => img = img.clone(),
            }
        }
        runs.push(outs);
    }
    for o in &runs[0] { outcome(hash_bytes(o)); }
    for r in &runs[1..] { for (k, (x, y)) in r.iter().zip(&runs[0]).enumerate() { if x != y {
        let i = x.iter().zip(y).position(|(x, y)| x != y).unwrap();
        return Err(format!("remap {k} of the sequence: pixel {i} depends on the previous contents of the buffer ({} vs {})", y[i], x[i]));
    } } }
    Ok(())
}

pub fn run(x: &Ctx) {
    let mut hist = vec![];
    for (content, w, h, bg, speed, cpus, imp) in [(pix::Content::Photo, 16, 16, Bg::None, 4, 2, Imp::None), (pix::Content::AlphaGrad, 9, 6, Bg::Shift, 3, 1, Imp::None), (pix::Content::Rgb, 3, 9, Bg::None, 1, 2, Imp::None), (pix::Content::AlphaExt, 7, 5, Bg::None, 8, 2, Imp::None), (pix::Content::Photo, 4, 150, Bg::Shift, 5, 2, Imp::HalfZero)] {
        let mut c = base(); c.content = content; c.w = w; c.h = h; c.bg = bg; c.speed = speed; c.cpus = cpus; c.imp = imp; c.colors = 7;
        for q in crate::props::c13::seqs(STEPS.len(), x.q(3, 4)) { hist.push((c.clone(), q)); }
    }
    x.explore("remap-histories", &hist, |(c, q)| format!("{c}: {}", q.iter().map(|&o| STEPS[o]).collect::<Vec<_>>().join(", ")), |(c, q)| history(c, q));
    let mut b2 = base(); b2.content = pix::Content::NoiseA; b2.colors = 256; b2.dither = 0.; b2.w = 9; b2.h = 20;
    let mut b3 = base(); b3.content = pix::Content::Sparse; b3.bg = Bg::Shift; b3.w = 5; b3.h = 140; b3.cpus = 8;
    x.explore("deviations", &space(&[base(), b2, b3], x.q(1, 2)), |c| c.to_string(), check);
    // every small shape
    let sh: Vec<(usize, usize)> = (1..=x.q(9, 16)).flat_map(|w| (1..=x.q(9, 16)).map(move |h| (w, h))).collect();
    let d = vec![dim(&sh, |c, v| { c.w = v.0; c.h = v.1; }), dim(&[0f32, 1.], |c, v| c.dither = v), dim(&[1, 4, 7, 10], |c, v| c.speed = v), dim(&[pix::Content::Rgb, pix::Content::AlphaExt], |c, v| c.content = v)];
    x.explore("small-shapes", &product(&base(), &d), |c| c.to_string(), check);
    // every height around the places where work is split, for every processor count
    let mut hs: Vec<usize> = vec![]; for m in [128usize, 256, 384, 512] { for k in 0..=4 { hs.push(m + k - 2); } }
    let cp: Vec<usize> = x.q(vec![1, 2, 3, 8], vec![1, 2, 3, 4, 5, 7, 8, 16]);
    let d = vec![dim(&hs, |c, v| c.h = v), dim(&[1usize, 3], |c, v| c.w = v), dim(&cp, |c, v| c.cpus = v), dim(&[1, 4, 7], |c, v| c.speed = v), dim(&[Bg::None, Bg::Shift], |c, v| c.bg = v)];
    let mut b = base(); b.content = pix::Content::AlphaGrad;
    x.explore("tall", &product(&b, &d), |c| c.to_string(), check);
    // many chunks and images beyond the caching limits
    let mut big = vec![];
    for (w, h, cpus) in x.q(vec![(4096, 400, 8)], vec![(4096, 400, 8), (4096, 400, 3), (2048, 1030, 8), (8192, 520, 8), (2001, 2000, 4), (2100, 2001, 4)]) {
        for (sp, d) in [(5, 1.), (8, 1.), (8, 0.)] { let mut c = base(); c.w = w; c.h = h; c.cpus = cpus; c.speed = sp; c.dither = d; c.content = pix::Content::Rgb; big.push(c); }
    }
    x.explore("large", &big, |c| c.to_string(), check);
}
