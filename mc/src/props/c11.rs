//! The same pixels in any representation.
use crate::core::*;
use crate::pipe::*;
use crate::pix::{px, Content};
use imagequant::{Attributes, Image, RGBA};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Rep { Borrowed, AttrNew, Stride(usize, usize), StrideBorrowed(usize, usize), StrideCopy(usize), Func, CloneDropped, CloneOfStride, CloneOfBorrowed, CloneAfterUse, CloneOfClone, CloneKept, Moved, CloneOfFunc, CloneOfUsed, AttrStride(usize), AttrBorrowed }
use Rep::*;
const REPS: &[Rep] = &[Borrowed, AttrNew, Stride(0, 0), Stride(1, 0), Stride(5, 5), Stride(3, 7), StrideBorrowed(0, 3), StrideBorrowed(1, 0), StrideBorrowed(64, 64), StrideCopy(0), StrideCopy(2), Func, CloneDropped, CloneOfStride, CloneOfBorrowed, CloneAfterUse, CloneOfClone, CloneKept, Moved, CloneOfFunc, CloneOfUsed, AttrStride(4), AttrBorrowed];

const JUNK: RGBA = RGBA { r: 255, g: 0, b: 254, a: 255 };
/// rows at the given padding; the last row has `tail` extra pixels instead
fn strided(p: &[RGBA], w: usize, h: usize, pad: usize, tail: usize) -> Vec<RGBA> {
    let mut v = vec![];
    for y in 0..h { v.extend_from_slice(&p[y * w..y * w + w]); for k in 0..if y + 1 == h { tail } else { pad } { v.push(if k % 2 == 0 { JUNK } else { px(k as u8, 9, 9, 3) }); } }
    v
}

fn run_rep(c: &Cfg, a: &Attributes, p: &[RGBA], rep: Rep) -> Result<Out, String> {
    let (w, h, g) = (c.w, c.h, c.gin);
    let er = |e: imagequant::Error| format!("{e:?}");
    let fin = |mut i: Image<'_>, a: &Attributes| -> Result<Out, String> {
        if i.width() != w || i.height() != h { return Err(format!("image reports {}x{}", i.width(), i.height())); }
        c.decorate(a, &mut i, p).map_err(er)?;
        Ok(run_with(c, a, &mut i, p))
    };
    op();
    let keep = p.to_vec();
    let res = match rep {
        Borrowed => fin(Image::new_borrowed(a, &keep, w, h, g).map_err(er)?, a),
        AttrNew => fin(a.new_image(keep.clone(), w, h, g).map_err(er)?, a),
        Stride(pad, tail) => fin(Image::new_stride(a, strided(p, w, h, pad, tail), w, h, w + pad, g).map_err(er)?, a),
        StrideBorrowed(pad, tail) => { let v = strided(p, w, h, pad, tail); let v0 = v.clone(); let r = fin(Image::new_stride_borrowed(a, &v, w, h, w + pad, g).map_err(er)?, a); if v != v0 { return Err("the caller's pixels were modified".into()); } r },
        #[allow(deprecated)]
        StrideCopy(pad) => { let mut v = strided(p, w, h, pad, pad); let i = a.new_image_stride_copy(&v, w, h, w + pad, g).map_err(er)?; v.fill(JUNK); fin(i, a) },
        Func => {
            let bad = Arc::new(AtomicU64::new(0));
            let b2 = bad.clone(); let src = p.to_vec();
            let i = unsafe { Image::new_fn(a, move |row, y| { if y >= h || row.len() != w { b2.fetch_add(1, SeqCst); } for (x, o) in row.iter_mut().enumerate() { o.write(src[y * w + x]); } }, w, h, g) }.map_err(er)?;
            let r = fin(i, a);
            if bad.load(SeqCst) > 0 { return Err("the row callback was asked for a row outside the image or with a wrong row length".into()); }
            r
        },
        CloneDropped => { let i = Image::new(a, keep.clone(), w, h, g).map_err(er)?; let j = i.clone(); drop(i); churn(p.len()); fin(j, a) },
        CloneOfStride => { let i = Image::new_stride(a, strided(p, w, h, 3, 0), w, h, w + 3, g).map_err(er)?; let j = i.clone(); drop(i); churn(p.len()); fin(j, a) },
        CloneOfBorrowed => { let i = Image::new_borrowed(a, &keep, w, h, g).map_err(er)?; let j = i.clone(); drop(i); fin(j, a) },
        CloneAfterUse => { let mut i = Image::new(a, keep.clone(), w, h, g).map_err(er)?; let j = i.clone(); let _ = a.quantize(&mut i); drop(i); churn(p.len()); fin(j, a) },
        CloneOfClone => { let i = Image::new(a, keep.clone(), w, h, g).map_err(er)?; let j = i.clone(); drop(i); churn(p.len()); let k = j.clone(); drop(j); churn(p.len()); fin(k, a) },
        CloneKept => { let i = Image::new(a, keep.clone(), w, h, g).map_err(er)?; let mut j = i.clone(); let _ = a.quantize(&mut j); drop(j); churn(p.len()); fin(i, a) },
        Moved => { let i = Image::new(a, keep.clone(), w, h, g).map_err(er)?; let v = vec![i]; let b = Box::new(v.into_iter().next().unwrap()); fin(*b, a) },
        CloneOfFunc => {
            churn(p.len());
            let src = p.to_vec();
            let i = unsafe { Image::new_fn(a, move |row, y| for (x, o) in row.iter_mut().enumerate() { o.write(src[y * w + x]); }, w, h, g) }.map_err(er)?;
            let j = i.clone(); drop(i); churn(p.len()); fin(j, a)
        },
        CloneOfUsed => { let mut i = Image::new(a, keep.clone(), w, h, g).map_err(er)?; let _ = a.quantize(&mut i); let j = i.clone(); drop(i); churn(p.len()); fin(j, a) },
        AttrStride(pad) => fin(a.new_image_stride(strided(p, w, h, pad, 1), w, h, w + pad, g).map_err(er)?, a),
        AttrBorrowed => fin(a.new_image_borrowed(&keep, w, h, g).map_err(er)?, a),
    };
    if keep != p { return Err("the caller's pixels were modified".into()); }
    res
}
/// reuse freed memory
fn churn(n: usize) { let v: Vec<Vec<RGBA>> = (0..4).map(|i| vec![px(i, 77, 99, 255); n + i as usize]).collect(); std::hint::black_box(&v); }

fn check(c: &Cfg, rep: Rep) -> Result<(), String> {
    let p = c.pixels();
    let a = c.attr();
    let want = run_px(c, &p);
    if let Some((s, e)) = &want.err { if !c.legit(s, e) { return Err(format!("{s} failed: {e}")); } }
    let got = run_rep(c, &a, &p, rep)?;
    trace();
    if let Some(d) = want.differs(&got, true) { return Err(format!("differs from an owned buffer: {d}")); }
    Ok(())
}
#[cfg(not(no_c))]
fn check_c(c: &Cfg, rep: crate::capi::run::CRep) -> Result<(), String> {
    let p = c.pixels();
    let want = run_px(c, &p);
    if let Some((s, e)) = &want.err { if !c.legit(s, e) { return Err(format!("{s} failed: {e}")); } }
    let got = crate::capi::run::run(c, &p, rep)?;
    trace();
    if let Some(d) = want.differs(&got, true) { return Err(format!("C image {rep:?} differs from an owned buffer: {d}")); }
    Ok(())
}

/// the first rows of an image converted row by row are remapped like those of an image that is one row shorter and cached
fn streamed(c: &Cfg) -> Result<(), String> {
    let er = |e: imagequant::Error| format!("{e:?}");
    let a = c.attr();
    let p = c.pixels();
    let mut small = c.clone(); small.w = 64; small.h = 16; small.bg = Bg::None;
    let sp = small.pixels();
    let mut si = Image::new(&a, &sp[..], 64, 16, c.gin).map_err(er)?;
    let mut res = a.quantize(&mut si).map_err(er)?;
    c.configure(&mut res).map_err(er)?;
    set_cpus(1);
    let mut first: Option<(Vec<RGBA>, Vec<u8>)> = None;
    for h in [c.h - 1, c.h] {
        let mut d = c.clone(); d.h = h;
        let q = &p[..c.w * h];
        let mut i = Image::new_borrowed(&a, q, c.w, h, c.gin).map_err(er)?;
        d.decorate(&a, &mut i, q).map_err(er)?;
        let mut r = res.clone();
        op();
        let got = r.remapped(&mut i).map_err(er)?;
        trace();
        match &first {
            None => first = Some(got),
            Some(f) => {
                // (backgrounds may be made from the last rows)
                if f.0 != got.0 { return Err(format!("{} rows are remapped to {:?}, {h} rows to {:?}", h - 1, f.0, got.0)); }
                if let Some(k) = (0..f.1.len() - 2 * c.w).find(|&k| f.1[k] != got.1[k]) { return Err(format!("pixel {k} {:?} has index {} in an image of {} rows, {} in one of {h} rows", p[k], f.1[k], h - 1, got.1[k])); }
            },
        }
    }
    Ok(())
}

pub fn run(x: &Ctx) {
    let mut items = vec![];
    for (g, sp, d, bg) in x.q(vec![(0.8, 8, 0f32, Bg::None), (0.25, 8, 1., Bg::None), (1., 7, 0., Bg::Shift), (0., 9, 1., Bg::Shift)], {
        let mut v = vec![]; for g in [0., 0.1, 0.25, 0.57, 0.8, 1.] { for sp in [7, 8, 10] { for d in [0f32, 0.5, 1.] { for bg in [Bg::None, Bg::Shift, Bg::Alpha] { v.push((g, sp, d, bg)); } } } } v }) {
        let mut c = base(); c.w = 2048; c.h = 2049; c.content = Content::AlphaGrad; c.speed = sp; c.dither = d; c.bg = bg; c.colors = 24; c.gin = g; items.push(c);
    }
    for (w, h) in x.q(vec![(1023usize, 4101usize), (64, 65537), (70_000, 60)], vec![(1023, 4101), (64, 65537), (70_000, 60), (8, 524_289), (600_000, 7)]) { for (g, d) in x.q(vec![(0.8, 1f32), (0.3, 0.)], vec![(0.8, 1f32), (0.3, 0.), (1., 0.5)]) {
        let mut c = base(); c.w = w; c.h = h; c.content = Content::AlphaGrad; c.speed = 9; c.dither = d; c.colors = 24; c.gin = g; items.push(c);
    } }
    x.explore("streamed-or-cached", &items, |c| c.to_string(), streamed);
    let mut b2 = base(); b2.content = Content::AlphaExt; b2.w = 9; b2.h = 7; b2.bg = Bg::Shift; b2.dither = 0.;
    let mut b3 = base(); b3.content = Content::NoiseA; b3.w = 5; b3.h = 150; b3.speed = 7; b3.colors = 40;
    let cfgs = space(&[base(), b2, b3], x.q(1, 2));
    let items: Vec<(Cfg, Rep)> = cfgs.iter().flat_map(|c| REPS.iter().map(move |r| (c.clone(), *r))).collect();
    x.explore("rust-representations", &items, |i| format!("{:?} {}", i.1, i.0), |i| check(&i.0, i.1));
    // every small shape and stride
    let mut items = vec![];
    for w in 1..=x.q(6usize, 9) { for h in 1..=x.q(6usize, 9) { for pad in 0..=x.q(4usize, 7) { for tail in [0, pad, pad + 2] { for borrowed in [false, true] { for sp in [3, 8] {
        let mut c = base(); c.w = w; c.h = h; c.content = Content::NoiseA; c.speed = sp; c.colors = 8;
        items.push((c, if borrowed { StrideBorrowed(pad, tail) } else { Stride(pad, tail) }));
    } } } } } }
    x.explore("strides", &items, |i| format!("{:?} {}", i.1, i.0), |i| check(&i.0, i.1));
    // images too large for cached conversion, and on both sides of the limit
    let mut items = vec![];
    for (w, h) in x.q(vec![(2049usize, 2048usize)], vec![(2048, 2048), (2049, 2048), (2500, 1700), (9000, 500), (70000, 61)]) { for r in x.q(vec![Func, Stride(3, 0), CloneDropped], vec![Func, CloneOfFunc, Borrowed, Stride(3, 0), StrideBorrowed(1, 9), CloneDropped, CloneAfterUse]) { for (sp, d, bg) in x.q(vec![(8, 1f32, Bg::None), (7, 0., Bg::Shift), (6, 0., Bg::None)], vec![(8, 1., Bg::None), (4, 0., Bg::None), (4, 1., Bg::Shift), (2, 1., Bg::None)]) {
        let mut c = base(); c.w = w; c.h = h; c.content = Content::Rgb; c.speed = sp; c.dither = d; c.bg = bg; c.colors = 60; items.push((c, r));
    } } }
    x.explore("large", &items, |i| format!("{:?} {}", i.1, i.0), |i| check(&i.0, i.1));
    #[cfg(not(no_c))]
    {
        use crate::capi::run::CREPS;
        let items: Vec<_> = cfgs.iter().flat_map(|c| CREPS.iter().map(move |r| (c.clone(), *r))).collect();
        x.explore("c-representations", &items, |i| format!("{:?} {}", i.1, i.0), |i| check_c(&i.0, i.1));
        let mut items = vec![];
        for r in CREPS { let mut c = base(); c.w = 2049; c.h = 2048; c.content = Content::Rgb; c.speed = 8; c.colors = 60; items.push((c, *r)); }
        x.explore("c-large", &items, |i| format!("{:?} {}", i.1, i.0), |i| check_c(&i.0, i.1));
    }
}
