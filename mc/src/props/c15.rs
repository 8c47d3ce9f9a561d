//! Histories of one result object.
use crate::core::*;
use crate::pipe::*;
use crate::pix::{show_pal, Content};
use imagequant::{Attributes, ControlFlow, Error, Image, QuantizationResult, RGBA};
use std::collections::HashMap;
use std::mem::MaybeUninit;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

const OPS: &[&str] = &["remap A", "remap B", "remap C over background", "dither 0", "dither 1", "dither 0.5", "dither out of range", "gamma 0.3", "gamma back", "gamma out of range", "replace by clone", "read palette", "remap into short buffer", "aborted remap of B", "remap of the kept image without dithering", "dithered remap of the kept image", "remap of B aborted at the second notification", "remap of B aborted at the third notification"];

/// the pictures that are remapped
fn picture(k: usize, c: &Cfg) -> Cfg {
    let mut p = c.clone();
    p.via = Via::HistColors; // no fixed colours on pictures that are only remapped
    p.fixed = Fixed::None; p.imp = Imp::None; p.bg = Bg::None;
    match k {
        0 => {},
        1 => { p.w = 5; p.h = 7; p.content = Content::AlphaExt; },
        2 => { p.content = Content::Photo; p.bg = Bg::Shift; },
        _ => { p.w = 9; p.h = 6; p.content = Content::Rgb; },
    }
    p
}
fn img(k: usize, c: &Cfg, a: &Attributes) -> Image<'static> { let p = picture(k, c); let px = p.pixels(); p.image(a, &px).unwrap() }
fn quantized(c: &Cfg) -> Option<(Attributes, QuantizationResult)> {
    let a = c.attr();
    let p = c.pixels();
    let mut i = c.image(&a, &p).unwrap();
    let r = c.quantize(&a, &mut i, &p).ok()?;
    Some((a, r))
}
type Key = (usize, u32, u64);
pub struct Table { c: Cfg, memo: Mutex<HashMap<Key, Out>>, base: Mutex<HashMap<u64, Vec<RGBA>>>, g0: f64, qerr: Option<f64> }
impl Table {
    fn new(c: &Cfg) -> Option<Self> { let (_, r) = quantized(c)?; Some(Table { c: c.clone(), memo: Default::default(), base: Default::default(), g0: r.output_gamma(), qerr: r.quantization_error() }) }
    /// what remapping picture k gives with a result that was never used for anything else
    fn get(&self, k: usize, d: f32, g: f64) -> Out {
        let key = (k, d.to_bits(), g.to_bits());
        if let Some(o) = self.memo.lock().unwrap().get(&key) { return o.clone(); }
        let (a, mut r) = quantized(&self.c).unwrap();
        r.set_dithering_level(d).unwrap();
        if g != self.g0 { r.set_output_gamma(g).unwrap(); }
        let mut o = Out::default();
        let mut i = img(k.min(3), &self.c, &a);
        // the kept picture with the dithering map from its first dithered remap (made by another result)
        if k == 4 { let mut other = quantized(&self.c).unwrap().1; remap(&mut other, &mut i, &mut o).unwrap(); o = Out::default(); }
        remap(&mut r, &mut i, &mut o).unwrap();
        self.memo.lock().unwrap().insert(key, o.clone());
        o
    }
    fn palette(&self, g: f64) -> Vec<RGBA> {
        if let Some(o) = self.base.lock().unwrap().get(&g.to_bits()) { return o.clone(); }
        let (_, mut r) = quantized(&self.c).unwrap();
        if g != self.g0 { r.set_output_gamma(g).unwrap(); }
        let p = r.palette_vec();
        self.base.lock().unwrap().insert(g.to_bits(), p.clone());
        p
    }
}

fn run_seq(t: &Table, seq: &[usize]) -> Result<(), String> {
    let c = &t.c;
    let (a, mut r) = quantized(c).ok_or("quantization failed")?;
    let (mut d, mut g) = (1f32, t.g0);
    // palette/error that must be visible now, or any of them
    let mut shown: Option<Out> = None;
    let mut loose = false;
    let mut kept: Option<(Image<'static>, bool)> = None;
    for &o in seq {
        op();
        let mut remapped = |r: &mut QuantizationResult, i: &mut Image<'_>, k: usize, d: f32| -> Result<Out, String> {
            let mut got = Out::default();
            remap(r, i, &mut got).map_err(|e| format!("{}: {e:?}", OPS[o]))?;
            let want = t.get(k, d, g);
            trace();
            if let Some(m) = got.differs(&want, true) { return Err(format!("{}: differs from the same remap with an unused result: {m}", OPS[o])); }
            outcome(got.digest());
            Ok(want)
        };
        match o {
            0..=2 => { shown = Some(remapped(&mut r, &mut img(o, c, &a), o, d)?); loose = false; },
            3..=5 => { d = [0., 1., 0.5][o - 3]; r.set_dithering_level(d).map_err(|e| format!("{e:?}"))?; loose = true; },
            6 => { for v in [2f32, -0.1, f32::NAN] { if r.set_dithering_level(v) != Err(Error::ValueOutOfRange) { return Err(format!("dithering level {v} accepted")); } } },
            7 | 8 => { g = if o == 7 { 0.3 } else { t.g0 }; if g < 1. { r.set_output_gamma(g).map_err(|e| format!("{e:?}"))?; } shown = None; loose = false; },
            9 => { for v in [0f64, -1., 1.5, f64::NAN] { if r.set_output_gamma(v) != Err(Error::ValueOutOfRange) { return Err(format!("gamma {v} accepted")); } } },
            10 => { let n = r.clone(); r = n; },
            11 => { let _ = r.palette(); },
            12 => { let mut b = vec![MaybeUninit::new(0xA5u8); 5 * 7 - 1]; let e = r.remap_into(&mut img(1, c, &a), &mut b); if e != Err(Error::BufferTooSmall) { return Err(format!("short buffer: {e:?}")); } },
            13 | 16 | 17 => {
                let at = o.saturating_sub(15);
                let n = Arc::new(AtomicUsize::new(0));
                let m = n.clone();
                r.set_progress_callback(move |_| if m.fetch_add(1, SeqCst) == at { ControlFlow::Break } else { ControlFlow::Continue });
                let mut i = img(1, c, &a);
                let mut got = Out::default();
                let e = remap(&mut r, &mut i, &mut got);
                r.set_progress_callback(|_| ControlFlow::Continue);
                if n.load(SeqCst) > at { if e != Err(Error::Aborted) { return Err(format!("aborted remap: {e:?}")); } }
                else {
                    // it has finished before that notification
                    e.map_err(|e| format!("{}: {e:?}", OPS[o]))?;
                    let want = t.get(1, d, g);
                    if let Some(m) = got.differs(&want, true) { return Err(format!("{}: differs from the same remap with an unused result: {m}", OPS[o])); }
                    shown = Some(want); loose = false;
                }
            },
            14 => {
                d = 0.; r.set_dithering_level(0.).unwrap();
                let k = kept.get_or_insert_with(|| (img(3, c, &a), false));
                shown = Some(remapped(&mut r, &mut k.0, 3, 0.)?); loose = false;
            },
            _ => {
                // the dithering map is kept in the image
                if d == 0. { continue; }
                let k = kept.get_or_insert_with(|| (img(3, c, &a), false));
                let again = std::mem::replace(&mut k.1, true);
                shown = Some(remapped(&mut r, &mut k.0, if again { 4 } else { 3 }, d)?);
                loose = false;
            },
        }
        if r.output_gamma() != g { return Err(format!("after {}: output gamma {} instead of {g}", OPS[o], r.output_gamma())); }
        if !crate::pipe::near(r.quantization_error(), t.qerr) { return Err(format!("after {}: quantization error {:?} instead of {:?}", OPS[o], r.quantization_error(), t.qerr)); }
        let (pal, err) = (r.palette_vec(), r.remapping_error());
        let base = t.palette(g);
        let ok_shown = shown.as_ref().map_or(false, |s| s.pal == pal && s.rerr == err);
        let ok_base = (shown.is_none() || loose) && pal == base;
        if !ok_shown && !ok_base { return Err(format!("after {}: palette {} and error {err:?}, expected {}", OPS[o], show_pal(&pal), shown.map_or(show_pal(&base), |s| format!("{} {:?}", show_pal(&s.pal), s.rerr)))); }
    }
    Ok(())
}

pub fn run(x: &Ctx) {
    let mut cfgs = vec![];
    for (ct, speed) in [(Content::Photo, 5), (Content::AlphaExt, 3), (Content::Photo, 8), (Content::Sparse, 1), (Content::Few(5), 4)] {
        let mut c = base(); c.w = 8; c.h = 8; c.content = ct; c.speed = speed; c.colors = 6;
        cfgs.push(c.clone());
        if speed == 5 { c.via = Via::HistImage; cfgs.push(c.clone()); c.via = Via::Image; c.post = 2; cfgs.push(c.clone()); c.post = 0; c.gin = 0.7; cfgs.push(c.clone()); c.gin = 0.; c.fixed = Fixed::Semi; cfgs.push(c.clone()); c.last = true; c.fixed = Fixed::Transp; cfgs.push(c); }
    }
    // tall pictures, dithered in one piece (speed 1) or in chunks
    for speed in [1, 5, 9] { let mut c = base(); c.w = 3; c.h = 150; c.content = Content::Rgb; c.speed = speed; c.colors = 6; cfgs.push(c); }
    let depth = x.q(3, 4);
    let n = OPS.len();
    for (ci, c) in cfgs.iter().enumerate() {
        let Some(t) = Table::new(c) else { x.fail_at(format!("seq{ci}"), format!("{c}: quantization failed")); continue };
        let depth = if c.h > 128 { depth - 1 } else if ci < x.q(4, 2) { depth + 1 } else { depth };
        let mut items = vec![];
        for d in 1..=depth { for code in 0..n.pow(d as u32) { items.push((d, code)); } }
        let dec = |&(d, code): &(usize, usize)| { let mut c = code; (0..d).map(|_| { let o = c % n; c /= n; o }).collect::<Vec<_>>() };
        x.explore(&format!("seq{ci}"), &items, |i| format!("{c}: {}", dec(i).iter().map(|o| OPS[*o]).collect::<Vec<_>>().join(", ")), |i| run_seq(&t, &dec(i)));
    }
}
