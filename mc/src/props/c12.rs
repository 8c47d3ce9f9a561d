//! Histogram operation sequences.
use crate::core::*;
use crate::model::*;
use crate::pipe::*;
use crate::pix::{canon, px, show_pal, Content};
use imagequant::{Attributes, Error, Histogram, HistogramEntry, Image, RGBA};
use std::collections::BTreeMap;

fn e(c: RGBA, n: u32) -> HistogramEntry { HistogramEntry { color: c, count: n } }

/// the alphabet; every operation says what it should do to the model
const OPS: &[&str] = &["image{c1,c2}", "image{c2,c3,transparent}", "colors[c1x3]", "colors[c4x0,c5x1]", "colors[c2x1,c2x2,c6x1]", "fixed c1", "fixed c7", "fixed transparent", "colors[] (refused)", "colors gamma 2 (refused)", "fixed gamma -1 (refused)", "quantize", "image{c8} importance 0", "image{c9} with fixed c3", "colors[transparent x5, hidden rgb]"];
const C: [RGBA; 10] = [px0(0, 0, 0, 255), px0(10, 20, 30, 255), px0(200, 0, 0, 255), px0(0, 250, 8, 128), px0(77, 77, 77, 255), px0(1, 2, 3, 4), px0(255, 255, 255, 255), px0(254, 255, 255, 255), px0(90, 10, 200, 255), px0(3, 140, 60, 254)];
const fn px0(r: u8, g: u8, b: u8, a: u8) -> RGBA { RGBA { r, g, b, a } }

fn apply(o: usize, a: &Attributes, h: &mut Histogram, m: &mut BTreeMap<u32, RGBA>) -> Result<(), String> {
    op();
    let img = |v: Vec<RGBA>| { let n = v.len(); Image::new(a, v, n, 1, 0.).unwrap() };
    let mut add = |v: &[RGBA]| for c in v { m.insert(canon(*c), *c); };
    let ok = |r: Result<(), Error>| r.map_err(|e| format!("{} failed: {e:?}", OPS[o]));
    let refused = |r: Result<(), Error>| match r { Err(Error::ValueOutOfRange) => Ok(()), r => Err(format!("{} returned {r:?}", OPS[o])) };
    match o {
        0 => { add(&[C[1], C[2]]); ok(h.add_image(a, &mut img(vec![C[1], C[2], C[1]]))) },
        1 => { add(&[C[2], C[3], px(0, 0, 0, 0)]); ok(h.add_image(a, &mut img(vec![C[2], px(9, 9, 9, 0), C[3], px(50, 0, 0, 0)]))) },
        2 => { add(&[C[1]]); ok(h.add_colors(&[e(C[1], 3)], 0.)) },
        3 => { add(&[C[5]]); ok(h.add_colors(&[e(C[4], 0), e(C[5], 1)], 0.)) },
        4 => { add(&[C[2], C[6]]); ok(h.add_colors(&[e(C[2], 1), e(C[2], 2), e(C[6], 1)], 0.)) },
        5 => { add(&[C[1]]); ok(h.add_fixed_color(C[1], 0.)) },
        6 => { add(&[C[7]]); ok(h.add_fixed_color(C[7], 0.)) },
        7 => { add(&[px(0, 0, 0, 0)]); ok(h.add_fixed_color(px(3, 2, 1, 0), 0.)) },
        8 => refused(h.add_colors(&[], 0.)),
        9 => refused(h.add_colors(&[e(C[0], 1)], 2.)),
        10 => refused(h.add_fixed_color(C[0], -1.)),
        11 => check(a, h, m),
        12 => { let mut i = img(vec![C[8], C[8]]); i.set_importance_map(vec![0, 0]).unwrap(); ok(h.add_image(a, &mut i)) },
        13 => { add(&[C[9], C[3]]); let mut i = img(vec![C[9]]); i.add_fixed_color(C[3]).unwrap(); ok(h.add_image(a, &mut i)) },
        _ => { add(&[px(0, 0, 0, 0)]); ok(h.add_colors(&[e(px(200, 100, 5, 0), 5)], 0.)) },
    }
}
fn check(a: &Attributes, h: &mut Histogram, m: &BTreeMap<u32, RGBA>) -> Result<(), String> {
    op();
    let r = h.quantize(a);
    trace();
    if m.is_empty() { return match r { Err(Error::Unsupported) => Ok(()), r => Err(format!("empty histogram: {:?}", r.map(|mut r| r.palette_vec()))) }; }
    let mut r = r.map_err(|e| format!("quantize of {} colours: {e:?}", m.len()))?;
    let pal = r.palette_vec();
    let mut got: Vec<u32> = pal.iter().map(|p| canon(*p)).collect();
    got.sort_unstable();
    outcome(hash_bytes(format!("{got:?}").as_bytes()));
    let want: Vec<u32> = m.keys().copied().collect();
    if got != want { return Err(format!("palette {} is not the set of added colours {}", show_pal(&pal), show_pal(&m.values().copied().collect::<Vec<_>>()))); }
    Ok(())
}

fn frozen(c: &Cfg) -> Result<(), String> {
    // palette from the configured picture, then remap unrelated ones
    let p = c.pixels();
    let a = c.attr();
    let mut img = c.image(&a, &p).map_err(|e| format!("{e:?}"))?;
    let mut r = match c.quantize(&a, &mut img, &p) { Ok(r) => r, Err(e) if c.legit("quantize", &format!("{e:?}")) => return Ok(()), Err(e) => return Err(format!("{e:?}")) };
    let before = r.palette_vec();
    for ct in [Content::Noise, Content::AlphaGrad, Content::Flat, c.content] { for (w, h) in [(16, 16), (5, 140)] { for d in [0f32, 1., 0.5] { for imp in [Imp::None, Imp::HalfZero] {
        let mut c2 = c.clone(); c2.content = ct; c2.w = w; c2.h = h; c2.imp = imp; c2.dither = d; c2.via = Via::HistColors;
        let q = c2.pixels();
        let mut i = c2.image(&a, &q).map_err(|e| format!("{e:?}"))?;
        r.set_dithering_level(d).unwrap();
        let mut o = Out::default();
        remap(&mut r, &mut i, &mut o).map_err(|e| format!("remap {e:?}"))?;
        trace();
        if o.pal != before { return Err(format!("palette of a histogram changed by remapping {ct:?} {w}x{h} dither {d}: {} to {}", show_pal(&before), show_pal(&o.pal))); }
        outcome(o.digest());
    } } } }
    Ok(())
}

/// Two distant groups of colours and a limit of two: each entry is the weighted average of its group.
/// One group has ten colours of each of two greens, weighted (wa, wb), supplied in one of several ways.
#[derive(Clone, Debug)]
pub struct Weighted { wa: u32, wb: u32, how: usize, base: usize, speed: i32, unit: u32 }
fn weighted(c: &Weighted) -> Result<(), String> {
    let mut a = Attributes::new();
    a.set_speed(c.speed).unwrap();
    a.set_max_colors(2).unwrap();
    // (r, low green, high green, b) of the judged group; the other group is at the opposite corner
    let (r, g0, g1, b, far) = [(0, 10, 60, 0, px(250, 245, 240, 255)), (230, 190, 240, 220, px(5, 10, 6, 255)), (0, 60, 100, 230, px(250, 200, 10, 255)), (120, 0, 90, 10, px(120, 255, 250, 255))][c.base];
    let x: Vec<RGBA> = (0..10).map(|i| px(r, g0, b + i, 255)).collect();
    let y: Vec<RGBA> = (0..10).map(|i| px(r, g1, b + i, 255)).collect();
    let mut h = Histogram::new(&a);
    for i in 0..10 { op(); h.add_colors(&[e(px(far.r, far.g, far.b.wrapping_sub(i), 255), match c.how { 7 => u32::MAX, 8 => 1 << 25, _ => 50 * c.unit })], 0.).unwrap(); }
    let (wa, wb, u) = (c.wa * c.unit, c.wb * c.unit, c.unit);
    let img = |h: &mut Histogram, v: Vec<RGBA>, m: Vec<u8>| { op(); let n = v.len(); let mut i = Image::new(&a, v, n, 1, 0.).unwrap(); i.set_importance_map(m).unwrap(); h.add_image(&a, &mut i).unwrap(); };
    let list = |v: &[RGBA], n: u32| v.iter().map(|p| e(*p, n)).collect::<Vec<_>>();
    let rep = |v: &[RGBA], n: u32| v.iter().flat_map(|p| vec![*p; n as usize]).collect::<Vec<_>>();
    op();
    match c.how {
        0 => { h.add_colors(&list(&x, wa), 0.).unwrap(); h.add_colors(&list(&y, wb), 0.).unwrap(); },
        1 => { for _ in 0..c.wa { h.add_colors(&list(&x, u), 0.).unwrap(); } h.add_colors(&list(&y, wb), 0.).unwrap(); },
        2 => { for (v, n) in [(&y, wb - u), (&x, wa - u), (&y, u), (&x, u)] { let mut l = list(v, n); l.push(e(far, 0)); h.add_colors(&l, 0.).unwrap(); } },
        3 => { img(&mut h, rep(&x, c.wa), vec![1; 10 * c.wa as usize]); img(&mut h, rep(&y, c.wb), vec![1; 10 * c.wb as usize]); },
        4 => { let mut v = rep(&x, c.wa); v.extend(rep(&y, c.wb - 1)); v.rotate_left(3); let n = v.len(); img(&mut h, v, vec![1; n]); h.add_colors(&list(&y, 1), 0.).unwrap(); },
        5 => { let mut v = x.clone(); v.extend(&y); v.extend(&y); let m = [vec![c.wa as u8; 10], vec![c.wb as u8 - 1; 10], vec![1; 10]].concat(); img(&mut h, v, m); },
        6 => { let mut l = list(&x, wa); l.extend(list(&y, wb)); l.reverse(); h.add_colors(&l, 0.).unwrap(); },
        // a large count and very many small ones
        8 => { for v in [&x, &y] { h.add_colors(&list(v, 1 << 24), 0.).unwrap(); } let (n, v) = if c.wa > c.wb { (c.wa - c.wb, &x) } else { (c.wb - c.wa, &y) }; let l: Vec<_> = (0..4096).flat_map(|_| list(v, 1)).collect(); for _ in 0..(1u64 << 24) * n as u64 / c.wa.min(c.wb) as u64 / 4096 { op(); h.add_colors(&l, 0.).unwrap(); } },
        // sums that don't fit in 32 bits: both greens weigh about the same
        _ => { h.add_colors(&list(&x, u32::MAX), 0.).unwrap(); h.add_colors(&list(&y, u32::MAX), 0.).unwrap(); h.add_colors(&list(if c.wa > 50 { &x } else { &y }, c.wa.min(c.wb)), 0.).unwrap(); },
    }
    op();
    let mut res = h.quantize(&a).map_err(|e| format!("{e:?}"))?;
    let pal = res.palette_vec();
    trace();
    outcome(hash_bytes(format!("{pal:?}").as_bytes()));
    let g = Gam::new(0.);
    let (ma, mb) = if c.how == 7 { (1., 1.) } else { (c.wa as f64, c.wb as f64) };
    let f = (g.lut[g0 as usize] * ma + g.lut[g1 as usize] * mb) / (ma + mb);
    let want = (f.powf(DEFAULT_GAMMA / 0.57) * 256.).min(255.) as i32;
    if !pal.iter().any(|p| (p.g as i32 - want).abs() <= 1 && p.r.abs_diff(r) <= 1 && p.b.abs_diff(b + 5) <= 5) {
        return Err(format!("greens {g0} x{} and {g1} x{} should be averaged to {want}: {}", c.wa, c.wb, show_pal(&pal)));
    }
    Ok(())
}

pub fn run(x: &Ctx) {
    // every sequence
    let n = OPS.len();
    let depth = x.q(4, 5);
    let mut items = vec![];
    for d in 1..=depth { for code in 0..n.pow(d as u32) { items.push((d, code)); } }
    let show = |&(d, code): &(usize, usize)| { let mut c = code; (0..d).map(|_| { let o = c % n; c /= n; OPS[o] }).collect::<Vec<_>>().join(", ") };
    x.explore("sequences", &items, show, |&(d, code)| {
        let mut a = Attributes::new();
        a.set_speed(3 + (code % 5) as i32).unwrap();
        let mut h = Histogram::new(&a);
        let mut m = BTreeMap::new();
        let mut c = code;
        for _ in 0..d { apply(c % n, &a, &mut h, &mut m)?; c /= n; }
        check(&a, &mut h, &m)?;
        // quantizing does not use it up
        check(&a, &mut h, &m)
    });
    // weights
    let mut items = vec![];
    for wa in (2..=98).step_by(x.q(6, 1)) { for how in 0..8 { for base in 0..4 { for unit in [1u32, 1 << 16, 42_000_000] { if (3..6).contains(&how) && unit > 1 { continue; } items.push(Weighted { wa, wb: 100 - wa, how, base, speed: 7, unit }); } } } }
    for (wa, wb, base) in x.q(vec![(4, 5, 0)], vec![(4, 5, 0), (2, 1, 1), (1, 2, 3), (3, 4, 2)]) { items.push(Weighted { wa, wb, how: 8, base, speed: 7, unit: 1 }); }
    x.explore("weights", &items, |c| format!("{c:?}"), weighted);
    // frozen palettes
    let mut bases = vec![];
    for via in [Via::HistImage, Via::HistColors] { for ct in [Content::Photo, Content::AlphaExt] { let mut b = base(); b.via = via; b.content = ct; bases.push(b); } }
    let d: Vec<_> = dims().into_iter().enumerate().filter(|(i, _)| ![7usize, 13].contains(i)).map(|x| x.1).collect();
    x.explore("frozen", &space_of(&bases, &d, 2), |c| c.to_string(), frozen);
    // every number of colours and split between two images
    let mut items = vec![];
    for n in (1..=256usize).step_by(x.q(3, 1)) { for split in [0usize, 1, n / 2, n - 1] { for spd in [2, 6] { items.push((n, split, spd)); } } }
    x.explore("counts", &items, |i| format!("{i:?}"), |&(n, split, spd)| {
        let mut a = Attributes::new(); a.set_speed(spd).unwrap(); a.set_max_colors(n.max(2) as u32).unwrap();
        let c = |i: usize| px((i * 7 % 256) as u8, (i * 3 % 256) as u8, (255 - i) as u8, if i % 5 == 0 { 130 } else { 255 });
        let mut h = Histogram::new(&a);
        let mut m = BTreeMap::new();
        for i in 0..n { m.insert(canon(c(i)), c(i)); }
        let one: Vec<RGBA> = (0..=split.min(n - 1)).map(c).collect();
        let two: Vec<RGBA> = (split.min(n - 1)..n).rev().map(c).collect();
        let l = one.len(); h.add_image(&a, &mut Image::new(&a, one, l, 1, 0.).unwrap()).unwrap();
        let l = two.len(); h.add_image(&a, &mut Image::new(&a, two, 1, l, 0.).unwrap()).unwrap();
        op(); op();
        check(&a, &mut h, &m)
    });
    // long lists
    let mut items = vec![];
    for len in x.q(vec![255usize, 256, 257, 65535, 65536, 65537, 300_000, 1 << 20], vec![255, 256, 257, 65535, 65536, 65537, 300_000, 1 << 20, (1 << 22) + 1, (1 << 24) - 1, 1 << 24]) { for n in [2usize, 200, 256] { for first in [false, true] { items.push((len, n, first)); } } }
    if !x.thorough() { items.push((1 << 24, 256, true)); }
    x.explore("long-lists", &items, |i| format!("{i:?}"), |&(len, n, first)| {
        let a = Attributes::new();
        let c = |i: usize| px((i * 7 % 256) as u8, (i * 3 % 256) as u8, (255 - i) as u8, if i % 5 == 0 { 130 } else { 255 });
        let mut h = Histogram::new(&a);
        let mut m = BTreeMap::new();
        for i in 0..n.min(len) { m.insert(canon(c(i)), c(i)); }
        if first { op(); h.add_colors(&[e(c(0), 7)], 0.).unwrap(); }
        // the last entry is the only one of its colour
        let l: Vec<_> = (0..len).map(|i| e(c(if i + 1 == len { n.min(len) - 1 } else { i % (n.min(len) - 1) }), 1 + i as u32 % 3)).collect();
        op();
        h.add_colors(&l, 0.).map_err(|e| format!("{len} entries refused: {e:?}"))?;
        check(&a, &mut h, &m)
    });
}
