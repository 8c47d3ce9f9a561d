//! Lossless reproduction.
use crate::core::*;
use crate::pipe::*;
use crate::pix::{self, px, Content};
use imagequant::RGBA;

pub fn check_px(c: &Cfg, p: &[RGBA]) -> Result<(), String> {
    let o = run_px(c, p);
    if let Some(e) = o.err { return Err(format!("failed: {e:?}")); }
    trace();
    let s = o.shown();
    let g = crate::model::Gam::new(c.gin);
    let cell = |p: &RGBA| (p.r >> 1, p.g >> 1, p.b >> 1, p.a >> 1);
    let mut cells: std::collections::HashMap<_, Vec<RGBA>> = Default::default();
    if c.speed >= 8 { for q in p { if q.a > 0 { let v = cells.entry(cell(q)).or_default(); if !v.contains(q) { v.push(*q); } } } }
    for (i, (a, b)) in p.iter().zip(&s).enumerate() {
        let ok = if a.a == 0 { b.a == 0 } else if c.speed <= 7 { a == b } else {
            // speeds 8..10 drop the lowest bit before building the histogram: a pixel is shown with a colour at least as
            // close as some pixel equal to it in the higher bits; dithering may choose an adjacent colour
            let f = g.f(*a);
            let bound = cells[&cell(a)].iter().map(|q| crate::model::diff(&f, &g.f(*q))).fold(0., f64::max);
            let d = crate::model::diff(&f, &g.f(*b));
            if c.dither == 0. { d <= bound + 1e-7 } else { d.sqrt() <= 4. * bound.sqrt() + 0.01 }
        };
        if !ok { return Err(format!("pixel {i} is {} but is shown as {} (palette {})", pix::show_px(a), pix::show_px(b), pix::show_pal(&o.pal))); }
    }
    Ok(())
}
fn check(c: &Cfg) -> Result<(), String> {
    let p = c.pixels();
    // only images that fit are in the scope of this property
    let n = pix::distinct(&p).len();
    if n > c.colors as usize { return Ok(()); }
    check_px(c, &p)
}

pub fn run(x: &Ctx) {
    // every image over a small alphabet of difficult colours
    let alpha: Vec<RGBA> = vec![px(0, 0, 0, 255), px(255, 255, 255, 255), px(1, 0, 0, 255), px(200, 100, 50, 128), px(200, 100, 50, 1), px(254, 255, 254, 255), px(77, 0, 3, 0)];
    let shapes: &[(usize, usize)] = x.q(&[(3, 1), (2, 2)], &[(3, 1), (2, 2), (5, 1), (1, 5)]);
    let mut items = vec![];
    for &(w, h) in shapes {
        let n = w * h;
        for code in 0..alpha.len().pow(n as u32) {
            let mut k = code;
            let p: Vec<RGBA> = (0..n).map(|_| { let v = alpha[k % alpha.len()]; k /= alpha.len(); v }).collect();
            for &(speed, d) in &[(4, 1f32), (1, 0.5), (7, 0.), (10, 1.)] { let mut c = base(); c.w = w; c.h = h; c.speed = speed; c.dither = d; c.colors = 256; items.push((c, p.clone())); }
        }
    }
    x.explore("all-small-images", &items, |i| format!("{} pixels {}", i.0, pix::show_pal(&i.1)), |i| check_px(&i.0, &i.1));
    // every channel value, opaque and with every alpha, in several gammas
    let mut items = vec![];
    let gs: Vec<f64> = x.q(vec![0., 1.0, 0.3], vec![0., 1.0, 0.3, 0.1, 0.5556, 0.6250, 0.9]);
    for g in gs { for al in (1..=255u8).rev().step_by(x.q(2, 1)) { for m in 0..3 {
        if m > 0 && al != 255 && al % 16 != 1 { continue; }
        let mut c = base(); c.w = 16; c.h = 16; c.colors = 256; c.gin = g; c.dither = [1., 0., 0.3][m]; c.speed = [4, 7, 2][m];
        let p: Vec<RGBA> = (0..=255u8).map(|v| match m { 0 => px(v, 255 - v, v ^ 0x55, al), 1 => px(0, v, 0, al), _ => px(v, v, v, al) }).collect();
        items.push((c, p));
    } } }
    x.explore("all-channel-values", &items, |i| format!("{} alpha {}", i.0, i.1[0].a), |i| check_px(&i.0, &i.1));
    // images whose number of colours is around the limit
    let mut b = base(); b.colors = 256; b.content = Content::Count(256);
    let cont: Vec<Content> = x.q(vec![2u32, 3, 16, 17, 255, 256], vec![1, 2, 3, 4, 5, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256]).into_iter().flat_map(|n| [Content::Count(n), Content::CountA(n)]).collect();
    let d = vec![
        dim(&cont, |c, v| { c.content = v; c.colors = match v { Content::Count(n) | Content::CountA(n) => n.max(2), _ => 256 }; }),
        dim(&[(16usize, 16usize), (7, 40), (6, 140), (40, 33)], |c, v| { c.w = v.0; c.h = v.1; }),
        dim(&(1..=10).collect::<Vec<_>>(), |c, v| c.speed = v),
        dim(&[1f32, 0.4, 0.], |c, v| c.dither = v),
        dim(&[None, Some((100u8, 100u8)), Some((0, 100))], |c, v| c.quality = v),
    ];
    x.explore("at-the-limit", &product(&b, &d), |c| c.to_string(), check);
    // all other options
    let contents = [Content::Flat, Content::Checker, Content::Few(5), Content::Few(16), Content::AlphaExt, Content::Transparent, Content::Sparse, Content::NearDup, Content::Odd, Content::Count(200)];
    let d = vec![
        dim(&contents, |c, v| c.content = v),
        dim(SHAPES_S, |c, v| { c.w = v.0; c.h = v.1; }),
        dim(&(1..=10).filter(|s| *s != 4).collect::<Vec<_>>(), |c, v| c.speed = v),
        dim(&[true], |c, v| c.last = v),
        dim(&[0f32, 0.5, 0.01], |c, v| c.dither = v),
        dim(&[1.0f64, 0.1, 0.2, 0.75], |c, v| c.gin = v),
        dim(&[Imp::Max, Imp::One], |c, v| c.imp = v),
        dim(&[Via::HistImage, Via::HistColors], |c, v| c.via = v),
        dim(&[1usize, 3, 8], |c, v| c.cpus = v),
        dim(&[Fixed::InImage], |c, v| c.fixed = v),
    ];
    let mut b1 = base(); b1.colors = 256; b1.content = Content::CountA(200);
    let mut b2 = base(); b2.colors = 16; b2.content = Content::Few(16); b2.dither = 0.;
    x.explore("options", &space_of(&[b1, b2], &d, x.q(3, 4)), |c| c.to_string(), check);
    let mut big = vec![];
    for (w, h, s, d) in x.q(vec![(2048, 520, 5, 1.)], vec![(4096, 400, 5, 1.), (4096, 400, 2, 0.5), (2200, 2000, 6, 1.), (2100, 2001, 7, 1.), (2100, 2001, 4, 0.)]) {
        let mut c = base(); c.w = w; c.h = h; c.speed = s; c.dither = d; c.colors = 256; c.content = Content::CountA(200); c.cpus = 8; big.push(c);
    }
    x.explore("large", &big, |c| c.to_string(), check);
    // hundreds of thousands of pixels of the same colour
    let cs = [px(10, 200, 77, 255), px(201, 13, 150, 255), px(33, 33, 99, 128), px(250, 250, 3, 255)];
    let mut items = vec![];
    for (w, h) in x.q(vec![(1201usize, 900usize)], vec![(1201, 900), (1900, 1900)]) { for s in x.q(vec![4, 6], vec![1, 2, 4, 6, 7]) { for n in [1usize, 8] { for k in 1..=4usize { for (band, d) in [(7, 1f32), (300, 0.3)] {
        let mut c = base(); c.w = w; c.h = h; c.speed = s; c.dither = d; c.colors = 16; c.cpus = n; items.push((c, k, band));
    } } } } }
    x.explore("wide-areas", &items, |i| format!("{} colours={} bands of {} rows", i.0, i.1, i.2), |i| {
        let p: Vec<RGBA> = (0..i.0.w * i.0.h).map(|j| cs[j / i.0.w / i.2 % i.1]).collect();
        check_px(&i.0, &p)
    });
}
