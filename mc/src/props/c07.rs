//! Remapping over a background.
use super::c06::{exact_palette, EPS};
use crate::core::*;
use crate::model::*;
use crate::pipe::*;
use crate::pix::{self, px, show_pal, show_px, Content};
use imagequant::{Attributes, Error, Image, RGBA};

/// undithered result `o` of `pixels` over `bg`
pub fn judge(pixels: &[RGBA], bg: &[RGBA], o: &Out, gin: f64, gout: f64) -> Result<(), String> { judge_g(pixels, bg, o, gin, gout, gin) }
fn judge_g(pixels: &[RGBA], bg: &[RGBA], o: &Out, gin: f64, gout: f64, gbg: f64) -> Result<(), String> {
    let gi = Gam::new(gin); let go = Gam::new(gout); let gb = Gam::new(gbg);
    let pal: Vec<F> = o.pal.iter().map(|p| go.f(*p)).collect();
    if !o.pal.iter().any(|p| p.a == 0) { return super::c06::judge(pixels, o, gin, gout); }
    let mut sum = 0.;
    for (i, p) in pixels.iter().enumerate() {
        let f = gi.f(*p);
        let (k, best) = nearest(&f, &pal);
        let bd = diff(&f, &gb.f(bg[i]));
        let got = o.idx[i] as usize;
        if got >= pal.len() { return Err(format!("index {got} outside the palette")); }
        let clear = o.pal[got].a == 0;
        let d = diff(&f, &pal[got]);
        let as_bg = clear && bd <= best * (1. + 1e-4) + EPS;
        let as_pal = d <= best * (1. + 1e-4) + EPS && bd >= best * (1. - 1e-4) - EPS;
        // the background is certainly as close when it is the pixel itself or the colour of the nearest entry
        let tie = (bg[i] == *p && gbg == gin) || (gin == gbg && gin == gout && bg[i] == o.pal[k] && p.a > 0);
        if !as_bg && (!as_pal || tie) {
            return Err(format!("pixel {i} {} over {}: got entry {got} {}; the background is at {bd:.6}, the nearest entry {k} {} at {best:.6}; palette {}", show_px(p), show_px(&bg[i]), show_px(&o.pal[got]), show_px(&o.pal[k]), show_pal(&o.pal)));
        }
        sum += best.min(bd);
    }
    trace();
    let mean = sum / pixels.len() as f64;
    let Some(e) = o.rerr else { return Err("no remapping error".into()) };
    if (from_std(e) - mean).abs() > mean * 1e-3 + EPS { return Err(format!("reported remapping error {e} but the picture over the background has {}", std_mse(mean))); }
    Ok(())
}

struct Case { pal: Vec<RGBA>, p: Vec<RGBA>, bg: Option<Vec<RGBA>>, w: usize, speed: i32, dither: f32, cpus: usize }
impl std::fmt::Display for Case { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    let s = |v: &[RGBA]| v.iter().take(40).map(show_px).collect::<Vec<_>>().join(" ");
    write!(f, "palette {} width {} speed={} dither={} cpus={}\n  pixels {}\n  background {}", show_pal(&self.pal), self.w, self.speed, self.dither, self.cpus, s(&self.p), self.bg.as_ref().map_or(String::from("none"), |b| s(b)))
} }
fn go(c: &Case) -> Result<Out, String> {
    let mut a = Attributes::new();
    a.set_speed(c.speed).unwrap();
    let mut r = exact_palette(&a, &c.pal, 0.).map_err(|e| format!("{e:?}"))?;
    r.set_dithering_level(c.dither).unwrap();
    let mut img = Image::new(&a, c.p.clone(), c.w, c.p.len() / c.w, 0.).unwrap();
    if let Some(b) = &c.bg { op(); img.set_background(Image::new(&a, b.clone(), c.w, c.p.len() / c.w, 0.).unwrap()).map_err(|e| format!("{e:?}"))?; }
    let mut o = Out::default();
    set_cpus(c.cpus);
    remap(&mut r, &mut img, &mut o).map_err(|e| format!("{e:?}"))?;
    outcome(o.digest());
    Ok(o)
}

pub fn run(x: &Ctx) {
    // every (pixel, background) pair over an alphabet, for every small palette
    let al = [px(0, 0, 0, 255), px(255, 255, 255, 255), px(0, 0, 0, 0), px(255, 0, 0, 255), px(250, 6, 0, 255), px(0, 128, 255, 255), px(0, 128, 255, 128), px(9, 9, 9, 1), px(127, 127, 127, 255), px(128, 126, 127, 255), px(40, 200, 90, 255), px(255, 255, 255, 10)];
    let (mut p, mut bg) = (vec![], vec![]);
    for a in al { for b in al { p.push(a); bg.push(b); } }
    let palal = [px(0, 0, 0, 0), px(0, 0, 0, 255), px(255, 255, 255, 255), px(255, 0, 0, 255), px(130, 130, 130, 255), px(0, 120, 250, 128), px(30, 210, 99, 255), px(9, 9, 9, 1)];
    let mut items = vec![];
    for set in 1..(1usize << palal.len()) {
        if set.count_ones() > x.q(4, 8) { continue; }
        let pal: Vec<RGBA> = (0..palal.len()).filter(|i| set >> i & 1 == 1).map(|i| palal[i]).collect();
        for speed in [1, 5, 10] { items.push(Case { pal: pal.clone(), p: p.clone(), bg: Some(bg.clone()), w: al.len(), speed, dither: 0., cpus: 2 }); }
    }
    x.explore("pixel-background-pairs", &items, |c| c.to_string(), |c| judge(&c.p, c.bg.as_ref().unwrap(), &go(c)?, 0., 0.));
    // background of another gamma, and backgrounds that have been used, cloned or generated before
    let pal = vec![px(0, 0, 0, 0), px(0, 0, 0, 255), px(255, 255, 255, 255), px(255, 0, 0, 255), px(130, 130, 130, 255), px(30, 210, 99, 255)];
    let gs = x.q(vec![0f64, 0.3, 0.9], vec![0f64, 0.2, 0.3, 0.45455, 0.6, 0.9, 1.]);
    let mut items = vec![];
    for gin in &gs { for gbg in &gs { for gout in [0f64, 0.45455, 0.7] { for how in 0..5 { for speed in [1, 5, 10] { items.push((*gin, *gbg, gout, how, speed)); } } } } }
    x.explore("background-gamma", &items, |c| format!("gamma {} over {} to {} background {} speed {}", c.0, c.1, c.2, ["plain", "remapped before", "clone", "rows from a callback", "with map and fixed colours"][c.3], c.4), |&(gin, gbg, gout, how, speed)| {
        let mut a = Attributes::new();
        a.set_speed(speed).unwrap();
        let h = p.len() / al.len();
        let mut r = exact_palette(&a, &pal, gout).map_err(|e| format!("{e:?}"))?;
        r.set_dithering_level(0.).unwrap();
        let mut img = Image::new(&a, p.clone(), al.len(), h, gin).unwrap();
        let data = bg.clone(); let w = al.len();
        let mut b = if how == 3 { unsafe { Image::new_fn(&a, move |row, y| for (i, o) in row.iter_mut().enumerate() { o.write(data[y * w + i]); }, w, h, gbg) } } else { Image::new(&a, bg.clone(), w, h, gbg) }.unwrap();
        match how {
            1 => { op(); let mut r = a.quantize(&mut b).map_err(|e| format!("{e:?}"))?; r.remapped(&mut b).map_err(|e| format!("{e:?}"))?; },
            2 => { op(); b = b.clone(); },
            4 => { op(); b.set_importance_map(vec![0; w * h]).unwrap(); b.add_fixed_color(px(1, 2, 3, 0)).unwrap(); },
            _ => {},
        }
        op();
        img.set_background(b).map_err(|e| format!("{e:?}"))?;
        let mut o = Out::default();
        set_cpus(2);
        remap(&mut r, &mut img, &mut o).map_err(|e| format!("{e:?}"))?;
        outcome(o.digest());
        judge_g(&p, &bg, &o, gin, if gout > 0. { gout } else { 0.45455 }, gbg)
    });
    // whole pipeline
    let bgs = [Bg::Same, Bg::Flat, Bg::Transp, Bg::Shift, Bg::Alpha];
    let mut bases = vec![];
    for b in bgs { for ct in [Content::Photo, Content::AlphaExt, Content::Sparse] { let mut c = base(); c.bg = b; c.dither = 0.; c.content = ct; if ct == Content::Photo { c.fixed = Fixed::Transp; } bases.push(c); } }
    let d: Vec<_> = dims().into_iter().enumerate().filter(|(i, _)| ![7usize, 9, 12].contains(i)).map(|x| x.1).collect();
    x.explore("deviations", &space_of(&bases, &d, x.q(2, 3)), |c| c.to_string(), |c| {
        let p = c.pixels();
        let o = run_px(c, &p);
        if let Some((s, e)) = &o.err { return if c.legit(s, e) { Ok(()) } else { Err(format!("{s} failed: {e}")) }; }
        judge(&p, &bg_pixels(c.bg, &p, c.w).unwrap(), &o, c.gin, o.gamma)
    });
    // with dithering: every assignment of {same as background, palette colours} to the pixels of a small image is exact
    let pal = vec![px(0, 0, 0, 0), px(255, 0, 0, 255), px(20, 90, 240, 255)];
    let (w, h) = x.q((3, 3), (5, 2));
    let n = w * h;
    let mut items = vec![];
    for code in 0..3usize.pow(n as u32) { for speed in x.q(vec![1, 5, 9], vec![1, 3, 5, 7, 9]) { for dither in [1f32, 0.4] { for palette_bg in [false, true] {
        // every third pixel of the second background is a palette colour
        let bg: Vec<RGBA> = (0..n).map(|i| if palette_bg && i % 3 == 1 { pal[1 + i / 3 % 2] } else { px(60 * (i % 4) as u8, 100 + 20 * (i / 4) as u8, 30, 255) }).collect();
        let mut c = code;
        let p: Vec<RGBA> = (0..n).map(|i| { let k = c % 3; c /= 3; if k == 0 { bg[i] } else { pal[k] } }).collect();
        items.push(Case { pal: pal.clone(), p, bg: Some(bg), w, speed, dither, cpus: 2 });
    } } } }
    let exact = |c: &Case| -> Result<(), String> {
        let o = go(c)?;
        trace();
        for (i, s) in o.shown().iter().enumerate() {
            let b = c.bg.as_ref().unwrap()[i];
            let v = if s.a == 0 { b } else { *s };
            if v != c.p[i] { return Err(format!("pixel {i} {} is shown as {} over {}", show_px(&c.p[i]), show_px(s), show_px(&b))); }
            if b == c.p[i] && s.a != 0 { return Err(format!("pixel {i} {} is unchanged, but not shown as transparent", show_px(&c.p[i]))); }
        }
        Ok(())
    };
    x.explore("dithered-exact", &items, |c| c.to_string(), exact);
    // the same in large images, across thread boundaries
    let mut items = vec![];
    for (w, h) in x.q(vec![(33usize, 20usize), (7, 300), (64, 64), (3, 520)], vec![(33, 20), (7, 300), (64, 64), (3, 520), (2000, 700), (129, 129), (1, 1000)]) { for kind in 0..5 { for speed in [1, 5, 9] { for dither in [1f32, 0.4] { for cpus in [1usize, 8] {
        let mut bg = pix::make(Content::Photo, w, h);
        if kind == 4 { for (i, b) in bg.iter_mut().enumerate() { if i % 5 < 2 { *b = pal[1 + i % 2]; } } }
        let p = (0..w * h).map(|i| match kind { 0 => bg[i], 1 => if i % w * 2 < w { bg[i] } else { pal[1] }, 2 => if (i / w / 5) % 2 == 0 { pal[1 + i % 2] } else { bg[i] }, _ => if pix::lcg(i as u64) % 3 == 0 { pal[2] } else { bg[i] } }).collect();
        items.push(Case { pal: pal.clone(), p, bg: Some(bg), w, speed, dither, cpus });
    } } } } }
    x.explore("dithered-exact-large", &items, |c| c.to_string(), exact);
    // one changed pixel leaves everything above its row exact
    let mut items = vec![];
    for (w, h) in [(12usize, 12usize), (5, 140)] { for y in (0..h).step_by(x.q(2, 1)) { for xx in [0, w / 2, w - 1] { for speed in [1, 5, 9] {
        let bg = pix::make(Content::Photo, w, h);
        let mut p = bg.clone(); p[y * w + xx] = px(0, 255, 100, 255);
        items.push((Case { pal: pal.clone(), p, bg: Some(bg), w, speed, dither: 1., cpus: 4 }, y));
    } } } }
    x.explore("dithered-one-change", &items, |c| c.0.to_string(), |(c, y)| {
        let o = go(c)?;
        trace();
        for (i, s) in o.shown().iter().enumerate().take(y * c.w) { if s.a != 0 { return Err(format!("pixel {i}, above the change in row {y}, is shown as {}", show_px(s))); } }
        Ok(())
    });
    // a palette without a fully transparent colour: the background has no effect
    let mut items = vec![];
    for ct in ALL_CONTENT { for bgk in bgs { for pl in 0..3 { for speed in [1, 4, 6, 8] { for dither in [0f32, 1.] { for (w, h) in [(16usize, 16usize), (5, 133)] { items.push((*ct, bgk, pl, speed, dither, w, h)); } } } } } }
    x.explore("no-transparent-entry", &items, |c| format!("{c:?}"), |&(ct, bgk, pl, speed, dither, w, h)| {
        let p = pix::make(ct, w, h);
        let pal = match pl { 0 => vec![px(0, 0, 0, 255), px(255, 255, 255, 255)], 1 => vec![px(3, 2, 1, 2), px(200, 0, 0, 255), px(0, 90, 0, 255)], _ => super::c06::families(9)[1].1.clone() };
        let b = bg_pixels(bgk, &p, w);
        let with = go(&Case { pal: pal.clone(), p: p.clone(), bg: b, w, speed, dither, cpus: 3 })?;
        let without = go(&Case { pal, p, bg: None, w, speed, dither, cpus: 3 })?;
        trace();
        if let Some(d) = with.differs(&without, true) { return Err(format!("the background changes the result: {d}")); }
        Ok(())
    });
    // refusals
    let sh: Vec<(usize, usize)> = (1..=3).flat_map(|a| (1..=3).map(move |b| (a, b))).collect();
    let mut items = vec![];
    for a in &sh { for b in &sh { for nested in [false, true] { items.push((*a, *b, nested)); } } }
    x.explore("refusal", &items, |c| format!("{c:?}"), |&(a, b, nested)| {
        let at = Attributes::new();
        let im = |s: (usize, usize)| Image::new(&at, vec![px(1, 2, 3, 255); s.0 * s.1], s.0, s.1, 0.).unwrap();
        let mut i = im(a);
        let mut bg = im(b);
        if nested { bg.set_background(im(b)).map_err(|e| format!("{e:?}"))?; }
        op();
        trace();
        let r = i.set_background(bg);
        let want = if nested { Err(Error::Unsupported) } else if a != b { Err(Error::BufferTooSmall) } else { Ok(()) };
        if format!("{r:?}") != format!("{want:?}") && !(nested && a != b && r.is_err()) { return Err(format!("set_background returned {r:?} instead of {want:?}")); }
        Ok(())
    });
}
