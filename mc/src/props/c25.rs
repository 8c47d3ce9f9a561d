//! Palette quality against a plain median cut.
use crate::core::*;
use crate::model::*;
use crate::pipe::*;
use crate::pix::{lcg, px, sep, show_pal, show_px, Content};
use imagequant::RGBA;

/// actual error of the undithered output
fn actual(c: &Cfg, p: &[RGBA]) -> Result<(f64, Out), String> {
    let o = run_px(c, p);
    if let Some((s, e)) = &o.err { return Err(format!("{s} failed: {e}")); }
    let g = Gam::new(c.gin);
    trace();
    Ok((mean_error(p, &o.pal, &o.idx, &g), o))
}
/// rounding of the palette to 8 bits
const FLOOR: f64 = 4e-5;
fn cal(what: &str, r: f64, s: String) { if std::env::var("CAL").is_ok() { println!("CAL {what} {r:.3} {s}"); } }

/// the images: a picture kind, its size
fn picture(k: usize, w: usize, h: usize) -> Vec<RGBA> {
    (0..w * h).map(|i| {
        let (x, y) = (i % w, i / w);
        let s = |v: usize, m: usize| (v * 255 / (m - 1).max(1)) as u8;
        let r = lcg(i as u64 + 1000 * k as u64);
        match k {
            // one dominant area and a small colourful detail
            0 => if x * 4 < w && y * 4 < h { px(r as u8, (r >> 8) as u8, 0, 255) } else { px(20, 20 + (r % 9) as u8, 30, 255) },
            // soft gradient with noise
            1 => px(s(x, w) / 2 + (r % 8) as u8, s(y, h) / 2 + 60, 200 - s(x, w) / 2, 255),
            // translucent vignette
            2 => { let (dx, dy) = (x as f64 / w as f64 - 0.5, y as f64 / h as f64 - 0.5); px(200, s(x, w), 90, (255. * (1. - 2. * (dx * dx + dy * dy)).max(0.)) as u8) },
            // dark photo with a few highlights
            3 => if r % 50 == 0 { px(250, 240, 200, 255) } else { px((r >> 8) as u8 % 40, (r >> 16) as u8 % 30, (r >> 24) as u8 % 50, 255) },
            // saturated ramps
            4 => { let v = s(x, w); match y * 3 / h { 0 => px(v, 0, 0, 255), 1 => px(0, v, 0, 255), _ => px(0, 0, v, 255) } },
            // sprites on a transparent area
            5 => if (x / 8 + y / 8) % 3 == 0 { px((x * 7) as u8, (y * 5) as u8, (r % 30) as u8 + 100, 255) } else { px(0, 0, 0, 0) },
            // many greys and one thin coloured line
            6 => if y == h / 2 { px(255, (x * 3) as u8, 0, 255) } else { let v = (s(x, w) as u32 + (r % 16) as u32).min(255) as u8; px(v, v, v, 255) },
            // a soft black shadow beside something colourful
            7 => if x * 4 < w { px(90 + (r % 24) as u8, 120 + (y % 20) as u8, 60, 255) } else { px(0, 0, 0, 255 - s(x, w) / 2 - s(y, h) / 2) },
            // black shadow over a bright and a dark plane
            _ => match y * 4 / h { 0 => px(200 + (r % 16) as u8, 180, 40, 255), 1 => px(10, 12, 40 + (r % 20) as u8, 255), _ => px(0, 0, 0, (x * 255 / w) as u8 / 2 + (y * 127 / h) as u8) },
        }
    }).collect()
}
fn all(c: &Cfg, k: usize) -> Vec<RGBA> { if k < 100 { picture(k, c.w, c.h) } else { c.pixels() } }

pub fn run(x: &Ctx) {
    let contents = [Content::Photo, Content::Noise, Content::NoiseA, Content::Rgb, Content::Gray, Content::AlphaGrad, Content::Clusters(6), Content::Clusters(12), Content::SemiNoise, Content::Dark, Content::Bright, Content::Few(40), Content::CountA(200), Content::Count(257), Content::Blob, Content::Sparse, Content::NearDup];
    let mut pics: Vec<(usize, Content)> = (0..9).map(|k| (k, Content::Photo)).collect();
    pics.extend(contents.iter().map(|c| (100, *c)));
    let shapes = x.q(vec![(32usize, 32usize), (64, 48), (17, 90), (128, 140)], vec![(32, 32), (64, 48), (17, 90), (128, 140), (256, 200), (400, 11)]);
    let limits = x.q(vec![2u32, 4, 8, 16, 32, 64, 128, 256], vec![2, 3, 4, 5, 6, 8, 11, 16, 23, 32, 45, 64, 91, 128, 181, 256]);
    let mut items = vec![];
    for (k, ct) in &pics { for sh in &shapes { items.push((*k, *ct, *sh)); } }
    // every limit and every speed for each picture, and comparisons between them
    x.explore("quality", &items, |i| format!("{i:?}"), |(k, ct, (w, h))| {
        let mut b = base(); b.w = *w; b.h = *h; b.content = *ct; b.dither = 0.;
        let p = all(&b, *k);
        let g = Gam::new(0.);
        let mut table = vec![vec![0f64; limits.len()]; 11];
        for (j, &colors) in limits.iter().enumerate() {
            let refr = reference_median_cut(&p, colors as usize, &g);
            for speed in 1..=10 {
                let mut c = b.clone(); c.colors = colors; c.speed = speed;
                let (e, o) = actual(&c, &p)?;
                table[speed as usize][j] = e;
                let ratio = e / refr.max(FLOOR);
                cal(if speed <= 7 { "ref" } else { "refast" }, ratio, format!("{k} {c} {e:.6}"));
                if ratio > bound(colors, speed) { return Err(format!("{c}: error {e:.6} of the output is {ratio:.2} times the {refr:.6} of a plain median cut; palette {}", show_pal(&o.pal))); }
            }
        }
        for s in 1..=10usize { for j in 1..limits.len() { for i in 0..j {
            let r = table[s][j] / table[s][i].max(FLOOR);
            cal("limit", r, format!("{k} {ct:?} {w}x{h} speed {s} {} {}", limits[i], limits[j]));
            if limits[i] >= 4 && limits[j] >= 2 * limits[i] && r > 1.2 { return Err(format!("speed {s}: {} colours give the error {:.6}, {} colours {:.6}", limits[j], table[s][j], limits[i], table[s][i])); }
        } } }
        for j in 0..limits.len() { for s in 2..=10usize { for t in 1..s {
            let r = table[t][j] / table[s][j].max(FLOOR);
            cal("speed", r, format!("{k} {ct:?} {w}x{h} colors {} speed {t} {s}", limits[j]));
            if r > if limits[j] >= 16 { 1.5 } else if s <= 6 && limits[j] >= 8 { 2.5 } else { 1e9 } { return Err(format!("{} colours: speed {t} gives the error {:.6}, speed {s} {:.6}", limits[j], table[t][j], table[s][j])); }
        } } }
        Ok(())
    });
    // the whole family at once: single pictures may be unlucky, the average is not
    let mut items = vec![];
    for sh in &shapes { for speed in 1..=10 { items.push((*sh, speed)); } }
    x.explore("average", &items, |i| format!("{i:?}"), |&((w, h), speed)| {
        let g = Gam::new(0.);
        let (mut sum, mut n) = (0., 0.);
        for (k, ct) in &pics { for &colors in &limits {
            if colors < 8 { continue; }
            let mut c = base(); c.w = w; c.h = h; c.content = *ct; c.dither = 0.; c.colors = colors; c.speed = speed;
            let p = all(&c, *k);
            let refr = reference_median_cut(&p, colors as usize, &g);
            if refr < FLOOR { continue; }
            let (e, _) = actual(&c, &p)?;
            sum += (e.max(FLOOR) / refr).min(3.).ln(); n += 1.;
        } }
        let m = (sum / n as f64).exp();
        cal("mean", m, format!("{w}x{h} {speed}"));
        let bound = MEAN[speed as usize - 1];
        if m > bound { return Err(format!("speed {speed}: errors are on average {m:.3} times those of a plain median cut, more than {bound}")); }
        Ok(())
    });
    // groups of colours
    let mut items = vec![];
    for n in x.q(vec![2usize, 3, 5, 8, 12, 16], (2..=16).collect()) { for spread in [0u8, 2, 5] { for skew in 0..3 { for speed in 1..=10 { for mult in [2u32, 3, 4, 8] { if mult == 2 && skew != 0 { continue; } for alpha in [false, true] { for via in [Via::Image, Via::HistColors] { items.push((n, spread, skew, speed, mult, alpha, via)); } } } } } } }
    x.explore("groups", &items, |i| format!("{i:?}"), |&(n, spread, skew, speed, mult, alpha, via)| {
        let mut c = base(); c.w = 32; c.h = 32; c.dither = 0.; c.speed = speed; c.colors = (n as u32 * mult).clamp(2, 256); c.via = via;
        let center = |i: usize| { let mut p = sep(i); if alpha && i % 4 == 3 { p.a = 120; } p };
        let p: Vec<RGBA> = (0..1024usize).map(|i| {
            let r = lcg(i as u64);
            // even shares, falling shares, one group with only four pixels
            let k = match skew { 0 => i % n, 1 => { let v = (r % 1024) as usize; (v * v / 1024) * n / 1024 }, _ => if i < 4 { 0 } else { 1 + i % (n - 1).max(1) } }.min(n - 1);
            let b = center(k);
            let j = |v: u8, s: u32| { let d = if spread == 0 { 0 } else { ((r >> s) % (spread as u64 + 1)) as u8 }; if v > 128 { v - d } else { v + d } };
            px(j(b.r, 32), j(b.g, 40), j(b.b, 48), b.a)
        }).collect();
        let (_, o) = actual(&c, &p)?;
        let g = Gam::new(0.);
        let s = o.shown();
        // every pixel is shown by a colour of its own group
        for (i, q) in p.iter().enumerate() {
            let f = g.f(s[i]);
            let own = (0..n).map(|k| (k, diff(&g.f(center(k)), &g.f(*q)))).min_by(|a, b| a.1.partial_cmp(&b.1).unwrap()).unwrap().0;
            let shown = (0..n).map(|k| (k, diff(&g.f(center(k)), &f))).min_by(|a, b| a.1.partial_cmp(&b.1).unwrap()).unwrap().0;
            if own != shown { cal("group", 0., format!("n={n} spread={spread} skew={skew} speed={speed} mult={mult} {alpha} {via:?}")); return Err(format!("pixel {i} {} of group {} is shown as {}, closer to group {}; palette {}", show_px(q), show_px(&center(own)), show_px(&s[i]), show_px(&center(shown)), show_pal(&o.pal))); }
        }
        Ok(())
    });
}
/// largest accepted ratio to the reference's error
fn bound(colors: u32, speed: i32) -> f64 { match (colors, speed) { (16.., 1..=6) => 1.5, (8.., 1..=6) => 2.5, (32.., _) => 2., (16.., _) => 3., _ => 1e9 } }
const MEAN: [f64; 10] = [0.9, 0.9, 0.9, 0.9, 0.9, 0.9, 0.95, 1.05, 1.05, 1.05];
