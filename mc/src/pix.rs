//! Enumerated image contents and shapes.
use imagequant::RGBA;
pub type RGBAx = RGBA;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Content {
    Flat, TwoTone, Gray, Rgb, Noise, NoiseA, AlphaGrad, Sparse,
    /// n well separated colours
    Few(u16),
    /// n distinct neighbouring opaque colours
    Count(u32),
    Transparent, Checker, Photo, NearDup, AlphaExt,
    /// dark colours only / bright colours only / saturated
    Dark, Bright,
    /// n clusters of tightly packed colours
    Clusters(u16),
    /// a flat image with one odd pixel in the last position
    Odd,
    /// big transparent area with invisible RGB noise around an opaque blob
    Blob,
    /// half transparent pixels with many colours
    SemiNoise,
    /// n distinct colours: opaque, translucent and one fully transparent
    CountA(u32),
    /// many alphas, none nearly opaque
    AlphaLow,
}
use Content::*;

pub fn lcg(x: u64) -> u64 { let mut z = x.wrapping_add(0x9E3779B97F4A7C15); z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) }

pub fn px(r: u8, g: u8, b: u8, a: u8) -> RGBA { RGBA { r, g, b, a } }

/// well separated opaque colours
pub fn sep(i: usize) -> RGBA {
    let t = [0u8, 255, 128, 64, 192, 32, 224];
    const P: [(u8, u8, u8); 16] = [(0, 0, 0), (255, 255, 255), (255, 0, 0), (0, 255, 0), (0, 0, 255), (255, 255, 0), (0, 255, 255), (255, 0, 255), (128, 128, 128), (128, 0, 0), (0, 128, 0), (0, 0, 128), (255, 128, 0), (128, 64, 200), (30, 90, 60), (200, 220, 150)];
    if i < 16 { let (r, g, b) = P[i]; px(r, g, b, 255) } else { px(t[i % 7], t[(i / 7) % 7], t[(i / 49) % 7], 255) }
}

pub fn make(c: Content, w: usize, h: usize) -> Vec<RGBA> {
    let n = w * h;
    let f = |i: usize| -> RGBA {
        let (x, y) = (i % w, i / w);
        let s = |v: usize, m: usize| if m <= 1 { 0 } else { (v * 255 / (m - 1)) as u8 };
        match c {
            Flat => px(120, 33, 200, 255),
            TwoTone => if x * 2 < w { px(10, 20, 30, 255) } else { px(240, 200, 100, 255) },
            Gray => { let v = s(i, n); px(v, v, v, 255) },
            Rgb => px(s(x, w), s(y, h), s(x + y, w + h - 1), 255),
            Noise => { let r = lcg(i as u64); px(r as u8, (r >> 8) as u8, (r >> 16) as u8, 255) },
            NoiseA => { let r = lcg(i as u64 + 77); px(r as u8, (r >> 8) as u8, (r >> 16) as u8, (r >> 24) as u8) },
            AlphaGrad => px(s(y, h), 90, 180, s(x, w)),
            Sparse => if lcg(i as u64 + 5) % 7 == 0 { sep(i % 5) } else { px((i % 256) as u8, 7, 9, 0) },
            Few(k) => sep((lcg(i as u64 + 3) % k as u64) as usize % k as usize),
            Count(k) => { let j = (i as u32) % k; px((j & 255) as u8, ((j >> 8) & 255) as u8, ((j * 7) & 255) as u8, 255) },
            Transparent => { let r = lcg(i as u64); px(r as u8, (r >> 8) as u8, (r >> 16) as u8, 0) },
            Checker => if (x + y) % 2 == 0 { px(255, 255, 255, 255) } else { px(0, 0, 0, 255) },
            Photo => { let r = lcg(i as u64 + 9); let q = |b: u8, k: u32| b.saturating_add(((r >> k) & 15) as u8); px(q(s(x, w) / 2 + 40, 0), q(s(y, h) / 3 + 60, 8), q(s(x * y, w * h) / 4 + 30, 16), 255) },
            NearDup => { let r = lcg(i as u64); px(100 + (r % 3) as u8, 150 + ((r >> 8) % 3) as u8, 200 + ((r >> 16) % 3) as u8, 255) },
            AlphaExt => { let a = [0u8, 1, 2, 127, 128, 253, 254, 255][i % 8]; px((i * 31 % 256) as u8, (i * 17 % 256) as u8, (i * 5 % 256) as u8, a) },
            AlphaLow => { let a = [0u8, 1, 60, 255, 127, 128, 30, 255][i % 8]; px((i * 31 % 256) as u8, (i * 17 % 256) as u8, (i * 5 % 256) as u8, a) },
            Dark => { let r = lcg(i as u64); px((r % 12) as u8, ((r >> 8) % 12) as u8, ((r >> 16) % 12) as u8, 255) },
            Bright => { let r = lcg(i as u64); px(244 + (r % 12) as u8, 244 + ((r >> 8) % 12) as u8, 244 + ((r >> 16) % 12) as u8, 255) },
            Clusters(k) => { let r = lcg(i as u64); let b = sep((r >> 40) as usize % k as usize); let j = |v: u8, s: u32| if v > 128 { v - ((r >> s) % 6) as u8 } else { v + ((r >> s) % 6) as u8 }; px(j(b.r, 0), j(b.g, 8), j(b.b, 16), 255) },
            Odd => if i == n - 1 { px(0, 255, 0, 255) } else { px(200, 0, 60, 255) },
            Blob => { let (dx, dy) = (x as i64 * 2 - w as i64, y as i64 * 2 - h as i64); if dx * dx + dy * dy < (w * h / 2) as i64 { px(s(x, w), 200, s(y, h), 255) } else { let r = lcg(i as u64); px(r as u8, (r >> 9) as u8, (r >> 17) as u8, 0) } },
            SemiNoise => { let r = lcg(i as u64 + 21); px(r as u8, (r >> 8) as u8, (r >> 16) as u8, 100 + ((r >> 24) % 60) as u8) },
            CountA(k) => { let j = (i as u32) % k; if j == 0 { px(9, 8, (i & 255) as u8, 0) } else { px((j & 255) as u8, ((j * 3) & 255) as u8, ((j >> 8) * 40 & 255) as u8, if j % 4 == 0 { 128 } else { 255 }) } },
        }
    };
    (0..n).map(f).collect()
}

pub fn canon(p: RGBA) -> u32 { if p.a == 0 { 0 } else { u32::from_ne_bytes([p.r, p.g, p.b, p.a]) } }
pub fn distinct(v: &[RGBA]) -> std::collections::BTreeSet<u32> { v.iter().map(|p| canon(*p)).collect() }

pub fn show_px(p: &RGBA) -> String { format!("{:02x}{:02x}{:02x}{:02x}", p.r, p.g, p.b, p.a) }
pub fn show_pal(p: &[RGBA]) -> String { let v: Vec<String> = p.iter().take(24).map(show_px).collect(); format!("[{}{}] ({})", v.join(" "), if p.len() > 24 { " …" } else { "" }, p.len()) }
