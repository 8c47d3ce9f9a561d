//! Acceptance of image constructors, maps, backgrounds and output buffers against the documented rule.
use crate::core::*;
use crate::pix::px;
use imagequant::{Attributes, Error, Image, RGBA};
use std::mem::MaybeUninit;

/// a slice that ends where readable memory ends
struct Guarded { base: *mut u8, len: usize, map: usize }
impl Guarded {
    fn new(v: &[RGBA]) -> Self {
        unsafe {
            let page = 4096;
            let data = (v.len() * 4).div_ceil(page).max(1) * page;
            let m = libc::mmap(std::ptr::null_mut(), data + page, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0) as *mut u8;
            assert!(m as isize != -1);
            libc::mprotect(m.add(data).cast(), page, libc::PROT_NONE);
            std::ptr::copy_nonoverlapping(v.as_ptr().cast(), m.add(data - v.len() * 4), v.len() * 4);
            Guarded { base: m, len: v.len(), map: data + page }
        }
    }
    fn slice(&self) -> &[RGBA] { unsafe { std::slice::from_raw_parts(self.base.add(self.map - 4096 - self.len * 4).cast(), self.len) } }
}
impl Drop for Guarded { fn drop(&mut self) { unsafe { libc::munmap(self.base.cast(), self.map); } } }

fn color(i: usize) -> RGBA { px((i * 29 % 256) as u8, (i % 256) as u8, (i / 3 % 256) as u8, 255) }

fn expect(r: &Result<Image<'_>, Error>, ok: bool, range: bool, what: &str) -> Result<(), String> {
    trace();
    match r {
        Ok(_) if !ok => Err(format!("{what} accepted a buffer that cannot hold the image")),
        Err(e) if ok => Err(format!("{what} refused a good buffer: {e:?}")),
        Err(Error::ValueOutOfRange) if range => Ok(()),
        Err(Error::BufferTooSmall) if !range => Ok(()),
        Err(e) => Err(format!("{what} returned {e:?}")),
        Ok(_) => Ok(()),
    }
}
/// the image must consist of exactly these pixels
fn readback(a: &Attributes, i: &mut Image<'_>, want: &[RGBA], w: usize, h: usize) -> Result<(), String> {
    if i.width() != w || i.height() != h { return Err(format!("reported size {}x{}", i.width(), i.height())); }
    op(); op();
    let mut r = a.quantize(i).map_err(|e| format!("quantize: {e:?}"))?;
    r.set_dithering_level(0.).unwrap();
    let (pal, idx) = r.remapped(i).map_err(|e| format!("remap: {e:?}"))?;
    let got: Vec<RGBA> = idx.iter().map(|k| pal[*k as usize]).collect();
    if got != want { return Err("wrong pixels were read".into()); }
    Ok(())
}

pub fn run(x: &Ctx) {
    let mut a = Attributes::new();
    a.set_speed(7).unwrap();
    // every small combination
    let n = x.q(5usize, 7);
    let mut items = vec![];
    for w in 0..=n { for h in 0..=n { for st in 0..=n + 2 { let need = if h > 0 { st * (h - 1) + w } else { 0 }; for len in 0..=(need + st + 2) { items.push((w, h, st, len)); } } } }
    x.explore("small", &items, |i| format!("{}x{} stride {} in a buffer of {}", i.0, i.1, i.2, i.3), |&(w, h, st, len)| {
        let mut a = Attributes::new();
        a.set_speed(7).unwrap();
        let v: Vec<RGBA> = (0..len).map(color).collect();
        let range = w == 0 || h == 0 || st < w;
        let ok = !range && len >= st * (h - 1) + w;
        let want: Vec<RGBA> = if ok { (0..h).flat_map(|y| v[y * st..y * st + w].to_vec()).collect() } else { vec![] };
        let g = Guarded::new(&v);
        op(); op();
        let mut i = Image::new_stride_borrowed(&a, g.slice(), w, h, st, 0.);
        expect(&i, ok, range, "new_stride_borrowed")?;
        if let Ok(i) = &mut i { readback(&a, i, &want, w, h)?; }
        let mut i = Image::new_stride(&a, v.clone(), w, h, st, 0.);
        expect(&i, ok, range, "new_stride")?;
        if let Ok(i) = &mut i { readback(&a, i, &want, w, h)?; }
        if st == w {
            op(); op();
            let mut i = Image::new(&a, v.clone(), w, h, 0.);
            expect(&i, ok, range, "new")?;
            if let Ok(i) = &mut i { readback(&a, i, &want, w, h)?; }
            let mut i = Image::new_borrowed(&a, g.slice(), w, h, 0.);
            expect(&i, ok, range, "new_borrowed")?;
            if let Ok(i) = &mut i { readback(&a, i, &want, w, h)?; }
        }
        if len == 0 && st == w {
            op();
            let mut i = unsafe { Image::new_fn(&a, move |row, y| { assert!(row.len() == w && y < h, "row callback asked for row {y} of {} pixels", row.len()); for (k, o) in row.iter_mut().enumerate() { o.write(color(y * w + k)); } }, w, h, 0.) };
            expect(&i, w > 0 && h > 0, true, "new_fn")?;
            if let Ok(i) = &mut i { readback(&a, i, &(0..w * h).map(color).collect::<Vec<_>>(), w, h)?; }
        }
        Ok(())
    });
    // boundary and overflowing values with a small buffer
    let big = [0usize, 1, 2, 3, 5, 1 << 15, (1 << 16) - 1, 1 << 16, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 2, 1 << 62, (1 << 63) - 1, 1 << 63, usize::MAX - 1, usize::MAX];
    let mut items = vec![];
    for w in big { for h in big { for st in big { items.push((w, h, st)); } } }
    let buf: Vec<RGBA> = (0..16).map(color).collect();
    x.explore("overflow", &items, |i| format!("{}x{} stride {} in a buffer of 16", i.0, i.1, i.2), |&(w, h, st)| {
        let a = Attributes::new();
        let fits = w > 0 && h > 0 && st >= w && (st as u128) * (h as u128 - 1) + w as u128 <= 16;
        let repr = |v: usize| v <= i32::MAX as usize;
        op(); op();
        for (n, r) in [("new_stride_borrowed", Image::new_stride_borrowed(&a, &buf, w, h, st, 0.)), ("new_stride", Image::new_stride(&a, buf.clone(), w, h, st, 0.))] {
            trace();
            match r {
                // a one-row image never uses its stride, so a huge one may be refused
                Ok(i) => { if !fits { return Err(format!("{n} accepted")); } if i.width() != w || i.height() != h { return Err(format!("{n} reports {}x{}", i.width(), i.height())); } },
                Err(Error::ValueOutOfRange | Error::BufferTooSmall) if !fits || !repr(st) => {},
                Err(e) => return Err(format!("{n}: {e:?}")),
            }
        }
        if st == 0 {
            op(); trace();
            let r = unsafe { Image::new_fn(&a, |_, _| panic!("row read during construction"), w, h, 0.) };
            let ok = w > 0 && h > 0 && repr(w) && repr(h) && (w as u128) * (h as u128) * 16 <= isize::MAX as u128;
            match r {
                Ok(i) if ok => if i.width() != w || i.height() != h { return Err(format!("new_fn reports {}x{}", i.width(), i.height())); },
                Err(Error::ValueOutOfRange) if !ok => {},
                r => return Err(format!("new_fn: {:?}", r.map(|_| "accepted"))),
            }
        }
        Ok(())
    });
    // gamma
    let gam = [0f64, -0., f64::MIN_POSITIVE, 1e-10, 0.3, 0.45455, 0.9999999999, 1., 1.0000000000000002, 1.5, 2.2, 1e300, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, -1e-300, -0.5, -1., -f64::NAN];
    x.explore("gamma", &gam, |g| format!("gamma {g}"), |&g| {
        let a = Attributes::new();
        let ok = g >= 0. && g <= 1.;
        let p: Vec<RGBA> = (0..6).map(color).collect();
        for (n, r) in [("new", Image::new(&a, p.clone(), 3, 2, g)), ("new_borrowed", Image::new_borrowed(&a, &p, 3, 2, g)), ("new_stride", Image::new_stride(&a, p.clone(), 2, 2, 3, g)), ("new_stride_borrowed", Image::new_stride_borrowed(&a, &p, 2, 2, 3, g)), ("new_fn", unsafe { Image::new_fn(&a, |r, _| r.fill(MaybeUninit::new(px(0, 0, 0, 255))), 3, 2, g) })] { op(); expect(&r, ok, true, n)?; }
        #[cfg(not(no_c))]
        unsafe {
            use crate::capi::*;
            let c = w_liq_attr_create();
            let rows = [p.as_ptr(), p.as_ptr().add(3)];
            for i in [w_liq_image_create_rgba(c, p.as_ptr().cast(), 3, 2, g), w_liq_image_create_rgba_rows(c, rows.as_ptr() as P, 3, 2, g), w_liq_image_create_custom(c, run::row_cb as P, NULL, 3, 2, g)] { op(); trace(); if i.is_null() == ok { return Err(format!("a C constructor {}", if ok { "refused it" } else { "accepted it" })); } w_liq_image_destroy(i); }
            w_liq_attr_destroy(c);
        }
        Ok(())
    });
    #[cfg(not(no_c))]
    {
        use crate::capi::*;
        let m = c_int::MAX;
        let vals = [m, m - 1, c_int::MIN, -1, 0, 1, 2, 16, 17, 1000, 16384, 32767, 32768, 33_554_430, 33_554_431, 33_554_432, 33_554_433, 1 << 20, 536_870_911, 536_870_912];
        let mut items = vec![];
        for w in vals { for h in vals { if h <= 1 << 20 || w <= 0 || (w as u64) * (h as u64) > 536_870_911 { items.push((w, h)); } } }
        x.explore("c-sizes", &items, |i| format!("C image {}x{}", i.0, i.1), |&(w, h)| unsafe {
            let c = w_liq_attr_create();
            let p = px(0, 0, 0, 255);
            let ok = w > 0 && h > 0 && (w as i64) * (h as i64) <= (m / 4) as i64 && w <= m / 64 && h <= m / 8;
            op(); op();
            let i = w_liq_image_create_rgba(c, (&p as *const RGBA).cast(), w, h, 0.);
            let rows: Vec<*const RGBA> = vec![&p; if ok { h as usize } else { 1 }];
            let j = w_liq_image_create_rgba_rows(c, rows.as_ptr() as P, w, h, 0.);
            for (n, i) in [("liq_image_create_rgba", i), ("liq_image_create_rgba_rows", j)] {
                trace();
                if i.is_null() == ok { return Err(format!("{n} {}", if ok { "refused it" } else { "accepted it" })); }
                if !i.is_null() && (w_liq_image_get_width(i) != w || w_liq_image_get_height(i) != h) { return Err(format!("{n} reports {}x{}", w_liq_image_get_width(i), w_liq_image_get_height(i))); }
                w_liq_image_destroy(i);
            }
            // callback images have no memory to address
            let i = w_liq_image_create_custom(c, run::row_cb as P, NULL, w, h, 0.);
            if w > 0 && h > 0 { if !i.is_null() && (w_liq_image_get_width(i) != w || w_liq_image_get_height(i) != h) { return Err("liq_image_create_custom reports another size".into()); } if i.is_null() && ok { return Err("liq_image_create_custom refused it".into()); } }
            else if !i.is_null() { return Err("liq_image_create_custom accepted it".into()); }
            w_liq_image_destroy(i);
            w_liq_attr_destroy(c);
            Ok(())
        });
    }
    // maps, backgrounds and output buffers
    let mut items = vec![];
    for w in 1..=n { for h in 1..=n { items.push((w, h)); } }
    for s in [(1, 200), (200, 1), (40, 33)] { items.push(s); }
    x.explore("buffers", &items, |i| format!("{}x{}", i.0, i.1), |&(w, h)| {
        let mut a = Attributes::new();
        a.set_speed(9).unwrap();
        let p: Vec<RGBA> = (0..w * h).map(color).collect();
        let mut i = Image::new(&a, p.clone(), w, h, 0.).unwrap();
        let lens: Vec<usize> = if w * h < 100 { (0..=w * h + 3).collect() } else { vec![0, 1, w, h, w * h - 1, w * h, w * h + 1, 2 * w * h] };
        for len in &lens {
            op(); trace();
            let r = i.set_importance_map(vec![255u8; *len]);
            if r.is_ok() != (*len == w * h) || r.is_err() && r != Err(Error::BufferTooSmall) { return Err(format!("importance map of {len} bytes: {r:?}")); }
        }
        for bw in 1..=n + 1 { for bh in 1..=n + 1 {
            op(); trace();
            let b = Image::new(&a, (0..bw * bh).map(color).collect::<Vec<_>>(), bw, bh, 0.).unwrap();
            let r = i.set_background(b);
            if r.is_ok() != (bw == w && bh == h) || r.is_err() && r != Err(Error::BufferTooSmall) { return Err(format!("background {bw}x{bh}: {r:?}")); }
        } }
        let mut i = Image::new(&a, p.clone(), w, h, 0.).unwrap();
        let mut r = a.quantize(&mut i).unwrap();
        for len in &lens {
            op(); trace();
            let mut b = vec![MaybeUninit::new(0xA5u8); *len];
            let e = r.remap_into(&mut i, &mut b);
            let ok = *len >= w * h;
            if e.is_ok() != ok || !ok && e != Err(Error::BufferTooSmall) { return Err(format!("output buffer of {len} bytes: {e:?}")); }
            if !ok && b.iter().any(|v| unsafe { v.assume_init() } != 0xA5) { return Err(format!("refused output buffer of {len} bytes written to")); }
        }
        #[cfg(not(no_c))]
        unsafe {
            use crate::capi::*;
            let c = w_liq_attr_create();
            w_liq_set_speed(c, 9);
            let i = w_liq_image_create_rgba(c, p.as_ptr().cast(), w as c_int, h as c_int, 0.);
            for len in &lens {
                op(); trace();
                let mut m = vec![255u8; (*len).max(1)];
                let e = w_liq_image_set_importance_map(i, m.as_mut_ptr().cast(), *len, COPY_PIXELS);
                if (e == OK) != (*len >= w * h) || e != OK && e != SMALL && *len > 0 { return Err(format!("C importance map of {len} bytes: {e}")); }
            }
            let mut r = NULL;
            w_liq_image_quantize(i, c, (&mut r as *mut P).cast());
            for len in &lens {
                op(); trace();
                let mut m = vec![0xA5u8; (*len).max(1)];
                let e = w_liq_write_remapped_image(r, i, m.as_mut_ptr().cast(), *len);
                if (e == OK) != (*len >= w * h) || e != OK && e != SMALL { return Err(format!("C output buffer of {len} bytes: {e}")); }
                if e != OK && m.iter().any(|v| *v != 0xA5) { return Err("refused C output buffer written to".into()); }
            }
            w_liq_result_destroy(r); w_liq_image_destroy(i); w_liq_attr_destroy(c);
        }
        Ok(())
    });
}
