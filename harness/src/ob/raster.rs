//! Raster images.
use crate::ob::gen::modules;
use crate::vrt::*;
use barcoders::error::Error;
use barcoders::generators::image::{Color, Image, Rotation};

fn four(label: &str) -> [u8; 4] { let v = bytes(label, 4, 0, 255); [v[0], v[1], v[2], v[3]] }
fn turn(r: usize) -> Rotation { if r == 0 { Rotation::Zero } else if r == 1 { Rotation::Ninety } else if r == 2 { Rotation::OneEighty } else { Rotation::TwoSeventy } }
fn image(v: usize, height: u32, xdim: u32, rotation: Rotation, foreground: Color, background: Color) -> Image {
    if v == 0 { Image::GIF { height, xdim, rotation, foreground, background } }
    else if v == 1 { Image::PNG { height, xdim, rotation, foreground, background } }
    else if v == 2 { Image::WEBP { height, xdim, rotation, foreground, background } }
    else { Image::ImageBuffer { height, xdim, rotation, foreground, background } }
}
/// The unrotated raster: every module xdim wide and full height.
fn raster(m: &[u8], h: usize, x: usize, fg: [u8; 4], bg: [u8; 4]) -> Vec<u8> {
    let mut row = Vec::new();
    let mut i = 0;
    while i < m.len() {
        let mut px = [0u8; 4];
        let mut k = 0;
        while k < 4 { px[k] = if m[i] == 0 { bg[k] } else { fg[k] }; k += 1; }
        let mut p = 0;
        while p < x { row.extend_from_slice(&px); p += 1; }
        i += 1;
    }
    let mut v = Vec::new();
    let mut y = 0;
    while y < h { v.extend_from_slice(&row); y += 1; }
    v
}
/// The raster turned clockwise by r quarter turns; the pixel at (x, y) of the result comes from where it was before the turn.
fn turned(v: &[u8], w: usize, h: usize, r: usize) -> Vec<u8> {
    let (rw, rh) = if r % 2 == 1 { (h, w) } else { (w, h) };
    let mut o = Vec::new();
    let mut y = 0;
    while y < rh {
        let mut x = 0;
        while x < rw {
            let (sx, sy) = if r == 0 { (x, y) } else if r == 1 { (y, h - 1 - x) } else if r == 2 { (w - 1 - x, h - 1 - y) } else { (w - 1 - y, x) };
            let at = 4 * (sy * w + sx);
            o.extend_from_slice(&v[at..at + 4]);
            x += 1;
        }
        y += 1;
    }
    o
}
/// params: modules, height, xdim, variant, pattern seed, quarter turns
pub fn picture() {
    let (n, h, x, v, r) = (param(0), param(1), param(2), param(3), param(5));
    let (fg, bg) = (four("foreground"), four("background")); // before the modules: they come first in the diagrams
    let m = modules(n, param(4));
    let g = image(v, h as u32, x as u32, turn(r), Color::new(fg), Color::new(bg));
    let (w, hh) = if r % 2 == 1 { (h, n * x) } else { (n * x, h) };
    match g.generate_buffer(&m) {
        Ok(b) => {
            check(b.width() as usize == w && b.height() as usize == hh, "dimensions of the raster");
            let plain = raster(&m, h, x, fg, bg);
            if r == 0 { same(b.as_raw(), &plain, "pixels of the raster"); } else { same(b.as_raw(), &turned(&plain, n * x, h, r), "pixels of the rotated raster"); }
        }
        Err(_) => fail("the image generator reports an error"),
    }
}
/// `generate` hands the raster of `generate_buffer` to the encoder of its format. Same params.
pub fn encoded() {
    let (n, h, x, v, r) = (param(0), param(1), param(2), param(3), param(5));
    let (fg, bg) = (four("foreground"), four("background")); // before the modules: they come first in the diagrams
    let m = modules(n, param(4));
    let g = image(v, h as u32, x as u32, turn(r), Color::new(fg), Color::new(bg));
    finish(g, &m, v, "settings");
}
fn be32(v: &mut Vec<u8>, k: u32) { v.push((k >> 24) as u8); v.push((k >> 16 & 255) as u8); v.push((k >> 8 & 255) as u8); v.push((k & 255) as u8); }
fn finish(g: Image, m: &[u8], v: usize, what: &str) {
    let got = g.generate(m);
    if v == 3 {
        match got { Ok(_) => fail("ImageBuffer: generate does not report an error"), Err(e) => check(e == Error::Generate, "ImageBuffer: generate reports the generate error") }
        return;
    }
    match g.generate_buffer(m) {
        Err(_) => fail("the image generator reports an error"),
        Ok(b) => {
            let mut want = Vec::new();
            want.extend_from_slice(if v == 0 { b"Gif" } else if v == 1 { b"Png" } else { b"WebP" });
            want.extend_from_slice(b":ImageRgba8:");
            be32(&mut want, b.width());
            be32(&mut want, b.height());
            want.extend_from_slice(b.as_raw());
            let ok = encoder_ok();
            match got {
                Ok(bytes) => { check(ok, "an encoder failure is not reported"); assume(ok); same(&bytes, &want, "what the encoder of the format is given and returns"); }
                Err(e) => { check(!ok, "an error is reported although the encoder succeeds"); check(e == Error::Generate, "an encoder failure is reported as the generate error"); }
            }
        }
    }
}
/// Constructors: params variant, modules. Any height (up to 4 partitions by `case`).
pub fn defaults() {
    let v = param(0);
    let h = num("height", 0, u32::MAX as u64) as u32;
    let g = if v == 0 { Image::gif(h) } else if v == 1 { Image::png(h) } else if v == 2 { Image::webp(h) } else { Image::image_buffer(h) };
    let (k, height, xdim, zero) = match g {
        Image::GIF { height, xdim, rotation, .. } => (0, height, xdim, matches!(rotation, Rotation::Zero)),
        Image::PNG { height, xdim, rotation, .. } => (1, height, xdim, matches!(rotation, Rotation::Zero)),
        Image::WEBP { height, xdim, rotation, .. } => (2, height, xdim, matches!(rotation, Rotation::Zero)),
        Image::ImageBuffer { height, xdim, rotation, .. } => (3, height, xdim, matches!(rotation, Rotation::Zero)),
    };
    check(k == v, "the constructor gives its own variant");
    check(height == h && xdim == 1 && zero, "defaults: the height given, xdim 1, no rotation");
}
/// The default colours, seen through the raster. params: variant, modules, height
pub fn default_picture() {
    let (v, n, h) = (param(0), param(1), param(2));
    let m = modules(n, 0);
    let g = if v == 0 { Image::gif(h as u32) } else if v == 1 { Image::png(h as u32) } else if v == 2 { Image::webp(h as u32) } else { Image::image_buffer(h as u32) };
    match g.generate_buffer(&m) {
        Ok(b) => {
            check(b.width() as usize == n && b.height() as usize == h, "dimensions of the default raster");
            same(b.as_raw(), &raster(&m, h, 1, [0, 0, 0, 255], [255; 4]), "black bars on white");
        }
        Err(_) => fail("the image generator reports an error"),
    }
    finish(g, &m, v, "defaults");
}
/// Named colours. params: modules
pub fn named_colours() {
    let m = modules(param(0), 0);
    let g = image(3, 2, 2, Rotation::Zero, Color::white(), Color::black());
    match g.generate_buffer(&m) {
        Ok(b) => same(b.as_raw(), &raster(&m, 2, 2, [255; 4], [0, 0, 0, 255]), "white bars on black"),
        Err(_) => fail("the image generator reports an error"),
    }
}
