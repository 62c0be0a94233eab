//! The generators show the same bars.
use crate::ob::gen::modules;
use crate::vrt::*;
use barcoders::generators::ascii::ASCII;
use barcoders::generators::image::{Color, Image, Rotation};
use barcoders::generators::json::JSON;
use barcoders::generators::svg::SVG;

/// Bars of an ASCII picture: the character xdim*i of the first line.
fn ascii_bars(s: &str, n: usize, x: usize) -> Vec<u8> {
    let c: Vec<char> = s.chars().collect();
    let mut v = Vec::new();
    let mut i = 0;
    while i < n { let mut b = 1; let mut p = 0; while p < x { if c[i * x + p] != '#' { b = 0; } p += 1; } v.push(b); i += 1; }
    v
}
/// Bars of a JSON object: the elements of the only array.
fn json_bars(s: &str) -> Vec<u8> {
    let mut v = Vec::new();
    let mut inside = false;
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == ']' { inside = false; }
        if inside && c != ',' && c != ' ' { v.push(if c == '1' { 1 } else { 0 }); }
        if c == '[' { inside = true; }
    }
    v
}
/// Bars of an SVG document: the rectangles after the first one cover the modules.
fn svg_bars(s: &str, n: usize, x: usize) -> Vec<u8> {
    let mut v = Vec::new();
    let mut i = 0;
    while i < n { v.push(0); i += 1; }
    let c: Vec<char> = s.chars().collect();
    let mut k = 0;
    let mut seen = 0;
    while k + 9 <= c.len() {
        if c[k] == '<' && c[k + 1] == 'r' && c[k + 2] == 'e' && c[k + 3] == 'c' {
            seen += 1;
            if seen > 1 {
                let mut at = 0;
                k += 9;
                while c[k] != '"' { at = at * 10 + (c[k] as usize - 48); k += 1; }
                if at % x == 0 && at / x < n { v[at / x] = 1; } else { v.push(9); }
            }
        }
        k += 1;
    }
    v
}
/// Bars of a raster: the pixels of the first row in the colour of the bars.
fn raster_bars(b: &[u8], n: usize, x: usize) -> Vec<u8> {
    let mut v = Vec::new();
    let mut i = 0;
    while i < n { let mut on = 1; let mut p = 0; while p < x { let a = 4 * (i * x + p); if !(b[a] == 1 && b[a + 1] == 2 && b[a + 2] == 3 && b[a + 3] == 4) { on = 0; } p += 1; } v.push(on); i += 1; }
    v
}
fn all(m: &[u8], h: usize, x: usize, svg: bool) {
    let n = m.len();
    let a = match (ASCII { height: h, xdim: x }).generate(m) { Ok(s) => ascii_bars(&s, n, x), Err(_) => fail("the ASCII generator reports an error") };
    let j = match (JSON { height: h, xdim: x }).generate(m) { Ok(s) => json_bars(&s), Err(_) => fail("the JSON generator reports an error") };
    let g = Image::ImageBuffer { height: h as u32, xdim: x as u32, rotation: Rotation::Zero, foreground: Color::new([1, 2, 3, 4]), background: Color::new([5, 6, 7, 8]) };
    let r = match g.generate_buffer(m) { Ok(b) => raster_bars(b.as_raw(), n, x), Err(_) => fail("the image generator reports an error") };
    same(&a, &j, "ASCII and JSON show the same bars");
    same(&r, &j, "image and JSON show the same bars");
    if svg {
        let s = match SVG::new(h as u32).xdim(x as u32).generate(m) { Ok(s) => svg_bars(&s, n, x), Err(_) => fail("the SVG generator reports an error") };
        same(&s, &j, "SVG and JSON show the same bars");
        same(&s, &a, "SVG and ASCII show the same bars");
    }
    same(&j, m, "the bars shown are the bar modules");
}
/// All modules at once. params: modules, height, xdim
pub fn agree() { let m = modules(param(0), 0); all(&m, param(1), param(2), false); }
/// The module sequence given by the binary digits of the fourth parameter. params: modules, height, xdim, pattern
pub fn agree_svg() {
    let mut m = Vec::new();
    let (mut i, mut k) = (0, param(3));
    while i < param(0) { m.push((k % 2) as u8); k /= 2; i += 1; }
    all(&m, param(1), param(2), true);
}
/// A pseudo-random sequence. params: modules, height, xdim, seed
pub fn agree_long() { let m = modules(param(0), param(3)); all(&m, param(1), param(2), true); }
