//! Text generators.
use crate::refs;
use crate::vrt::*;
use barcoders::generators::ascii::ASCII;
use barcoders::generators::json::JSON;
use barcoders::generators::svg::{Color, SVG};

const W: u64 = 0xffff_ffff;
/// `n` modules: arbitrary when the seed is 0; from 1000 on equal runs of bars and spaces (1000 all bars, 2000 all
/// spaces, 1000 + k starting with k bars, 2000 + k starting with k spaces); from 10000 on nine arbitrary modules at the
/// place seed - 10000 of a fixed pattern; else a fixed pseudo-random pattern.
pub fn modules(n: usize, seed: usize) -> Vec<u8> {
    if seed == 0 { return bytes("modules", n, 0, 1); }
    if seed >= 10000 {
        let p = seed - 10000;
        let mut v = modules(if p < n { p } else { n }, n + 1);
        v.extend_from_slice(&bytes("modules", if v.len() + 9 < n { 9 } else { n - v.len() }, 0, 1));
        let rest = modules(n - v.len(), n + 2);
        v.extend_from_slice(&rest);
        return v;
    }
    if seed >= 1000 {
        let (first, k) = (if seed < 2000 { 1 } else { 0 }, seed % 1000);
        let mut v = Vec::new();
        let mut i = 0;
        while i < n { v.push(if k == 0 || (i / k) % 2 == 0 { first } else { 1 - first }); i += 1; }
        return v;
    }
    let mut v = Vec::new();
    let mut x = seed as u32 * 40503 + 77;
    let mut i = 0;
    while i < n { x = (x % 65521) * 32719 + 3; v.push(((x >> 7) % 2) as u8); i += 1; }
    v
}
fn ascii_ref(m: &[u8], height: usize, xdim: usize) -> String {
    let mut s = String::new();
    let mut y = 0;
    while y < height {
        if y > 0 { s.push('\n'); }
        let mut i = 0;
        while i < m.len() { let mut p = 0; while p < xdim { s.push(if m[i] == 1 { '#' } else { ' ' }); p += 1; } i += 1; }
        y += 1;
    }
    s
}
/// params: modules, height, xdim, seed
pub fn ascii() {
    let m = modules(param(0), param(3));
    let g = ASCII { height: param(1), xdim: param(2) };
    match g.generate(&m) {
        Ok(s) => same_text(&s, &ascii_ref(&m, param(1), param(2)), "ASCII picture"),
        Err(_) => fail("the ASCII generator reports an error"),
    }
}
/// No modules, any xdim. params: height
pub fn ascii_empty() {
    let x = num("xdim", 0, u64::MAX) as usize;
    match (ASCII { height: param(0), xdim: x }).generate(&[0u8; 0][..]) {
        Ok(s) => same_text(&s, &ascii_ref(&[], param(0), 0), "ASCII picture of nothing"),
        Err(_) => fail("the ASCII generator reports an error"),
    }
}
pub fn ascii_default() {
    let m = modules(param(0), 0);
    let (a, b) = (ASCII::new(), ASCII::default());
    check(a.height == 10 && a.xdim == 1, "ASCII::new is height 10, xdim 1");
    check(b.height == 10 && b.xdim == 1, "ASCII::default is height 10, xdim 1");
    match a.generate(&m) { Ok(s) => same_text(&s, &ascii_ref(&m, 10, 1), "default ASCII picture"), Err(_) => fail("the ASCII generator reports an error") }
}
fn json_ref(m: &[u8], height: usize, xdim: usize) -> String {
    let mut s = String::from("{\"height\":");
    s.push_str(&height.to_string());
    s.push_str(",\"xdim\":");
    s.push_str(&xdim.to_string());
    s.push_str(",\"encoding\":[");
    let mut i = 0;
    while i < m.len() { if i > 0 { s.push(','); } s.push(if m[i] == 0 { '0' } else { '1' }); i += 1; }
    s.push_str("]}");
    s
}
/// params: modules, seed
pub fn json() {
    let m = modules(param(0), param(1));
    let h = num("height", 0, u64::MAX) as usize;
    let x = num("xdim", 0, u64::MAX) as usize;
    match (JSON { height: h, xdim: x }).generate(&m) {
        Ok(s) => same_text(&s, &json_ref(&m, h, x), "JSON object"),
        Err(_) => fail("the JSON generator reports an error"),
    }
}
pub fn json_default() {
    let m = modules(param(0), 0);
    let (a, b) = (JSON::new(), JSON::default());
    check(a.height == 10 && a.xdim == 1, "JSON::new is height 10, xdim 1");
    check(b.height == 10 && b.xdim == 1, "JSON::default is height 10, xdim 1");
    match a.generate(&m) { Ok(s) => same_text(&s, &json_ref(&m, 10, 1), "default JSON object"), Err(_) => fail("the JSON generator reports an error") }
}

fn hex(s: &mut String, v: u8) {
    let d = |k: u8| if k < 10 { (48 + k) as char } else { (87 + k) as char };
    s.push(d(v / 16)); s.push(d(v % 16));
}
/// Fill attributes of a colour: two decimals of alpha/255 unless that is 1.00.
fn fill(s: &mut String, c: [u8; 4]) {
    s.push_str(" fill=\"#");
    hex(s, c[0]); hex(s, c[1]); hex(s, c[2]);
    s.push('"');
    // round(100 a / 255); 200 a = 255 (2 k + 1) has no solution, so there are no ties
    let h = ((c[3] as u32) * 200 + 255) / 510;
    if h < 100 {
        s.push_str(" fill-opacity=\"0.");
        s.push((48 + h / 10) as u8 as char); s.push((48 + h % 10) as u8 as char);
        s.push_str("\" ");
    }
}
fn rect(s: &mut String, x: u32, w: u32, h: u32, c: [u8; 4]) {
    s.push_str("<rect x=\""); s.push_str(&x.to_string());
    s.push_str("\" y=\"0\" width=\""); s.push_str(&w.to_string());
    s.push_str("\" height=\""); s.push_str(&h.to_string());
    s.push('"');
    fill(s, c);
    s.push_str("/>");
}
fn svg_ref(m: &[u8], h: u32, x: u32, fg: [u8; 4], bg: [u8; 4], ns: Option<&str>) -> String {
    let mut s = String::from("<svg version=\"1.1\" ");
    if let Some(n) = ns {
        s.push_str("xmlns=\"");
        let mut it = n.chars();
        while let Some(c) = it.next() { if c == '&' { s.push_str("&amp;"); } else if c == '<' { s.push_str("&lt;"); } else if c == '"' { s.push_str("&quot;"); } else { s.push(c); } }
        s.push_str("\" ");
    }
    s.push_str("viewBox=\"0 0 ");
    let w = m.len() as u32 * x;
    s.push_str(&w.to_string()); s.push(' '); s.push_str(&h.to_string());
    s.push_str("\">");
    rect(&mut s, 0, w, h, bg);
    let mut i = 0;
    while i < m.len() { if m[i] == 1 { rect(&mut s, i as u32 * x, x, h, fg); } i += 1; }
    s.push_str("</svg>");
    s
}
const BLACK: [u8; 4] = [0, 0, 0, 255];
const WHITE: [u8; 4] = [255, 255, 255, 255];
/// Heights and xdims for which the picture size fits; modules as by `modules`.
fn sizes(n: usize) -> (u32, u32) {
    (num("height", 0, W) as u32, num("xdim", 0, if n > 0 { W / n as u64 } else { W }) as u32)
}
fn svg_check(g: &SVG, m: &[u8], want: &str, msg: &str) {
    match g.generate(m) { Ok(s) => same_text(&s, want, msg), Err(_) => fail("the SVG generator reports an error") }
}
/// params: modules, seed
pub fn svg() {
    let m = modules(param(0), param(1));
    let (h, x) = sizes(m.len());
    let g = SVG { height: h, xdim: x, foreground: Color::new(BLACK), background: Color::new(WHITE), xmlns: None };
    svg_check(&g, &m, &svg_ref(&m, h, x, BLACK, WHITE, None), "SVG document");
}
fn rgba(v: &[u8]) -> [u8; 4] { [v[0], v[1], v[2], v[3]] }
/// Arbitrary opaque colours. params: modules, seed
pub fn svg_colour() {
    let m = modules(param(0), param(1));
    let (f, b) = (bytes("foreground", 3, 0, 255), bytes("background", 3, 0, 255));
    let (fg, bg) = ([f[0], f[1], f[2], 255], [b[0], b[1], b[2], 255]);
    let (h, x) = sizes(m.len());
    let g = SVG { height: h, xdim: x, foreground: Color { rgba: fg }, background: Color { rgba: bg }, xmlns: None };
    svg_check(&g, &m, &svg_ref(&m, h, x, fg, bg, None), "SVG document with colours");
}
/// Arbitrary alpha of the foreground (param 2 = 0) or background (param 2 = 1). params: modules, seed, which
pub fn svg_alpha() {
    let m = modules(param(0), param(1));
    let a = bytes("alpha", 1, 0, 255)[0];
    let (fg, bg) = if param(2) == 0 { ([18, 52, 171, a], WHITE) } else { (BLACK, [205, 239, 9, a]) };
    let g = SVG { height: 7, xdim: 2, foreground: Color::new(fg), background: Color::new(bg), xmlns: None };
    svg_check(&g, &m, &svg_ref(&m, 7, 2, fg, bg, None), "SVG document with opacity");
}
/// Arbitrary text as namespace. params: modules, seed, characters, characters of a fixed text before them
pub fn svg_xmlns() {
    let m = modules(param(0), param(1));
    let mut ns = String::new();
    let mut i = 0;
    while i < param(3) { ns.push_str(&"http://www.w3.org/2000/svg?a='b'>"[i % 33..i % 33 + 1]); i += 1; }
    ns.push_str(&uni("xmlns", param(2)));
    let g = SVG { height: 5, xdim: 3, foreground: Color::black(), background: Color::white(), xmlns: Some(ns.clone()) };
    svg_check(&g, &m, &svg_ref(&m, 5, 3, BLACK, WHITE, Some(&ns)), "SVG document with namespace");
}
fn same_colour(c: Color, w: [u8; 4], msg: &str) { same(&c.rgba, &w, msg); }
pub fn svg_builder() {
    let h = num("height", 0, W) as u32;
    let x = num("xdim", 0, W) as u32;
    let f = rgba(&bytes("foreground", 4, 0, 255));
    let b = rgba(&bytes("background", 4, 0, 255));
    let ns = uni("xmlns", 2);
    same_colour(Color::black(), BLACK, "black"); same_colour(Color::white(), WHITE, "white"); same_colour(Color::new(f), f, "Color::new");
    let d = SVG::new(h);
    check(d.height == h && d.xdim == 1 && d.xmlns.is_none(), "defaults of SVG::new");
    same_colour(d.foreground, BLACK, "default foreground"); same_colour(d.background, WHITE, "default background");
    let g = SVG::new(h).xdim(x);
    check(g.height == h && g.xdim == x && g.xmlns.is_none(), "xdim setting");
    same_colour(g.foreground, BLACK, "foreground after xdim"); same_colour(g.background, WHITE, "background after xdim");
    let g = SVG::new(h).foreground(Color::new(f));
    check(g.height == h && g.xdim == 1 && g.xmlns.is_none(), "foreground setting");
    same_colour(g.foreground, f, "foreground after foreground"); same_colour(g.background, WHITE, "background after foreground");
    let g = SVG::new(h).background(Color::new(b));
    check(g.height == h && g.xdim == 1 && g.xmlns.is_none(), "background setting");
    same_colour(g.foreground, BLACK, "foreground after background"); same_colour(g.background, b, "background after background");
    let g = SVG::new(h).xmlns(ns.clone());
    check(g.height == h && g.xdim == 1, "xmlns setting");
    same_colour(g.foreground, BLACK, "foreground after xmlns"); same_colour(g.background, WHITE, "background after xmlns");
    match g.xmlns { Some(v) => same_text(&v, &ns, "xmlns value"), None => fail("xmlns lost") }
    let g = SVG::new(h).background(Color::new(b)).xmlns(ns.clone()).foreground(Color::new(f)).xdim(x);
    check(g.height == h && g.xdim == x, "all settings");
    same_colour(g.foreground, f, "foreground after all"); same_colour(g.background, b, "background after all");
    match g.xmlns { Some(v) => same_text(&v, &ns, "xmlns value after all"), None => fail("xmlns lost") }
}
/// Arbitrary colours, opacities and sizes together. params: modules, seed
pub fn svg_full() {
    let f = rgba(&bytes("foreground", 4, 0, 255));
    let b = rgba(&bytes("background", 4, 0, 255));
    let m = modules(param(0), param(1));
    let (h, x) = sizes(m.len());
    let g = SVG { height: h, xdim: x, foreground: Color::new(f), background: Color::new(b), xmlns: None };
    svg_check(&g, &m, &svg_ref(&m, h, x, f, b, None), "SVG document with any settings");
}
