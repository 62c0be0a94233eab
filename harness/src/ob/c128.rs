//! Code 128.
use crate::refs;
use crate::vrt::*;
use barcoders::error::Error;
use barcoders::sym::code128::Code128;

/// Characters of the three sets and the special characters; index 95 of set B is left out (see `c128_b95`).
const ANY: &str = "\u{0}\u{1}\u{2}\u{3}\u{4}\u{5}\u{6}\u{7}\u{8}\u{9}\u{a}\u{b}\u{c}\u{d}\u{e}\u{f}\u{10}\u{11}\u{12}\u{13}\u{14}\u{15}\u{16}\u{17}\u{18}\u{19}\u{1a}\u{1b}\u{1c}\u{1d}\u{1e}\u{1f} !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~ÀƁĆŹźŻżŽ";
const OTHER: &str = "\u{0}\u{1}\u{2}\u{3}\u{4}\u{5}\u{6}\u{7}\u{8}\u{9}\u{a}\u{b}\u{c}\u{d}\u{e}\u{f}\u{10}\u{11}\u{12}\u{13}\u{14}\u{15}\u{16}\u{17}\u{18}\u{19}\u{1a}\u{1b}\u{1c}\u{1d}\u{1e}\u{1f} !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~źŻżŽ";
const A: &str = "\u{0}\u{1}\u{2}\u{3}\u{4}\u{5}\u{6}\u{7}\u{8}\u{9}\u{a}\u{b}\u{c}\u{d}\u{e}\u{f}\u{10}\u{11}\u{12}\u{13}\u{14}\u{15}\u{16}\u{17}\u{18}\u{19}\u{1a}\u{1b}\u{1c}\u{1d}\u{1e}\u{1f} !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_ŹźŻżŽ";
const B: &str = " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~ŹźŻżŽ";

fn decide(s: &str) {
    match (Code128::new(s), refs::codes128(s)) {
        (Ok(b), Some(codes)) => same(&b.encode(), &refs::symbol128(&codes), "Code 128 symbol"),
        (Ok(_), None) => fail("illegal Code 128 string accepted"),
        (Err(_), _) => check(true, "rejected: acceptance is C13"),
    }
}
fn accept(s: &str) {
    let legal = refs::codes128(s).is_some();
    match Code128::new(s) {
        Ok(_) => check(legal, "illegal Code 128 string accepted"),
        Err(e) => { check(!legal, "legal Code 128 string rejected"); check(e == Error::Character, "illegal Code 128 string not reported as Character"); }
    }
}
/// Every string of n characters of the whole repertoire.
pub fn c128_any() {
    let s = text("data", param(0), ANY);
    decide(&s);
}
/// Every string of n characters whose set switches and FNC1 sit at the places given by the base-5
/// digits of the second parameter (0 other, 1 set A, 2 set B, 3 set C, 4 FNC1); the rest is arbitrary.
fn structured() -> String {
    let n = param(0);
    let mut k = param(1);
    let mut s = String::new();
    let mut i = 0;
    while i < n {
        let d = k % 5;
        k /= 5;
        if d == 0 { s.push_str(&text("data", 1, OTHER)); } else { s.push(if d == 1 { 'À' } else if d == 2 { 'Ɓ' } else if d == 3 { 'Ć' } else { 'Ź' }); }
        i += 1;
    }
    s
}
pub fn c128_struct() { decide(&structured()); }
/// As `c128_struct`, for acceptance only (length at least 2).
pub fn acc_c128_struct() { accept(&structured()); }
/// A long string whose positions follow a fixed plan of character classes (params: length, plan seed);
/// within each class the characters are arbitrary.
fn plan() -> String {
    let n = param(0);
    let mut x = (param(1) as u32) * 2654435 + 12345;
    let mode = param(2); // 0: mixed; 1,2,3: only set A, B, C
    let mut s = String::new();
    let mut set = if mode > 0 { mode - 1 } else { (x / 7) as usize % 3 };
    s.push_str(if set == 0 { "À" } else if set == 1 { "Ɓ" } else { "Ć" });
    let mut left = n;
    while left > 0 {
        let mut run = if mode > 0 { left } else { x = (x % 65521) * 32719 + 3; (x >> 5) as usize % 7 + 1 };
        if run > left { run = left; }
        if set == 2 { run = run - run % 2; }
        if set == 0 { s.push_str(&text("a", run, A)); } else if set == 1 { s.push_str(&text("b", run, B)); } else if run > 0 { s.push_str(&text("c", run, "0123456789")); if mode == 0 { s.push('Ź'); } }
        left -= run;
        if mode > 0 || left == 0 { break; }
        if left == 1 && set == 2 { break; }
        x = (x % 65521) * 32719 + 3;
        set = (set + 1 + (x >> 5) as usize % 2) % 3;
        s.push_str(if set == 0 { "À" } else if set == 1 { "Ɓ" } else { "Ć" });
    }
    assume_two(&s);
    s
}
/// Very long strings: n characters of set A (param 1 = 0), B (1) or digits in set C (2), of which every k-th is arbitrary.
fn sparse() -> String {
    let (n, set, k) = (param(0), param(1), param(2));
    let mut s = String::new();
    s.push(if set == 0 { 'À' } else if set == 1 { 'Ɓ' } else { 'Ć' });
    let mut i = 0;
    while i < n {
        if i % k == k - 1 { s.push_str(&text("x", 1, if set == 0 { A } else if set == 1 { B } else { "0123456789" })); }
        else if set == 2 { s.push((48 + i % 10) as u8 as char); }
        else { s.push((33 + i % 60) as u8 as char); }
        i += 1;
    }
    s
}
/// Long data of one set with a window of characters of the whole repertoire: switches, functions, illegal
/// characters. params: length, set, place, width, fill (0 arbitrary characters of the set, 1 fixed ones)
fn window() -> String {
    let (n, set, p, w) = (param(0), param(1), param(2), param(3));
    let mut s = String::new();
    s.push(if set == 0 { 'À' } else if set == 1 { 'Ɓ' } else { 'Ć' });
    let mut i = 0;
    while i < n {
        if i >= p && i < p + w { s.push_str(&text("any", 1, ANY)); }
        else if param(4) == 0 { s.push_str(&text("x", 1, if set == 0 { A } else if set == 1 { B } else { "0123456789" })); }
        else { s.push((48 + i % 10) as u8 as char); }
        i += 1;
    }
    s
}
pub fn c128_window() { decide(&window()); }
pub fn acc_c128_window() { accept(&window()); }
pub fn c128_sparse() { decide(&sparse()); }
pub fn acc_c128_sparse() { accept(&sparse()); }
pub fn c128_plan() {
    let s = plan();
    match (Code128::new(&s), refs::codes128(&s)) {
        (Ok(b), Some(codes)) => same(&b.encode(), &refs::symbol128(&codes), "Code 128 symbol"),
        (Ok(_), None) => fail("illegal Code 128 string accepted"),
        (Err(_), _) => check(true, "rejected: acceptance is C13"),
    }
}
/// As `c128_plan`, for acceptance only.
pub fn acc_c128_plan() { accept(&plan()); }
fn assume_two(s: &str) { let mut it = s.chars(); it.next(); assume(it.next().is_some()); }

/// Index 95 of set B must be DEL; the library uses the division sign instead (known finding).
pub fn c128_b95() {
    let n = param(0);
    let pre = text("pre", n, B);
    let mut s = String::new();
    s.push('Ɓ'); s.push_str(&pre); s.push('\u{7f}');
    let want = match refs::codes128(&s) { Some(c) => refs::symbol128(&c), None => Vec::new() };
    match Code128::new(&s) {
        Ok(b) => same(&b.encode(), &want, "Code 128 symbol of DEL"),
        Err(e) => { known(true, "code128-del"); check(e == Error::Character, "DEL rejected with another error"); }
    }
    let mut t = String::new();
    t.push('Ɓ'); t.push_str(&pre); t.push('\u{f7}');
    match Code128::new(&t) {
        Ok(b) => { known(true, "code128-del"); same(&b.encode(), &want, "Code 128 symbol of U+00F7"); }
        Err(e) => check(e == Error::Character, "U+00F7 rejected with another error"),
    }
}
/// Strings around the set-C digit pairing: digits, switches and functions only.
pub fn c128_pairs() {
    let s = text("data", param(0), "0159ÀƁĆŹA");
    decide(&s);
}
