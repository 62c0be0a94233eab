//! Different data give different barcodes; check digits catch wrong digits.
use crate::refs;
use crate::vrt::*;
use barcoders::error::Error;
use barcoders::sym::{codabar::Codabar, code11::Code11, code128::Code128, code39::Code39, code93::Code93, ean13::EAN13, ean8::EAN8, ean_supp::EANSUPP, tf::TF, upca::UPCA};

const D: &str = "0123456789";
const MSG: &str = "two different data give the same barcode";
/// Two texts of n and m characters, unknown characters of both side by side.
fn two(n: usize, m: usize, al: &str) -> (String, String) {
    let (mut s, mut t) = (String::new(), String::new());
    let mut i = 0;
    while i < n || i < m {
        if i < n { s.push_str(&text("first", 1, al)); }
        if i < m { t.push_str(&text("second", 1, al)); }
        i += 1;
    }
    (s, t)
}
/// Whether the first k characters differ.
fn differ(s: &str, t: &str, k: usize) -> bool {
    let (mut a, mut b) = (s.chars(), t.chars());
    let mut d = false;
    let mut i = 0;
    while i < k {
        match (a.next(), b.next()) { (Some(x), Some(y)) => if x != y { d = true; }, (None, None) => {}, _ => d = true }
        i += 1;
    }
    d
}
macro_rules! distinct { ($name:ident, $new:expr, $al:expr, $cut:expr) => {
    /// params: lengths of the two texts
    pub fn $name() {
        let (n, m) = (param(0), param(1));
        let (s, t) = two(n, m, $al);
        let k = if n < m { m } else { n };
        assume(differ(&s, &t, if k > $cut { $cut } else { k }));
        match ($new(&s), $new(&t)) {
            (Ok(a), Ok(b)) => check(a.encode() != b.encode(), MSG),
            _ => {}
        }
    }
} }
const LONG: usize = 1 << 30;
/// Two texts of n characters that differ within w places from p on and share the other, unknown characters.
fn near(al: &str) -> (String, String) {
    let (n, p, w) = (param(0), param(1), param(2));
    let (mut s, mut t) = (String::new(), String::new());
    let mut d = false;
    let mut i = 0;
    while i < n {
        if i >= p && i < p + w {
            let (a, b) = (text("first", 1, al), text("second", 1, al));
            if a != b { d = true; }
            s.push_str(&a); t.push_str(&b);
        } else { let z = text("data", 1, al); s.push_str(&z); t.push_str(&z); }
        i += 1;
    }
    assume(d);
    (s, t)
}
macro_rules! neighbours { ($name:ident, $new:expr, $al:expr) => {
    /// params: length, place of the difference, its width
    pub fn $name() {
        let (s, t) = near($al);
        match ($new(&s), $new(&t)) {
            (Ok(a), Ok(b)) => check(a.encode() != b.encode(), MSG),
            _ => {}
        }
    }
} }
/// A text of n unknown characters, and the same with one more at place p.
fn longer(al: &str) -> (String, String) {
    let (n, p) = (param(0), param(1));
    let (mut s, mut t) = (String::new(), String::new());
    let mut i = 0;
    while i <= n {
        if i == p { t.push_str(&text("more", 1, al)); }
        if i < n { let z = text("data", 1, al); s.push_str(&z); t.push_str(&z); }
        i += 1;
    }
    (s, t)
}
macro_rules! inserted { ($name:ident, $new:expr, $al:expr, $itf:expr) => {
    /// params: length, place of the additional character
    pub fn $name() {
        let (s, t) = longer($al);
        // odd-length interleaved data with its check digit appended is the same number
        if $itf && param(0) % 2 == 1 { assume(differ(&s, &t, param(0))); }
        match ($new(&s), $new(&t)) {
            (Ok(a), Ok(b)) => check(a.encode() != b.encode(), MSG),
            _ => check(true, "only one is accepted"),
        }
    }
} }
inserted!(ins_code39, |s: &str| Code39::new(s), refs::A39, false);
inserted!(ins_code39c, |s: &str| Code39::with_checksum(s), refs::A39, false);
inserted!(ins_code93, |s: &str| Code93::new(s), refs::A93, false);
inserted!(ins_itf, |s: &str| TF::interleaved(s), D, true);
inserted!(ins_stf, |s: &str| TF::standard(s), D, false);
inserted!(ins_code11, |s: &str| Code11::new(s), class11(), false);
inserted!(ins_codabar, |s: &str| Codabar::new(s), classcb(), false);
inserted!(ins_code128, |s: &str| { let mut t = String::from(if param(3) == 0 { "À" } else if param(3) == 1 { "Ɓ" } else { "Ć" }); t.push_str(s); Code128::new(&t) }, if param(3) == 2 { D } else { " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_" }, false);
/// Fixed data of n characters around two unknown windows of different widths at place p.
fn windows(al: &str) -> (String, String) {
    let (n, p, w, v, k) = (param(0), param(1), param(2), param(3), param(4));
    let all: Vec<char> = al.chars().collect();
    let mut pre = String::new();
    let mut post = String::new();
    let mut x = n as u32 * 77 + 5;
    let mut i = 0;
    while i < n {
        x = (x % 65521) * 32719 + 3;
        let c = if k == 0 { all[0] } else if k == 1 { all[all.len() - 1] } else { all[(x >> 5) as usize % all.len()] };
        if i < p { pre.push(c); } else { post.push(c); }
        i += 1;
    }
    let (a, b) = two(w, v, al);
    if w == v { assume(differ(&a, &b, w)); }
    let (mut s, mut t) = (pre.clone(), pre);
    s.push_str(&a); t.push_str(&b);
    s.push_str(&post); t.push_str(&post);
    (s, t)
}
macro_rules! windowed { ($name:ident, $new:expr, $al:expr, $itf:expr) => {
    /// params: length of the fixed data, place, widths of the two windows, fixed characters (0 the first, 1 the last, 2 mixed)
    pub fn $name() {
        let (s, t) = windows($al);
        let (n, m) = (param(0) + param(2), param(0) + param(3));
        if n != m { assume(differ(&s, &t, if $itf && (if n < m { n } else { m }) % 2 == 1 { if n < m { n } else { m } } else { if n < m { m } else { n } })); }
        match ($new(&s), $new(&t)) {
            (Ok(a), Ok(b)) => check(a.encode() != b.encode(), MSG),
            _ => check(true, "only one is accepted"),
        }
    }
} }
windowed!(fix_code39, |s: &str| Code39::new(s), refs::A39, false);
windowed!(fix_code39c, |s: &str| Code39::with_checksum(s), refs::A39, false);
windowed!(fix_code93, |s: &str| Code93::new(s), refs::A93, false);
windowed!(fix_code11, |s: &str| Code11::new(s), refs::A11, false);
windowed!(fix_codabar, |s: &str| Codabar::new(s), refs::ACB, false);
windowed!(fix_itf, |s: &str| TF::interleaved(s), D, true);
windowed!(fix_stf, |s: &str| TF::standard(s), D, false);
windowed!(fix_code128, |s: &str| { let mut t = String::from(if param(5) == 0 { "À" } else if param(5) == 1 { "Ɓ" } else { "Ć" }); t.push_str(s); Code128::new(&t) }, if param(5) == 2 { D } else { " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_" }, false);
neighbours!(near_code39, |s: &str| Code39::new(s), refs::A39);
neighbours!(near_code39c, |s: &str| Code39::with_checksum(s), refs::A39);
neighbours!(near_code93, |s: &str| Code93::new(s), refs::A93);
neighbours!(near_itf, |s: &str| TF::interleaved(s), D);
neighbours!(near_stf, |s: &str| TF::standard(s), D);
fn class11() -> &'static str { if param(3) == 1 { "12345678" } else { "09-" } }
fn classcb() -> &'static str { if param(3) == 1 { "0123456789-$" } else { ":/.ABCD" } }
neighbours!(near_code11, |s: &str| Code11::new(s), class11());
neighbours!(near_codabar, |s: &str| Codabar::new(s), classcb());
/// params: length, place, width, set
pub fn near_code128() {
    let set = param(3);
    let (s, t) = near(if set == 2 { D } else { " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_" });
    let pre = if set == 0 { "À" } else if set == 1 { "Ɓ" } else { "Ć" };
    let (mut a, mut b) = (String::from(pre), String::from(pre));
    a.push_str(&s); b.push_str(&t);
    match (Code128::new(&a), Code128::new(&b)) {
        (Ok(a), Ok(b)) => check(a.encode() != b.encode(), MSG),
        _ => {}
    }
}
distinct!(inj_code39, |s: &str| Code39::new(s), refs::A39, LONG);
distinct!(inj_code39c, |s: &str| Code39::with_checksum(s), refs::A39, LONG);
distinct!(inj_code93, |s: &str| Code93::new(s), refs::A93, LONG);
distinct!(inj_code11, |s: &str| Code11::new(s), refs::A11, LONG);
distinct!(inj_codabar, |s: &str| Codabar::new(s), refs::ACB, LONG);
distinct!(inj_stf, |s: &str| TF::standard(s), D, LONG);
distinct!(inj_ean13, |s: &str| EAN13::new(s), D, 12);
distinct!(inj_ean8, |s: &str| EAN8::new(s), D, 7);
distinct!(inj_upca, |s: &str| UPCA::new(s), D, 11);
distinct!(inj_addon, |s: &str| EANSUPP::new(s), D, LONG);
/// Odd-length data with its check digit appended is the same number.
pub fn inj_itf() {
    let (n, m) = (param(0), param(1));
    let (s, t) = two(n, m, D);
    let k = if n < m { m } else { n };
    if (n % 2 == 1 && m == n + 1) || (m % 2 == 1 && n == m + 1) { assume(differ(&s, &t, k - 1)); } else { assume(differ(&s, &t, k)); }
    match (TF::interleaved(&s), TF::interleaved(&t)) {
        (Ok(a), Ok(b)) => check(a.encode() != b.encode(), MSG),
        _ => {}
    }
}
const ANY: &str = "\u{0}\u{1}\u{1f} !/0123456789AZ_`az~ŹźŻżŽÀƁĆ";
/// params: lengths, start sets (0 A, 1 B, 2 C), repertoire (0 everything, 1 printable, 2 digits)
pub fn inj_code128() {
    let (n, m) = (param(0), param(1));
    let al = if param(4) == 0 { ANY } else if param(4) == 1 { " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_" } else { D };
    let (s, t) = two(n, m, al);
    let set = |k: usize, v: &str| { let mut o = String::new(); o.push(if k == 0 { 'À' } else if k == 1 { 'Ɓ' } else { 'Ć' }); o.push_str(v); o };
    let (a, b) = (set(param(2), &s), set(param(3), &t));
    if param(2) == param(3) { assume(differ(&s, &t, if n < m { m } else { n })); }
    match (Code128::new(&a), Code128::new(&b)) {
        (Ok(a), Ok(b)) => check(a.encode() != b.encode(), MSG),
        _ => {}
    }
}

/// One wrong digit in a full number. params: place, kind (0 substitution, 1 transposition with the next digit)
fn wrong(n: usize) -> (String, String) {
    let p = param(0);
    let x = text("digit", 1, D);
    let y = text("other", 1, D);
    let (a, b) = (refs::digits(&x)[0], refs::digits(&y)[0]);
    let a = case(a as u64);
    let b = case(b as u64);
    assume(a != b);
    // a difference of five between neighbours is not seen by a modulo-10 check
    if param(1) == 1 { assume(a + 5 != b && b + 5 != a); }
    let (x, y) = (((48 + a) as u8 as char).to_string(), ((48 + b) as u8 as char).to_string());
    let (mut s, mut t) = (String::new(), String::new());
    let mut i = 0;
    while i < n {
        if i == p { s.push_str(&x); t.push_str(&y); }
        else if param(1) == 1 && i == p + 1 { s.push_str(&y); t.push_str(&x); }
        else { let z = text("data", 1, D); s.push_str(&z); t.push_str(&z); }
        i += 1;
    }
    (s, t)
}
macro_rules! detects { ($name:ident, $ty:ty, $n:expr) => {
    pub fn $name() {
        let (s, t) = wrong($n);
        match (<$ty>::new(&s), <$ty>::new(&t)) {
            (Ok(_), Ok(_)) => fail("a number and the same number with a wrong digit are both accepted"),
            (Ok(_), Err(e)) => check(e == Error::Checksum, "a wrong digit is not reported as the checksum error"),
            (Err(_), Ok(_)) => check(true, "the other one is right"),
            (Err(a), Err(b)) => check(a == Error::Checksum && b == Error::Checksum, "digits of the full length not reported as the checksum error"),
        }
    }
} }
detects!(det_ean13, EAN13, 13);
detects!(det_ean8, EAN8, 8);
detects!(det_upca, UPCA, 12);
