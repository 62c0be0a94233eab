//! Module well-formedness and symbol length. Parameter 0: data length.
use crate::refs;
use crate::vrt::*;
use barcoders::sym::{codabar::Codabar, code11::Code11, code128::Code128, code39::Code39, code93::Code93, ean13::EAN13, ean8::EAN8, ean_supp::EANSUPP, tf::TF, upca::UPCA};

const D: &str = "0123456789";
fn modules(e: &[u8], want: usize) {
    let n = e.len();
    check(n == want, "symbol length");
    check(n > 0 && e[0] == 1 && e[n - 1] == 1, "symbol does not start and end with a bar");
    let mut i = 0;
    let mut ok = true;
    while i < n { if e[i] > 1 { ok = false; } i += 1; }
    check(ok, "module other than 0 or 1");
}
macro_rules! shape { ($name:ident, $new:expr, $n:expr, $al:expr, $len:expr) => {
    pub fn $name() {
        let n: usize = $n;
        let s = text("data", n, $al);
        match $new(&s) { Ok(b) => modules(&b.encode(), $len(n)), Err(_) => {} }
        check(true, "done");
    }
} }
shape!(sh_ean13, |s: &str| EAN13::new(s), param(0), D, |_n| 95);
shape!(sh_upca, |s: &str| UPCA::new(s), param(0), D, |_n| 95);
shape!(sh_ean8, |s: &str| EAN8::new(s), param(0), D, |_n| 67);
shape!(sh_code39, |s: &str| Code39::new(s), param(0), refs::A39, |n: usize| n * 13 + 25);
shape!(sh_code39c, |s: &str| Code39::with_checksum(s), param(0), refs::A39, |n: usize| n * 13 + 38);
shape!(sh_code93, |s: &str| Code93::new(s), param(0), refs::A93, |n: usize| n * 9 + 37);
shape!(sh_itf, |s: &str| TF::interleaved(s), param(0), D, |n: usize| (n + n % 2) * 9 + 8);
pub fn sh_addon() {
    let n = param(0);
    let s = text("data", n, D);
    match EANSUPP::new(&s) { Ok(b) => modules(&b.encode(), 4 + 7 * n + 2 * (n - 1)), Err(_) => {} }
    check(true, "done");
}
/// STF stop ends with a narrow space in this library (see DESIGN.md): only the payload rule is stated.
pub fn sh_stf() {
    let n = param(0);
    let s = text("data", n, D);
    match TF::standard(&s) {
        Ok(b) => {
            let e = b.encode();
            check(e.len() == 16 + n * 14, "symbol length");
            check(e[0] == 1, "symbol does not start with a bar");
            let mut i = 0;
            let mut ok = true;
            while i < e.len() { if e[i] > 1 { ok = false; } i += 1; }
            check(ok, "module other than 0 or 1");
        }
        Err(_) => fail("digits rejected"),
    }
}
fn class(k: usize) -> (&'static str, usize) { if k == 0 { ("12345678", 7) } else { ("09-", 6) } }
/// Code 11: width-homogeneous alphabets, check characters may have either width.
pub fn sh_code11() {
    let n = param(0);
    let (al, w) = class(param(1));
    let s = text("data", n, al);
    match Code11::new(&s) {
        Ok(b) => {
            let e = b.encode();
            let k = if n > 10 { 2 } else { 1 };
            let min = 15 + n * (w + 1) + k * 7;
            check(e.len() >= min && e.len() <= min + k, "symbol length");
            check(e[0] == 1 && e[e.len() - 1] == 1, "symbol does not start and end with a bar");
            let mut i = 0;
            let mut ok = true;
            while i < e.len() { if e[i] > 1 { ok = false; } i += 1; }
            check(ok, "module other than 0 or 1");
        }
        Err(_) => fail("valid data rejected"),
    }
}
/// Codabar: 10 modules for digits, dash and dollar, 11 for the others, including the gap.
pub fn sh_codabar() {
    let n = param(0);
    let (al, w) = if param(1) == 0 { ("0123456789-$", 9) } else { (":/.ABCD", 10) };
    let s = text("data", n, al);
    match Codabar::new(&s) { Ok(b) => modules(&b.encode(), n * (w + 1) - 1), Err(_) => fail("valid data rejected") }
}
pub fn sh_code128() {
    let n = param(0);
    let mut s = String::new();
    let set = param(1);
    s.push_str(if set == 0 { "À" } else if set == 1 { "Ɓ" } else { "Ć" });
    let s2 = text("data", n, if set == 2 { D } else { " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_" });
    s.push_str(&s2);
    match Code128::new(&s) { Ok(b) => modules(&b.encode(), 35 + 11 * (if set == 2 { n / 2 } else { n })), Err(_) => check(set == 2 && n % 2 == 1, "valid data rejected") }
}
