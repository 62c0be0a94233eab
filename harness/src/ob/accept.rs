//! Acceptance: any Unicode text of n characters. Lengths are counted in bytes by the library; for
//! non-ASCII text either error is accepted where the byte and character counts disagree.
use crate::refs;
use crate::vrt::*;
use barcoders::error::Error;
use barcoders::sym::{codabar::Codabar, code11::Code11, code128::Code128, code39::Code39, code93::Code93, ean13::EAN13, ean8::EAN8, ean_supp::EANSUPP, tf::TF, upca::UPCA};

fn legal(s: &str, alphabet: &str) -> bool {
    let mut ok = true;
    let mut it = s.chars();
    while let Some(c) = it.next() { if refs::pos(c, alphabet) == alphabet.len() { ok = false; } }
    ok
}
/// `r`: None accepted, Some(e) rejected. Byte/character counts outside `lo..=hi` must be Length.
fn judge(s: &str, n: usize, r: Option<Error>, alphabet: &str, lo: usize, hi: usize) {
    let bytes = s.len();
    let char_in = lo <= n && n <= hi;
    let byte_in = lo <= bytes && bytes <= hi;
    let ok = legal(s, alphabet);
    match r {
        None => { check(char_in, "text outside the length bounds accepted"); check(ok, "illegal character accepted"); }
        Some(Error::Length) => check(!char_in || !byte_in, "Length reported for text within the bounds"),
        Some(Error::Character) => { check(char_in || byte_in, "text outside the length bounds not reported as Length"); check(!ok, "Character reported for legal text"); }
        Some(_) => fail("unexpected error kind"),
    }
}
macro_rules! accept { ($name:ident, $new:expr, $al:expr, $lo:expr, $hi:expr) => {
    pub fn $name() {
        let n = param(0);
        let s = src(n, $al);
        let r = match $new(&s) { Ok(_) => None, Err(e) => Some(e) };
        judge(&s, n, r, $al, $lo, $hi);
    }
} }
/// param 1 = 0: every character arbitrary; 2: legal; 3: every character arbitrary ASCII; otherwise legal text with one arbitrary character at position param 2.
fn src(n: usize, alphabet: &str) -> String {
    if param(1) == 0 { return uni("data", n); }
    if param(1) == 2 { return text("data", n, alphabet); }
    if param(1) == 3 { return uni_in("data", n, 0, 0x7f); }
    let p = param(2);
    let mut s = text("pre", p, alphabet);
    s.push_str(&uni("any", 1));
    s.push_str(&text("post", n - p - 1, alphabet));
    s
}
const D: &str = "0123456789";
accept!(acc_code39, |s: &str| Code39::new(s), refs::A39, 1, 256);
accept!(acc_code39c, |s: &str| Code39::with_checksum(s), refs::A39, 1, 256);
accept!(acc_code93, |s: &str| Code93::new(s), refs::A93, 1, 256);
accept!(acc_code11, |s: &str| Code11::new(s), refs::A11, 1, 256);
accept!(acc_codabar, |s: &str| Codabar::new(s), refs::ACB, 1, 256);
accept!(acc_itf, |s: &str| TF::interleaved(s), D, 1, 256);
accept!(acc_stf, |s: &str| TF::standard(s), D, 1, 256);

macro_rules! accept_ean { ($name:ident, $ty:ty, $lo:expr) => {
    pub fn $name() {
        let n = param(0);
        let s = src(n, D);
        let r = match <$ty>::new(&s) { Ok(_) => None, Err(e) => Some(e) };
        let full = n == $lo + 1 && legal(&s, D);
        match r {
            Some(Error::Checksum) => check(full, "Checksum reported for something else than a full number"),
            r => judge(&s, n, r, D, $lo, $lo + 1),
        }
    }
} }
accept_ean!(acc_ean13, EAN13, 12);
accept_ean!(acc_ean8, EAN8, 7);
accept_ean!(acc_upca, UPCA, 11);

pub fn acc_addon() {
    let n = param(0);
    let s = src(n, D);
    let r = match EANSUPP::new(&s) { Ok(_) => None, Err(e) => Some(e) };
    let ok = legal(&s, D);
    let b = s.len();
    match r {
        None => check(ok && (n == 2 || n == 5), "illegal add-on accepted"),
        Some(Error::Length) => check((n != 2 && n != 5) || (b != 2 && b != 5), "Length reported for 2 or 5 characters"),
        // 3 and 4 illegal characters violate both rules; either may be reported first
        Some(Error::Character) => { check(!ok, "Character reported for digits"); check((n >= 2 && n <= 5) || (b >= 2 && b <= 5), "length outside 2..5 not reported as Length"); }
        Some(_) => fail("unexpected error kind"),
    }
}
pub fn acc_code128() {
    let n = param(0);
    let s = if param(1) == 0 { uni("data", n) } else {
        let mut s = String::new();
        s.push_str(if param(1) == 1 { "À" } else if param(1) == 2 { "Ɓ" } else { "Ć" });
        if n > 1 { s.push_str(&uni("any", n - 1)); }
        s
    };
    // index 95 of set B: see c128_b95
    let mut it = s.chars();
    while let Some(c) = it.next() { assume(c != '\u{7f}' && c != '\u{f7}'); }
    let legal = refs::codes128(&s).is_some();
    match Code128::new(&s) {
        Ok(_) => { check(n >= 2, "fewer than two characters accepted"); check(legal, "illegal Code 128 string accepted"); }
        Err(Error::Length) => check(n < 2, "Length reported for two or more characters"),
        Err(Error::Character) => { check(n >= 2, "fewer than two characters not reported as Length"); check(!legal, "legal Code 128 string rejected"); }
        Err(_) => fail("unexpected error kind"),
    }
}
