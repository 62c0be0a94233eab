//! Variable-length symbologies. Parameter 0: data length (further parameters: alphabet class).
use crate::refs;
use crate::vrt::*;
use barcoders::sym::{codabar::Codabar, code11::*, code39::Code39, code93::Code93, tf::TF};

const DIGITS: &str = "0123456789";

pub fn code39() {
    let s = text("data", param(0), refs::A39);
    match Code39::new(&s) {
        Ok(b) => same(&b.encode(), &refs::code39(&s, false), "Code 39 symbol"),
        Err(_) => {} // acceptance is C13
    }
}
pub fn code39_check() {
    let s = text("data", param(0), refs::A39);
    match Code39::with_checksum(&s) {
        Ok(b) => same(&b.encode(), &refs::code39(&s, true), "Code 39 symbol with check character"),
        Err(_) => {} // acceptance is C13
    }
}
/// The public checksum switch selects between the two forms.
pub fn code39_switch() {
    let s = text("data", param(0), refs::A39);
    let on = param(1) == 1;
    match Code39::new(&s) {
        Ok(mut b) => { b.checksum = on; same(&b.encode(), &refs::code39(&s, on), "Code 39 symbol after setting checksum") }
        Err(_) => {} // acceptance is C13
    }
}
pub fn code93() {
    let s = text("data", param(0), refs::A93);
    match Code93::new(&s) {
        Ok(b) => same(&b.encode(), &refs::code93(&s), "Code 93 symbol"),
        Err(_) => {} // acceptance is C13
    }
}
fn a11() -> &'static str { if param(1) == 0 { refs::A11 } else if param(1) == 1 { "12345678" } else { "09-" } }
pub fn code11() {
    let s = text("data", param(0), a11());
    match Code11::new(&s) {
        Ok(b) => same(&b.encode(), &refs::code11(&s), "Code 11 symbol"),
        Err(_) => {} // acceptance is C13
    }
}
/// Every k-th character arbitrary from the first on, the others of one width class. params: length, class, first, k, most
fn mixed(all: &str, class: &str) -> String {
    let (n, p, k, most) = (param(0), param(2), param(3), param(4));
    let mut s = String::new();
    let (mut i, mut free) = (0, 0);
    while i < n {
        if i >= p && (i - p) % k == 0 && free < most { s.push_str(&text("any", 1, all)); free += 1; } else { s.push_str(&text("data", 1, class)); }
        i += 1;
    }
    s
}
pub fn code11_mixed() {
    let s = mixed(refs::A11, a11());
    match Code11::new(&s) {
        Ok(b) => same(&b.encode(), &refs::code11(&s), "Code 11 symbol"),
        Err(_) => {} // acceptance is C13
    }
}
pub fn codabar_mixed() {
    let s = mixed(refs::ACB, acb());
    match Codabar::new(&s) {
        Ok(b) => same_known(&b.encode(), &refs::codabar(&s, false, false), &refs::codabar(&s, true, true), "codabar-plus-and-bc", "Codabar symbol"),
        Err(_) => {} // acceptance is C13
    }
}
pub fn usd8() {
    let s = text("data", param(0), a11());
    match USD8::new(&s) {
        Ok(b) => same(&b.encode(), &refs::code11(&s), "USD-8 symbol"),
        Err(_) => {} // acceptance is C13
    }
}
fn acb() -> &'static str { if param(1) == 0 { "0123456789-$:/.AD" } else if param(1) == 1 { "0123456789-$" } else if param(1) == 2 { ":/.ABCD" } else { "+" } }
pub fn codabar() {
    let s = text("data", param(0), refs::ACB);
    match Codabar::new(&s) {
        Ok(b) => same_known(&b.encode(), &refs::codabar(&s, false, false), &refs::codabar(&s, true, true), "codabar-plus-and-bc", "Codabar symbol"),
        Err(_) => {} // acceptance is C13
    }
}
pub fn codabar_class() {
    let s = text("data", param(0), acb());
    match Codabar::new(&s) {
        Ok(b) => same_known(&b.encode(), &refs::codabar(&s, false, false), &refs::codabar(&s, true, true), "codabar-plus-and-bc", "Codabar symbol"),
        Err(_) => {} // acceptance is C13
    }
}
pub fn itf() {
    let s = text("data", param(0), DIGITS);
    match TF::interleaved(&s) {
        Ok(b) => {
            let mut d = refs::digits(&s);
            if d.len() % 2 == 1 { let c = refs::mod10(&d); d.push(c); }
            check(matches!(b, TF::Interleaved(_)), "interleaved() returned another variant");
            same(&b.encode(), &refs::itf(&d), "interleaved 2 of 5 symbol")
        }
        Err(_) => {} // acceptance is C13
    }
}
pub fn stf() {
    let s = text("data", param(0), DIGITS);
    match TF::standard(&s) {
        Ok(b) => {
            check(matches!(b, TF::Standard(_)), "standard() returned another variant");
            same(&b.encode(), &refs::stf(&refs::digits(&s)), "standard 2 of 5 symbol")
        }
        Err(_) => {} // acceptance is C13
    }
}
