//! Relations between symbologies.
use crate::refs;
use crate::vrt::*;
use barcoders::sym::{code11::*, code39::Code39, ean13::*, tf::TF, upca::UPCA};

const D: &str = "0123456789";
pub fn rel_upca_ean13() {
    let s = text("data", param(0), D);
    let mut t = String::new();
    t.push('0'); t.push_str(&s);
    match (UPCA::new(&s), EAN13::new(&t)) {
        (Ok(a), Ok(b)) => same(&a.encode(), &b.encode(), "UPC-A equals EAN-13 with leading zero"),
        (Err(a), Err(b)) => check(a == b, "different errors"),
        _ => fail("only one of UPC-A and EAN-13 accepts"),
    }
}
pub fn rel_code39_check() {
    let s = text("data", param(0), refs::A39);
    let v = refs::values(&s, refs::A39);
    let mut sum = 0;
    let mut i = 0;
    while i < v.len() { sum += v[i]; i += 1; }
    let mut t = s.clone();
    t.push_str(&pick(sum % 43));
    match (Code39::with_checksum(&s), Code39::new(&t)) {
        (Ok(a), Ok(b)) => same(&a.encode(), &b.encode(), "Code 39 with check character"),
        _ => fail("valid data rejected"),
    }
}
fn pick(k: usize) -> String {
    let tab = ['0', '1', '2', '3', '4', '5', '6', '7', '8', '9', 'A', 'B', 'C', 'D', 'E', 'F', 'G', 'H', 'I', 'J', 'K', 'L', 'M', 'N', 'O', 'P', 'Q', 'R', 'S', 'T', 'U', 'V', 'W', 'X', 'Y', 'Z', '-', '.', ' ', '$', '/', '+', '%'];
    let mut s = String::new();
    s.push(tab[k]);
    s
}
pub fn rel_itf_odd() {
    let n = param(0);
    let s = text("data", n, D);
    let d = refs::digits(&s);
    let mut t = s.clone();
    if n % 2 == 1 { t.push_str(&pick(refs::mod10(&d) as usize)); }
    match (TF::interleaved(&s), TF::interleaved(&t)) {
        (Ok(a), Ok(b)) => same(&a.encode(), &b.encode(), "odd interleaved data completed with its check digit"),
        _ => fail("digits rejected"),
    }
}
macro_rules! alias { ($name:ident, $a:ty, $b:ty, $al:expr) => {
    pub fn $name() {
        let s = text("data", param(0), $al);
        match (<$a>::new(&s), <$b>::new(&s)) {
            (Ok(a), Ok(b)) => same(&a.encode(), &b.encode(), "alias encodes the same"),
            (Err(a), Err(b)) => check(a == b, "different errors"),
            _ => fail("only one of the names accepts"),
        }
    }
} }
alias!(rel_jan, JAN, EAN13, D);
alias!(rel_bookland, Bookland, EAN13, D);
alias!(rel_usd8, USD8, Code11, refs::A11);
