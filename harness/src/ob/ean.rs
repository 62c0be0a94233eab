//! Fixed-length retail symbologies. Parameters: none.
use crate::refs;
use crate::vrt::*;
use barcoders::sym::{ean13::*, ean8::EAN8, ean_supp::EANSUPP, upca::UPCA};

pub const DIGITS: &str = "0123456789";

macro_rules! short { ($name:ident, $ty:ty, $n:expr, $r:path) => {
    pub fn $name() {
        let s = text("data", $n, DIGITS);
        match <$ty>::new(&s) {
            Ok(b) => same(&b.encode(), &$r(&refs::digits(&s)), "encoded symbol"),
            Err(_) => fail("valid digits rejected"),
        }
    }
} }
short!(ean13_short, EAN13, 12, refs::ean13);
short!(bookland_short, Bookland, 12, refs::ean13);
short!(jan_short, JAN, 12, refs::ean13);
short!(ean8_short, EAN8, 7, refs::ean8);
short!(upca_short, UPCA, 11, refs::upca);
short!(ean2, EANSUPP, 2, refs::addon);
short!(ean5, EANSUPP, 5, refs::addon);

// Full numbers: encoded symbol of every accepted one.
macro_rules! long { ($name:ident, $ty:ty, $n:expr, $r:path) => {
    pub fn $name() {
        let s = text("data", $n, DIGITS);
        let d = refs::digits(&s);
        match <$ty>::new(&s) {
            Ok(b) => same(&b.encode(), &$r(&d[..$n - 1]), "encoded symbol of the full number"),
            Err(_) => check(refs::mod10(&d[..$n - 1]) != d[$n - 1], "correct check digit rejected"),
        }
    }
} }
long!(ean13_long, EAN13, 13, refs::ean13);
long!(ean8_long, EAN8, 8, refs::ean8);
long!(upca_long, UPCA, 12, refs::upca);

// C12: accepted iff the check digit is correct, otherwise Checksum.
macro_rules! digit { ($name:ident, $ty:ty, $n:expr) => {
    pub fn $name() {
        let s = text("data", $n, DIGITS);
        let d = refs::digits(&s);
        let good = refs::mod10(&d[..$n - 1]) == d[$n - 1];
        match <$ty>::new(&s) {
            Ok(b) => {
                check(good, "wrong check digit accepted");
                match <$ty>::new(&s[..$n - 1]) {
                    Ok(x) => same(&b.encode(), &x.encode(), "full number encodes like the short one"),
                    Err(_) => fail("short form rejected"),
                }
            }
            Err(e) => {
                check(!good, "correct check digit rejected");
                check(e == barcoders::error::Error::Checksum, "wrong check digit not reported as Checksum");
            }
        }
    }
} }
digit!(ean13_digit, EAN13, 13);
digit!(ean8_digit, EAN8, 8);
digit!(upca_digit, UPCA, 12);
digit!(jan_digit, JAN, 13);

/// The add-on constructor returns the variant of the length.
pub fn addon_variant() {
    let n = param(0);
    let s = text("data", n, DIGITS);
    match EANSUPP::new(&s) {
        Ok(EANSUPP::EAN2(_)) => check(n == 2, "EAN2 for another length"),
        Ok(EANSUPP::EAN5(_)) => check(n == 5, "EAN5 for another length"),
        Err(_) => check(n != 2 && n != 5, "add-on rejected"),
    }
}
