//! Errors.
use crate::vrt::*;
use barcoders::error::Error;

/// Every error kind displays as its own message.
pub fn err_display() {
    same_text(&Error::Character.to_string(), "Barcode data is invalid", "message of Character");
    same_text(&Error::Length.to_string(), "Barcode data length is invalid", "message of Length");
    same_text(&Error::Generate.to_string(), "Could not generate barcode data", "message of Generate");
    same_text(&Error::Checksum.to_string(), "Invalid checksum", "message of Checksum");
}
fn kind(k: u64) -> Error { if k == 0 { Error::Character } else if k == 1 { Error::Length } else if k == 2 { Error::Generate } else { Error::Checksum } }
/// Errors compare equal exactly when they are the same kind; copies are equal.
pub fn err_eq() {
    let (i, j) = (num("left", 0, 3), num("right", 0, 3));
    let (a, b) = (kind(i), kind(j));
    check((a == b) == (i == j), "equality of errors");
    let c = a;
    check(c == a, "a copy equals its original");
    check((a != b) == (i != j), "inequality of errors");
}
