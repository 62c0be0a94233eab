//! Abstract inputs and proof obligations. The analyser replaces every function here.

/// Parameter of the current partition (lengths, sizes).
pub fn param(_i: usize) -> usize { unreachable!() }
/// Text of exactly `n` characters drawn independently from `alphabet`.
pub fn text(_label: &str, _n: usize, _alphabet: &str) -> String { unreachable!() }
/// Text of exactly `n` arbitrary Unicode scalar values.
pub fn uni(_label: &str, _n: usize) -> String { unreachable!() }
/// Text of exactly `n` Unicode scalar values within `lo..=hi`.
pub fn uni_in(_label: &str, _n: usize, _lo: u32, _hi: u32) -> String { unreachable!() }
/// `n` bytes, each within `lo..=hi`.
pub fn bytes(_label: &str, _n: usize, _lo: u8, _hi: u8) -> Vec<u8> { unreachable!() }
/// An integer within `lo..=hi`.
pub fn num(_label: &str, _lo: u64, _hi: u64) -> u64 { unreachable!() }
/// Partition on the value.
pub fn case(_x: u64) -> u64 { unreachable!() }
pub fn assume(_c: bool) { unreachable!() }
pub fn check(_c: bool, _msg: &str) { unreachable!() }
pub fn fail(_msg: &str) -> ! { unreachable!() }
pub fn same(_got: &[u8], _want: &[u8], _msg: &str) { unreachable!() }
pub fn same_text(_got: &str, _want: &str, _msg: &str) { unreachable!() }
pub fn same_known(_got: &[u8], _want: &[u8], _known: &[u8], _id: &str, _msg: &str) { unreachable!() }
pub fn known(_c: bool, _id: &str) { unreachable!() }
pub fn debug<T>(_x: &T) { unreachable!() }
/// Whether the image encoder succeeds (unknown).
pub fn encoder_ok() -> bool { unreachable!() }
