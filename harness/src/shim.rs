//! Loop-level definitions of library operations whose standard implementation is written with
//! raw pointers or specialisation. Generic arguments are the trait-level ones.
use std::fmt;
use std::ops::Try;

pub fn string_ty() -> String { String::new() }

pub fn iter_fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next() { acc = f(acc, x); }
    acc
}
pub fn iter_rfold<I: DoubleEndedIterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next_back() { acc = f(acc, x); }
    acc
}
pub fn iter_count<I: Iterator>(mut it: I) -> usize {
    let mut n = 0;
    while let Some(_) = it.next() { n += 1; }
    n
}
pub fn iter_last<I: Iterator>(mut it: I) -> Option<I::Item> {
    let mut r = None;
    while let Some(x) = it.next() { r = Some(x); }
    r
}
pub fn iter_nth<I: Iterator>(it: &mut I, n: usize) -> Option<I::Item> {
    let mut k = n;
    while k > 0 { if it.next().is_none() { return None; } k -= 1; }
    it.next()
}
pub fn iter_nth_back<I: DoubleEndedIterator>(it: &mut I, n: usize) -> Option<I::Item> {
    let mut k = n;
    while k > 0 { if it.next_back().is_none() { return None; } k -= 1; }
    it.next_back()
}
pub fn iter_advance_by<I: Iterator>(it: &mut I, n: usize) -> Result<(), std::num::NonZero<usize>> {
    let mut k = n;
    while k > 0 { if it.next().is_none() { return Err(std::num::NonZero::new(k).unwrap()); } k -= 1; }
    Ok(())
}
pub fn iter_for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) { while let Some(x) = it.next() { f(x); } }
pub fn iter_all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() { if !f(x) { return false; } }
    true
}
pub fn iter_any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() { if f(x) { return true; } }
    false
}
pub fn iter_find<I: Iterator, P: FnMut(&I::Item) -> bool>(it: &mut I, mut p: P) -> Option<I::Item> {
    while let Some(x) = it.next() { if p(&x) { return Some(x); } }
    None
}
pub fn iter_rfind<I: DoubleEndedIterator, P: FnMut(&I::Item) -> bool>(it: &mut I, mut p: P) -> Option<I::Item> {
    while let Some(x) = it.next_back() { if p(&x) { return Some(x); } }
    None
}
pub fn iter_find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
    while let Some(x) = it.next() { if let Some(r) = f(x) { return Some(r); } }
    None
}
pub fn iter_position<I: Iterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut p: P) -> Option<usize> {
    let mut i = 0;
    while let Some(x) = it.next() { if p(x) { return Some(i); } i += 1; }
    None
}
pub fn iter_rposition<I: ExactSizeIterator + DoubleEndedIterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut p: P) -> Option<usize> {
    let mut i = it.len();
    while let Some(x) = it.next_back() { i -= 1; if p(x) { return Some(i); } }
    None
}
pub fn iter_try_fold<I: Iterator, B, F: FnMut(B, I::Item) -> R, R: Try<Output = B>>(it: &mut I, init: B, mut f: F) -> R {
    let mut acc = init;
    while let Some(x) = it.next() { acc = f(acc, x)?; }
    R::from_output(acc)
}
pub fn iter_unzip<I: Iterator<Item = (A, B)>, A, B, FA: Default + Extend<A>, FB: Default + Extend<B>>(mut it: I) -> (FA, FB) {
    let mut a = FA::default();
    let mut b = FB::default();
    while let Some((x, y)) = it.next() { a.extend(Some(x)); b.extend(Some(y)); }
    (a, b)
}
pub fn zip_next<A: Iterator, B: Iterator>(a: &mut A, b: &mut B) -> Option<(A::Item, B::Item)> {
    let x = a.next()?;
    let y = b.next()?;
    Some((x, y))
}
pub fn zip_next_back<A: DoubleEndedIterator + ExactSizeIterator, B: DoubleEndedIterator + ExactSizeIterator>(a: &mut A, b: &mut B) -> Option<(A::Item, B::Item)> {
    let (n, m) = (a.len(), b.len());
    let mut k = n;
    while k > m { a.next_back(); k -= 1; }
    let mut k = m;
    while k > n { b.next_back(); k -= 1; }
    match (a.next_back(), b.next_back()) { (Some(x), Some(y)) => Some((x, y)), _ => None }
}
pub fn zip_size_hint<A: Iterator, B: Iterator>(a: &A, b: &B) -> (usize, Option<usize>) {
    let (al, ah) = a.size_hint();
    let (bl, bh) = b.size_hint();
    let lo = if al < bl { al } else { bl };
    let hi = match (ah, bh) { (Some(x), Some(y)) => Some(if x < y { x } else { y }), (Some(x), None) => Some(x), (None, y) => y };
    (lo, hi)
}
pub fn vec_from_iter<S, A, T: IntoIterator<Item = A>>(t: T) -> Vec<A> {
    let mut v = Vec::new();
    let mut it = t.into_iter();
    while let Some(x) = it.next() { v.push(x); }
    v
}
pub fn vec_extend<S, A, T: IntoIterator<Item = A>>(v: &mut Vec<A>, t: T) {
    let mut it = t.into_iter();
    while let Some(x) = it.next() { v.push(x); }
}
pub fn vec_extend_ref<S: VecLike<A>, A: std::ops::Deref, T: IntoIterator<Item = A>>(v: &mut S, t: T) where A::Target: Copy, S: VecLike<A, E = A::Target> {
    let mut it = t.into_iter();
    while let Some(x) = it.next() { v.put(*x); }
}
pub trait VecLike<A> { type E; fn put(&mut self, x: Self::E); }
impl<'a, E: Copy> VecLike<&'a E> for Vec<E> { type E = E; fn put(&mut self, x: E) { self.push(x) } }
pub trait PushTo { fn push_to(self, s: &mut String); }
impl PushTo for char { fn push_to(self, s: &mut String) { s.push(self) } }
impl<'a> PushTo for &'a char { fn push_to(self, s: &mut String) { s.push(*self) } }
impl<'a> PushTo for &'a str { fn push_to(self, s: &mut String) { s.push_str(self) } }
impl PushTo for String { fn push_to(self, s: &mut String) { s.push_str(&self) } }
impl<'a> PushTo for std::borrow::Cow<'a, str> { fn push_to(self, s: &mut String) { s.push_str(&self) } }
impl PushTo for Box<str> { fn push_to(self, s: &mut String) { s.push_str(&self) } }
pub fn string_from_iter<S, A: PushTo, T: IntoIterator<Item = A>>(t: T) -> String {
    let mut s = String::new();
    let mut it = t.into_iter();
    while let Some(x) = it.next() { x.push_to(&mut s); }
    s
}
pub fn string_extend<S, A: PushTo, T: IntoIterator<Item = A>>(s: &mut String, t: T) {
    let mut it = t.into_iter();
    while let Some(x) = it.next() { x.push_to(s); }
}
pub fn fmt_display<T: fmt::Display + ?Sized>(x: &T, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(x, f) }
pub fn fmt_debug<T: fmt::Debug + ?Sized>(x: &T, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(x, f) }
pub fn fmt_lower_hex<T: fmt::LowerHex + ?Sized>(x: &T, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::LowerHex::fmt(x, f) }
pub fn fmt_upper_hex<T: fmt::UpperHex + ?Sized>(x: &T, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::UpperHex::fmt(x, f) }
pub fn write_str_to<W: fmt::Write + ?Sized>(w: &mut W, s: &str) -> fmt::Result { w.write_str(s) }
