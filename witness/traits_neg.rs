//! Each marked line must be rejected: shows that the assertions of traits.rs can fail.
#![allow(dead_code)]
fn shared<T: Send + Sync + Unpin + 'static>() {}
fn plain_copy<T: Copy + PartialEq>() {}
fn n_rc() { shared::<std::rc::Rc<u8>>(); }
fn n_cell() { shared::<std::cell::Cell<u8>>(); }
fn n_pin() { shared::<std::marker::PhantomPinned>(); }
fn n_copy() { plain_copy::<String>(); }
struct B; impl B { fn encode(&mut self) -> Vec<u8> { vec![] } }
fn e_b(b: &B) -> Vec<u8> { b.encode() }
