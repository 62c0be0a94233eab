//! Every rule of the effect analysis must fire here.
use std::cell::Cell;
use std::collections::HashMap;
use std::sync::atomic::{AtomicUsize, Ordering};
static COUNT: AtomicUsize = AtomicUsize::new(0);
static mut PLAIN: u32 = 0;
thread_local!(static T: Cell<u8> = const { Cell::new(0) });
pub struct Cached { pub a: Box<Cell<u8>> }
pub fn p_static() -> usize { COUNT.fetch_add(1, Ordering::Relaxed) }
pub fn p_mut() -> u32 { unsafe { PLAIN } }
pub fn p_tls() -> u8 { T.with(|c| c.get()) }
pub fn p_print() { println!("x"); }
pub fn p_env() -> bool { std::env::var("X").is_ok() }
pub fn p_time() -> std::time::Instant { std::time::Instant::now() }
pub fn p_fs() -> bool { std::fs::read("x").is_ok() }
pub fn p_thread() { std::thread::spawn(|| {}); }
pub fn p_order(m: &HashMap<u8, u8>) -> Vec<u8> { m.keys().copied().collect() }
pub fn p_addr(x: &u8) -> usize { x as *const u8 as usize }
pub fn p_fnptr() { let f: fn(i32) -> ! = std::process::exit; let _ = f; }
pub fn p_unsafe(v: &[u8]) -> u8 { unsafe { *v.get_unchecked(0) } }
