//! The interface between harnesses and the symbolic executor (or, in replays, the native runtime).
use std::vec::Vec;

mod raw {
    extern "C" {
        pub fn vx_sym(p: *mut u8, n: usize);
        pub fn vx_param(i: u64) -> u64;
        pub fn vx_assume(c: bool);
        pub fn vx_check(c: bool, p: *const u8, n: usize);
        pub fn vx_cover(p: *const u8, n: usize);
        pub fn vx_log(v: u64);
        pub fn vx_fork(v: u64) -> u64;
        pub fn vx_coro(f: extern "C" fn(u64), arg: u64) -> u64;
        pub fn vx_switch(to: u64);
        pub fn vx_panics_end();
    }
}

/// n bytes, each any value
pub fn bytes(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    if n > 0 {
        unsafe { raw::vx_sym(v.as_mut_ptr(), n) };
    }
    v
}
pub fn array<const N: usize>() -> [u8; N] {
    let mut v = [0u8; N];
    unsafe { raw::vx_sym(v.as_mut_ptr(), N) };
    v
}
pub fn u8() -> u8 {
    array::<1>()[0]
}
pub fn u16() -> u16 {
    u16::from_le_bytes(array())
}
pub fn u32() -> u32 {
    u32::from_le_bytes(array())
}
pub fn u64() -> u64 {
    u64::from_le_bytes(array())
}
pub fn u128() -> u128 {
    u128::from_le_bytes(array())
}
pub fn bool() -> bool {
    let b = u8();
    assume(b <= 1);
    b == 1
}
/// any value below n
pub fn below(n: u64) -> u64 {
    let v = if n <= 256 { u8() as u64 } else { u64() };
    assume(v < n);
    v
}
/// any value below n, explored one by one
pub fn choose(n: u64) -> u64 {
    fork(below(n))
}
/// where the parameters of the entry start and how many it has, in a sequence of entries
static mut WINDOW: Option<(u64, u64)> = None;
/// parameter of this instance
pub fn param(i: u64) -> u64 {
    match unsafe { WINDOW } {
        Some((_, n)) if i >= n => 0,
        Some((at, _)) => unsafe { raw::vx_param(at + i) },
        None => unsafe { raw::vx_param(i) },
    }
}
/// runs an entry with the n parameters from `at` on
pub fn windowed(at: u64, n: u64, f: extern "C" fn()) {
    unsafe { WINDOW = Some((at, n)) };
    f();
    unsafe { WINDOW = None };
}
pub fn assume(c: bool) {
    unsafe { raw::vx_assume(c) }
}
pub fn check(c: bool, what: &str) {
    unsafe { raw::vx_check(c, what.as_ptr(), what.len()) }
}
pub fn cover(what: &str) {
    unsafe { raw::vx_cover(what.as_ptr(), what.len()) }
}
pub fn log(v: u64) {
    unsafe { raw::vx_log(v) }
}
pub fn log_bytes(b: &[u8]) {
    log(b.len() as u64);
    for x in b {
        log(*x as u64);
    }
}
pub fn fork(v: u64) -> u64 {
    unsafe { raw::vx_fork(v) }
}
/// a new coroutine; its function never returns
pub fn coro(f: extern "C" fn(u64), arg: u64) -> u64 {
    unsafe { raw::vx_coro(f, arg) }
}
/// the next panic of a coroutine ends it and returns from `switch` in the main one
pub fn panics_end() {
    unsafe { raw::vx_panics_end() }
}
pub fn switch(to: u64) {
    unsafe { raw::vx_switch(to) }
}
pub use cryptomodel::same;
