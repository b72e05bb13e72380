//! Harness-side interface: in the encoded build these are intrinsics of the symbolic
//! executor, in the native replay build they read the solver's values from a file.
#![allow(dead_code)]
extern "C" {
    fn __sym_range(lo: u64, hi: u64) -> u64;
    fn __sym_byte(lo: u8, hi: u8) -> u8;
    fn __sym_pick(n: u64) -> u64;
    fn __sym_conc(x: u64) -> u64;
    fn __sym_frac(i: u64, f: u64, v: u64) -> f64;
    fn __sym_assume(b: bool);
    fn __sym_assert(b: bool, id: u32);
    fn __sym_cover(id: u32);
    fn __sym_symbolic() -> bool;
    fn __sym_panic_ok(b: bool);
    fn __sym_outside();
    fn __sym_skip();
    fn __sym_args(n: usize, v: *const *const u8);
    fn __sym_note(p: *const u8, n: usize);
}
/// any value in lo..=hi
pub fn range(lo: u64, hi: u64) -> u64 {
    unsafe { __sym_range(lo, hi) }
}
pub fn byte(lo: u8, hi: u8) -> u8 {
    unsafe { __sym_byte(lo, hi) }
}
/// any value in 0..n, one explored path each
pub fn pick(n: u64) -> u64 {
    unsafe { __sym_pick(n) }
}
pub fn conc(x: u64) -> u64 {
    unsafe { __sym_conc(x) }
}
/// the f64 nearest to i + f / 10^v; callers guarantee that it lies strictly between i and i + 1
pub fn frac(i: u64, f: u64, v: u64) -> f64 {
    unsafe { __sym_frac(i, f, v) }
}
pub fn assume(b: bool) {
    unsafe { __sym_assume(b) }
}
pub fn check(b: bool, id: u32) {
    unsafe { __sym_assert(b, id) }
}
pub fn cover(id: u32) {
    unsafe { __sym_cover(id) }
}
/// true inside the symbolic executor
pub fn symbolic() -> bool {
    unsafe { __sym_symbolic() }
}
/// from here on a panic is the expected outcome of this path
pub fn panic_ok(b: bool) {
    unsafe { __sym_panic_ok(b) }
}
pub fn digit() -> u8 {
    byte(b'0', b'9')
}
/// a symbolic ASCII string: every byte in lo..=hi
pub fn bytes(n: usize, lo: u8, hi: u8) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(byte(lo, hi));
    }
    v
}
pub fn as_str(v: &[u8]) -> &str {
    unsafe { std::str::from_utf8_unchecked(v) }
}
/// outside the symbolic executor: these values are no case of the property after all (an over-approximation)
pub fn only_if(real: impl FnOnce() -> bool) {
    if !symbolic() && !real() {
        unsafe { __sym_skip() }
    }
}
/// the execution left what the stubs can represent: the run is inconclusive
pub fn outside() {
    unsafe { __sym_outside() }
}
/// shown by a native replay; nothing inside the symbolic executor
pub fn note(s: &str) {
    unsafe { __sym_note(s.as_ptr(), s.len()) }
}
/// the command line of the program
pub fn set_args(a: &[&str]) {
    let mut v: Vec<*const u8> = Vec::new();
    for x in a {
        let mut b = x.as_bytes().to_vec();
        b.push(0);
        v.push(b.as_ptr());
        std::mem::forget(b);
    }
    v.push(std::ptr::null());
    unsafe { __sym_args(a.len(), v.as_ptr()) }
    std::mem::forget(v);
}
