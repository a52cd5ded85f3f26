//! Symbolic inputs and assertions. The engine intercepts these functions; `shim.c`
//! gives them their concrete meaning for native replay.
unsafe extern "C" {
    fn vs_choice(name: *const u8, len: usize, n: u64) -> u64;
    fn vs_num(name: *const u8, len: usize, lo: f64, hi: f64, denom_log2: u64) -> f64;
    fn vs_assert(c: bool, msg: *const u8, len: usize);
    fn vs_close(a: f64, b: f64, tol: f64, msg: *const u8, len: usize, idx: u64);
    fn vs_assume(c: bool);
    fn vs_cover(name: *const u8, len: usize);
    fn vs_observe(v: f64);
    fn vs_root_hint(v: f64);
}
/// one of 0..n
pub fn choice(name: &str, n: usize) -> usize {
    unsafe { vs_choice(name.as_ptr(), name.len(), n as u64) as usize }
}
pub fn flag(name: &str) -> bool {
    choice(name, 2) == 1
}
/// any multiple of 2^-k in lo..=hi
pub fn num(name: &str, lo: f64, hi: f64, k: u32) -> f64 {
    unsafe { vs_num(name.as_ptr(), name.len(), lo, hi, k as u64) }
}
pub fn check(c: bool, msg: &str) {
    unsafe { vs_assert(c, msg.as_ptr(), msg.len()) }
}
pub fn close(a: f64, b: f64, tol: f64, msg: &str, idx: usize) {
    unsafe { vs_close(a, b, tol, msg.as_ptr(), msg.len(), idx as u64) }
}
pub fn assume(c: bool) {
    unsafe { vs_assume(c) }
}
pub fn cover(name: &str) {
    unsafe { vs_cover(name.as_ptr(), name.len()) }
}
pub fn observe(v: f64) {
    unsafe { vs_observe(v) }
}
pub fn root_hint(v: f64) {
    unsafe { vs_root_hint(v) }
}
