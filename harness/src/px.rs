//! Interface to the symbolic executor (or, natively, to the replayer).
extern "C" {
    fn px_sym(lo: u64, hi: u64) -> u64;
    fn px_choose(n: u64) -> u64;
    fn px_assume(c: bool);
    fn px_check(tag: u32, c: bool);
    fn px_cover(tag: u32);
    fn px_trace(v: u64);
    fn px_panic_mode(tag: u32);
    fn px_arg(i: u64) -> u64;
    fn px_enabled(p: u32) -> bool;
}
pub fn sym(lo: u64, hi: u64) -> u64 { unsafe { px_sym(lo, hi) } }
pub fn bits(k: u64) -> u64 { sym(0, if k >= 64 { u64::MAX } else { (1u64 << k) - 1 }) }
pub fn choose(n: u64) -> u64 { unsafe { px_choose(n) } }
pub fn flip() -> bool { choose(2) == 1 }
pub fn symbool() -> bool { sym(0, 1) != 0 }
pub fn assume(c: bool) { unsafe { px_assume(c) } }
pub fn check(tag: u32, c: bool) { unsafe { px_check(tag, c) } }
pub fn cover(tag: u32) { unsafe { px_cover(tag) } }
pub fn trace(v: u64) { unsafe { px_trace(v) } }
pub fn panic_mode(tag: u32) { unsafe { px_panic_mode(tag) } }
pub fn arg(i: u64) -> u64 { unsafe { px_arg(i) } }
/// Is property number `p` the one being decided by this run?
pub fn on(p: u32) -> bool { unsafe { px_enabled(p) } }
/// Harness code after this point must not panic (a panic here is an error of the check, not of the code).
pub const HARNESS: u32 = 9900;
