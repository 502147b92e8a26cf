//! Intrinsics: interpreted by the symbolic executor, or served from a list of concrete values when
//! a counterexample is replayed natively.
extern "C" {
    fn obs_sym(name: *const u8, len: usize, width: u32, signed: u32, lo: u64, hi: u64) -> u64;
    fn obs_choice(n: u64) -> u64;
    fn obs_assume(c: bool);
    fn obs_assert(c: bool, id: *const u8, len: usize);
    fn obs_cover(c: bool, id: *const u8, len: usize);
    fn obs_no_panic(on: u32);
    fn obs_concrete(v: u64) -> u64;
    fn obs_stop();
}

pub fn u64r(n: &str, lo: u64, hi: u64) -> u64 {
    unsafe { obs_sym(n.as_ptr(), n.len(), 64, 0, lo, hi) }
}
pub fn i64r(n: &str, lo: i64, hi: i64) -> i64 {
    unsafe { obs_sym(n.as_ptr(), n.len(), 64, 1, lo as u64, hi as u64) as i64 }
}
pub fn u64s(n: &str) -> u64 {
    u64r(n, 0, u64::MAX)
}
pub fn i64s(n: &str) -> i64 {
    i64r(n, i64::MIN, i64::MAX)
}
pub fn u32s(n: &str) -> u32 {
    unsafe { obs_sym(n.as_ptr(), n.len(), 32, 0, 0, u32::MAX as u64) as u32 }
}
pub fn u16s(n: &str) -> u16 {
    unsafe { obs_sym(n.as_ptr(), n.len(), 16, 0, 0, u16::MAX as u64) as u16 }
}
pub fn u8s(n: &str) -> u8 {
    unsafe { obs_sym(n.as_ptr(), n.len(), 8, 0, 0, 255) as u8 }
}
pub fn u8r(n: &str, lo: u8, hi: u8) -> u8 {
    unsafe { obs_sym(n.as_ptr(), n.len(), 8, 0, lo as u64, hi as u64) as u8 }
}
pub fn u16r(n: &str, lo: u16, hi: u16) -> u16 {
    unsafe { obs_sym(n.as_ptr(), n.len(), 16, 0, lo as u64, hi as u64) as u16 }
}
pub fn boolean(n: &str) -> bool {
    unsafe { obs_sym(n.as_ptr(), n.len(), 1, 0, 0, 1) & 1 == 1 }
}
pub fn choice(n: u64) -> u64 {
    unsafe { obs_choice(n) }
}
pub fn flip() -> bool {
    choice(2) == 1
}
pub fn assume(c: bool) {
    unsafe { obs_assume(c) }
}
#[inline(never)]
pub fn check(c: bool, id: &'static str) {
    unsafe { obs_assert(c, id.as_ptr(), id.len()) }
}
pub fn cover(c: bool, id: &'static str) {
    unsafe { obs_cover(c, id.as_ptr(), id.len()) }
}
pub fn no_panic(on: bool) {
    unsafe { obs_no_panic(on as u32) }
}
pub fn concrete(v: u64) -> u64 {
    unsafe { obs_concrete(v) }
}
pub fn stop() -> ! {
    unsafe { obs_stop() }
    std::process::abort()
}

/// export each block as a harness
#[macro_export]
macro_rules! harness {
    ($($n:ident $b:block)*) => { $(#[no_mangle] pub extern "C" fn $n() $b)* };
}
