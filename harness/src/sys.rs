//! Primitives of the symbolic engine (imports of the wasm module).
#![allow(dead_code)]
mod raw {
    #[link(wasm_import_module = "wsym")]
    extern "C" {
        pub fn sym_bytes(p: *mut u8, n: usize);
        pub fn sym_range(lo: u32, hi: u32) -> u32;
        pub fn sym_u64() -> u64;
        pub fn assume(c: u32);
        pub fn check(c: u32, p: *const u8, n: usize);
        pub fn cover(p: *const u8, n: usize);
        pub fn ite(c: u32, a: u32, b: u32) -> u32;
        pub fn finish() -> !;
        pub fn log(p: *const u8, n: usize);
        pub fn note(p: *const u8, n: usize);
        pub fn conc(v: u32) -> u32;
        pub fn allow_panic(v: u32);
        pub fn is_engine() -> u32;
        pub fn param(i: u32) -> u32;
    }
}
/// n fresh arbitrary bytes
pub fn bytes(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    if n > 0 { unsafe { raw::sym_bytes(v.as_mut_ptr(), n) } }
    v
}
pub fn byte() -> u8 { let mut b = [0u8]; unsafe { raw::sym_bytes(b.as_mut_ptr(), 1) }; b[0] }
pub fn boolean() -> bool { range(0, 1) == 1 }
/// arbitrary value in lo..=hi, kept symbolic
pub fn range(lo: u32, hi: u32) -> u32 { unsafe { raw::sym_range(lo, hi) } }
/// arbitrary value in lo..=hi, one path per value
pub fn choose(lo: u32, hi: u32) -> usize { unsafe { raw::conc(raw::sym_range(lo, hi)) as usize } }
/// one path per value of v
pub fn split(v: u32) -> u32 { unsafe { raw::conc(v) } }
pub fn u64() -> u64 { unsafe { raw::sym_u64() } }
pub fn assume(c: bool) { unsafe { raw::assume(c as u32) } }
pub fn check(c: bool, l: &str) { unsafe { raw::check(c as u32, l.as_ptr(), l.len()) } }
pub fn cover(l: &str) { unsafe { raw::cover(l.as_ptr(), l.len()) } }
pub fn ite(c: bool, a: u32, b: u32) -> u32 { unsafe { raw::ite(c as u32, a, b) } }
pub fn finish() -> ! { unsafe { raw::finish() } }
pub fn log(b: &[u8]) { unsafe { raw::log(b.as_ptr(), b.len()) } }
pub fn note(b: &str) { unsafe { raw::note(b.as_ptr(), b.len()) } }
pub fn allow_panic(v: bool) { unsafe { raw::allow_panic(v as u32) } }
pub fn is_engine() -> bool { unsafe { raw::is_engine() == 1 } }
/// i-th bound of this run (set on the command line of the check)
pub fn param(i: u32) -> usize { unsafe { raw::param(i) as usize } }

/// branch-free conjunction / disjunction (no path split per element)
#[inline(always)]
pub fn and(a: bool, b: bool) -> bool { (a as u32 & b as u32) != 0 }
#[inline(always)]
pub fn or(a: bool, b: bool) -> bool { (a as u32 | b as u32) != 0 }
/// equality of byte strings without splitting per byte
pub fn eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false; }
    let mut d = 0u32;
    for i in 0..a.len() { d |= (a[i] ^ b[i]) as u32; }
    d == 0
}
