//! Interface between the harnesses and the symbolic engine (or, for replays, `native.rs`).
mod raw {
    extern "C" {
        pub fn vp_u64(tag: *const u8, n: usize) -> u64;
        pub fn vp_u8(tag: *const u8, n: usize) -> u8;
        pub fn vp_range(tag: *const u8, n: usize, lo: u64, hi: u64) -> u64;
        pub fn vp_array(tag: *const u8, n: usize, p: *mut u8, len: usize, pins: *const [u32; 2], npins: usize);
        pub fn vp_assume(c: bool);
        pub fn vp_assert(c: bool, id: u64);
        pub fn vp_reach(id: u64);
        pub fn vp_merge(on: u64);
        pub fn vp_panic_ok(on: u64);
        pub fn vp_stub_format(t: *const u8);
        pub fn vp_case(n: u64) -> u64;
        pub fn vp_note(tag: *const u8, n: usize, v: u64);
        pub fn vp_conc(v: u64) -> u64;
    }
}
/// An arbitrary 64-bit value.
pub fn u64(tag: &str) -> u64 {
    unsafe { raw::vp_u64(tag.as_ptr(), tag.len()) }
}
/// An arbitrary byte.
pub fn u8(tag: &str) -> u8 {
    unsafe { raw::vp_u8(tag.as_ptr(), tag.len()) }
}
/// An arbitrary value with lo <= value <= hi.
pub fn range(tag: &str, lo: u64, hi: u64) -> u64 {
    unsafe { raw::vp_range(tag.as_ptr(), tag.len(), lo, hi) }
}
/// `p` followed by two digits, as a tag.
pub struct Tag([u8; 3]);
pub fn tag(p: u8, i: usize) -> Tag {
    Tag([p, b'0' + (i / 10) as u8, b'0' + (i % 10) as u8])
}
impl std::ops::Deref for Tag {
    type Target = str;
    fn deref(&self) -> &str {
        unsafe { std::str::from_utf8_unchecked(&self.0) }
    }
}
pub fn bool(tag: &str) -> bool {
    let b = u8(tag);
    assume(b < 2);
    b == 1
}
/// Makes every byte of `b` arbitrary except those in the pinned (start, len) ranges.
pub fn array(tag: &str, b: &mut [u8], pins: &[[u32; 2]]) {
    unsafe { raw::vp_array(tag.as_ptr(), tag.len(), b.as_mut_ptr(), b.len(), pins.as_ptr(), pins.len()) }
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { raw::vp_assume(c) }
}
#[inline(always)]
pub fn assert(c: bool, id: u64) {
    unsafe { raw::vp_assert(c, id) }
}
pub fn reach(id: u64) {
    unsafe { raw::vp_reach(id) }
}
/// true: states are merged where control flow joins; false: every path is followed separately.
pub fn merge(on: bool) {
    unsafe { raw::vp_merge(on as u64) }
}
/// Whether a panic from here on is accepted (the path just ends) or a violation.
pub fn panic_ok(on: bool) {
    unsafe { raw::vp_panic_ok(on as u64) }
}
/// Replaces the text built by `format!` with the empty string from here on.
pub fn stub_format() {
    let s = std::mem::ManuallyDrop::new(String::new());
    unsafe { raw::vp_stub_format(&*s as *const String as *const u8) }
}
/// A case split: every value below `n` is explored, each in a process of its own.
pub fn case(n: u64) -> u64 {
    unsafe { raw::vp_case(n) }
}
pub fn note(tag: &str, v: u64) {
    unsafe { raw::vp_note(tag.as_ptr(), tag.len(), v) }
}
/// Splits on the feasible values of `v`.
pub fn conc(v: u64) -> u64 {
    unsafe { raw::vp_conc(v) }
}
/// A path split on `b`.
pub fn split(b: bool) -> bool {
    merge(false);
    let r = conc(b as u64) == 1;
    merge(true);
    r
}
