//! Interface between the harnesses and whatever runs them: the symbolic
//! executor (engine) or the native replayer (replay.rs).
extern "C" {
    fn __sym_bytes(p: *mut u8, n: usize);
    fn __sym_assume(c: u32);
    fn __sym_check(c: u32, msg: *const u8, len: usize);
    fn __sym_reach(msg: *const u8, len: usize);
    fn __sym_obs(p: *const u8, n: usize);
    fn __sym_flag(k: u64, v: u64);
    fn __sym_concretize(v: u64) -> u64;
    fn __sym_ite(c: u32, a: u64, b: u64) -> u64;
}
/// `n` fresh symbolic bytes
pub fn vec(n: u64) -> Vec<u8> {
    let mut v = vec![0u8; n as usize];
    unsafe { __sym_bytes(v.as_mut_ptr(), v.len()) };
    v
}
pub fn arr<const N: usize>() -> [u8; N] {
    let mut v = [0u8; N];
    unsafe { __sym_bytes(v.as_mut_ptr(), N) };
    v
}
macro_rules! ints {
    ($($f:ident $t:ident),*) => { $(#[allow(dead_code)] pub fn $f() -> $t { $t::from_le_bytes(arr::<{ std::mem::size_of::<$t>() }>()) })* };
}
ints!(u8 u8, u16 u16, u32 u32, u64 u64, u128 u128, i8 i8, i16 i16, i32 i32, i64 i64, i128 i128);
/// a symbolic boolean
pub fn boolean() -> bool {
    u8() & 1 == 1
}
/// a symbolic number below `n`
pub fn below(n: u64) -> u64 {
    let b = u8() as u64;
    assume(b < n);
    b
}
pub fn assume(c: bool) {
    unsafe { __sym_assume(c as u32) }
}
/// the property: violated if some input makes `c` false
#[inline(never)]
pub fn check(c: bool, msg: &str) {
    unsafe { __sym_check(c as u32, msg.as_ptr(), msg.len()) }
}
/// marks a situation that must be reachable (guards against vacuity)
#[inline(never)]
pub fn reach(msg: &str) {
    unsafe { __sym_reach(msg.as_ptr(), msg.len()) }
}
/// records bytes computed by the code under test, compared with the native run
pub fn obs(b: &[u8]) {
    unsafe { __sym_obs(b.as_ptr(), b.len()) }
}
pub fn obs64(v: u64) {
    obs(&v.to_le_bytes())
}
/// merge paths at join points, in functions at least `depth` calls below the caller
pub fn merge_below(depth: u64) {
    unsafe { __sym_flag(0, depth + 1) }
}
/// merge paths at join points
pub fn merge(on: bool) {
    unsafe { __sym_flag(0, on as u64) }
}
pub fn allow_panic(on: bool) {
    unsafe { __sym_flag(1, on as u64) }
}
pub fn alloc_limit(n: u64) {
    unsafe { __sym_flag(2, n) }
}
/// paths end quietly at an allocation of more than `n` bytes
pub fn alloc_cut(n: u64) {
    unsafe {
        __sym_flag(2, n);
        __sym_flag(3, 1)
    }
}
pub fn concretize(v: u64) -> u64 {
    unsafe { __sym_concretize(v) }
}
/// branch-free choice
pub fn ite(c: bool, a: u64, b: u64) -> u64 {
    unsafe { __sym_ite(c as u32, a, b) }
}
/// branch-free equality of byte strings
pub fn same(a: &[u8], b: &[u8]) -> bool {
    a == b
}
