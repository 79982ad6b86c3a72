//! Nondeterminism and assertions. In the symbolic executor `mk_*` are built in; for
//! a native replay they are defined by replay/replay.c, which feeds a recorded input.
use std::future::Future;

extern "C" {
    fn mk_any(bits: u32) -> u64;
    fn mk_range(lo: u64, hi: u64) -> u64;
    fn mk_assume(c: bool);
    fn mk_assert(c: bool, id: u64);
    fn mk_reach(id: u64);
    fn mk_param(i: u64) -> u64;
    fn mk_expect_panic(on: u64);
    fn mk_obs(x: u64);
    fn mk_concretize(x: u64) -> u64;
    fn mk_sym_alloc(on: u64);
    fn mk_exit() -> !;
}

/// a symbolic value of 64, 32 or 8 bits
pub fn u64() -> u64 {
    unsafe { mk_any(64) }
}
pub fn u32() -> u32 {
    unsafe { mk_any(32) as u32 }
}
pub fn u8() -> u8 {
    unsafe { mk_any(8) as u8 }
}
/// a symbolic boolean, not branched on
pub fn bit() -> bool {
    unsafe { mk_any(1) & 1 == 1 }
}
/// a symbolic choice, one path each
pub fn choose(lo: u64, hi: u64) -> u64 {
    unsafe { mk_concretize(mk_range(lo, hi)) }
}
pub fn choice(n: u64) -> u64 {
    choose(0, n - 1)
}
pub fn flip() -> bool {
    choose(0, 1) == 1
}
/// a symbolic value in lo..=hi, not branched on
pub fn range(lo: u64, hi: u64) -> u64 {
    unsafe { mk_range(lo, hi) }
}
pub fn fix(x: u64) -> u64 {
    unsafe { mk_concretize(x) }
}
/// another symbol, assumed equal to x: what the solver proves of it, it proves of x
pub fn alias64(x: u64) -> u64 {
    let y = u64();
    assume(y == x);
    y
}
pub fn alias32(x: u32) -> u32 {
    let y = u32();
    assume(y == x);
    y
}
pub fn alias8(x: u8) -> u8 {
    let y = u8();
    assume(y == x);
    y
}
pub fn assume(c: bool) {
    unsafe { mk_assume(c) }
}
#[inline(never)]
pub fn check(c: bool, id: u64) {
    unsafe { mk_assert(c, id) }
}
pub fn reach(id: u64) {
    unsafe { mk_reach(id) }
}
pub fn param(i: u64) -> u64 {
    unsafe { mk_param(i) }
}
/// from here to `no_panic` a panic is the required outcome, and ends the path
pub fn expect_panic(on: bool) {
    unsafe { mk_expect_panic(on as u64) }
}
/// from here on an allocation of symbolic size stays one object, of that size
pub fn sym_alloc(on: bool) {
    unsafe { mk_sym_alloc(on as u64) }
}
pub fn obs(x: u64) {
    unsafe { mk_obs(x) }
}
pub fn obs_bytes(b: &[u8]) {
    obs(b.len() as u64);
    for x in b {
        obs(*x as u64);
    }
}
pub fn exit() -> ! {
    unsafe { mk_exit() }
}
/// bytewise equality without branching on the bytes
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..a.len() {
        ok &= a[i] == b[i];
    }
    ok
}
pub fn same32(a: &[u32], b: &[u32]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..a.len() {
        ok &= a[i] == b[i];
    }
    ok
}

pub fn block_on<F: Future>(f: F) -> F::Output {
    tokio::mk::block_on(f)
}
