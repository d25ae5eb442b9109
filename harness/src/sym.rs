//! The harness side of the symbolic-execution API.  In the symbolic build these
//! are externals the engine implements; in the native build (replay) they read
//! the solver's values from a file.
#![allow(dead_code)]
extern "C" {
    pub fn symx_make(p: *mut u8, n: usize, name: *const u8, len: usize);
    pub fn symx_assume(c: u8);
    pub fn symx_assert(c: u8, msg: *const u8, len: usize);
    pub fn symx_fail(msg: *const u8, len: usize);
    pub fn symx_reach(k: u64);
    pub fn symx_observe(tag: u64, v: u64);
    pub fn symx_concretize(v: u64) -> u64;
    pub fn symx_expect_panic(on: u64);
    pub fn symx_native() -> u64;
    pub fn symx_end();
    pub fn symx_z3_bind(name: *const u8, len: usize, bits: u64, lo: u64, hi: u64);
    pub fn symx_z3_result(v: i32);
    pub fn symx_z3_formula() -> u8;
    pub fn symx_z3_checks() -> u64;
}
pub fn u8v(name: &str) -> u8 { let mut v = 0u8; unsafe { symx_make(&mut v as *mut u8, 1, name.as_ptr(), name.len()) }; v }
pub fn u16v(name: &str) -> u16 { let mut v = 0u16; unsafe { symx_make(&mut v as *mut u16 as *mut u8, 2, name.as_ptr(), name.len()) }; v }
pub fn u32v(name: &str) -> u32 { let mut v = 0u32; unsafe { symx_make(&mut v as *mut u32 as *mut u8, 4, name.as_ptr(), name.len()) }; v }
pub fn u64v(name: &str) -> u64 { let mut v = 0u64; unsafe { symx_make(&mut v as *mut u64 as *mut u8, 8, name.as_ptr(), name.len()) }; v }
pub fn usizev(name: &str) -> usize { u64v(name) as usize }
pub fn u128v(name: &str) -> u128 { let mut v = 0u128; unsafe { symx_make(&mut v as *mut u128 as *mut u8, 16, name.as_ptr(), name.len()) }; v }
/// a symbolic boolean
pub fn boolv(name: &str) -> bool { let b = u8v(name); assume(b < 2); b == 1 }
/// a symbolic index 0 <= i < n
pub fn below(name: &str, n: u8) -> u8 { let b = u8v(name); assume(b < n); b }
/// a symbolic index, forked into one path per feasible value
pub fn choose(name: &str, n: u8) -> usize { conc(below(name, n) as usize) }
pub fn conc(v: usize) -> usize { unsafe { symx_concretize(v as u64) as usize } }
#[inline(always)] pub fn assume(c: bool) { unsafe { symx_assume(c as u8) } }
/// assert without branching on the condition
#[inline(always)] pub fn check(c: bool, msg: &str) { unsafe { symx_assert(c as u8, msg.as_ptr(), msg.len()) } }
pub fn fail(msg: &str) { unsafe { symx_fail(msg.as_ptr(), msg.len()) } }
pub fn reach(k: u64) { unsafe { symx_reach(k) } }
pub fn observe(tag: u64, v: u64) { unsafe { symx_observe(tag, v) } }
pub fn observe_bytes(tag: u64, s: &[u8]) { observe(tag, s.len() as u64); for b in s { observe(tag, *b as u64) } }
pub fn expect_panic(on: bool) { unsafe { symx_expect_panic(on as u64) } }
pub fn native() -> bool { unsafe { symx_native() != 0 } }
pub fn end() { unsafe { symx_end() } }
/// branch-free boolean connectives (LLVM keeps them as bit operations)
#[inline(always)] pub fn and(a: bool, b: bool) -> bool { a & b }
#[inline(always)] pub fn or(a: bool, b: bool) -> bool { a | b }
#[inline(always)] pub fn not(a: bool) -> bool { !a }
pub fn z3_bind(name: &str, bits: u32, v: u128) { unsafe { symx_z3_bind(name.as_ptr(), name.len(), bits as u64, v as u64, (v >> 64) as u64) } }
/// run rayon on the calling thread only
pub fn init() { let _ = rayon::ThreadPoolBuilder::new().num_threads(1).use_current_thread().build_global(); }
