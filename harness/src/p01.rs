//! P01: fixed-width machine arithmetic of ruler's bit-vector values.
use crate::sym::*;
use ruler::BV;
use std::ops::*;

fn m<const N: u128>() -> u128 { if N == 128 { u128::MAX } else { (1u128 << N) - 1 } }
fn val<const N: u128>(name: &str) -> u128 { let v = u128v(name); assume(v <= m::<N>()); v }
/// every operator of one width against modular arithmetic, for all operand pairs
fn ops<const N: u128>() {
    let k = m::<N>(); let a = val::<N>("a"); let b = val::<N>("b");
    let (x, y) = (BV::<N>(a), BV::<N>(b));
    let r = [x.wrapping_add(y).0, x.wrapping_sub(y).0, x.wrapping_neg().0, x.not().0, (x & y).0, (x | y).0, (x ^ y).0];
    let w = [a.wrapping_add(b) & k, a.wrapping_sub(b) & k, 0u128.wrapping_sub(a) & k, a ^ k, a & b, a | b, a ^ b];
    let msg = ["addition is modulo 2^N", "subtraction is modulo 2^N", "negation is modulo 2^N", "complement", "and", "or", "xor"];
    for i in 0..7 { check(r[i] == w[i], msg[i]); observe(i as u64, r[i] as u64); observe(i as u64, (r[i] >> 64) as u64); }
    check((x == y) == (a == b), "equality");
    reach(0);
}
/// multiplication: low N bits of the product
fn mul<const N: u128>() {
    let k = m::<N>(); let a = val::<N>("a"); let b = val::<N>("b");
    let r = BV::<N>(a).wrapping_mul(BV::<N>(b)).0;
    check(r == (a.wrapping_mul(b) & k), "multiplication is modulo 2^N");
    // independent of the u128 product: the parity and the power-of-two rows
    check((r & 1) == (a & b & 1), "multiplication parity");
    observe(1, r as u64); observe(2, (r >> 64) as u64);
}
/// shifts: logical, zero once the amount reaches the width, for every amount
fn shifts<const N: u128>() {
    let k = m::<N>(); let a = val::<N>("a"); let b = val::<N>("b");
    let l = BV::<N>(a).my_shl(BV::<N>(b)).0; let r = BV::<N>(a).my_shr(BV::<N>(b)).0;
    if b >= N { check(l == 0, "left shift by the width or more is zero"); check(r == 0, "right shift by the width or more is zero"); reach(0) }
    else { check(l == ((a << (b as u32)) & k), "left shift"); check(r == (a >> (b as u32)), "right shift is logical"); reach(1) }
    observe(1, l as u64); observe(2, r as u64);
}
/// construction from any integer, sampling, and the named constants
fn make<const N: u128>() {
    let k = m::<N>(); let v = u128v("v");
    check(BV::<N>::new(v).0 == v & k, "construction truncates to the width");
    check(BV::<N>::from(v).0 == v & k, "conversion truncates to the width");
    struct R; impl rand::RngCore for R {
        fn next_u32(&mut self) -> u32 { u32v("r") } fn next_u64(&mut self) -> u64 { u64v("r") }
        fn fill_bytes(&mut self, d: &mut [u8]) { for b in d { *b = u8v("r") } }
        fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(d); Ok(()) }
    }
    use rand::Rng; let s: BV<N> = R.gen();
    check(s.0 <= k, "a sampled value fits the width");
    check(BV::<N>::ZERO.0 == 0, "ZERO"); check(BV::<N>::ALL_ONES.0 == k, "ALL_ONES"); check(BV::<N>::NEG_ONE.0 == k, "NEG_ONE");
    check(BV::<N>::MIN.0 == 1u128 << (N - 1), "MIN is the sign bit"); check(BV::<N>::MAX.0 == k >> 1, "MAX is the largest signed value");
    check(BV::<N>::MAX.wrapping_add(BV::<N>::from(1u128)) == BV::<N>::MIN, "MAX + 1 wraps to MIN");
    check(BV::<N>::MIN.wrapping_neg() == BV::<N>::MIN, "MIN is its own negation");
    observe(1, s.0 as u64);
}
macro_rules! widths { ($f:ident) => { match choose("w", if cfg!(feature = "thorough") { 16 } else { 10 }) { 0 => $f::<1>(), 1 => $f::<4>(), 2 => $f::<8>(), 3 => $f::<16>(), 4 => $f::<32>(), 5 => $f::<64>(), 6 => $f::<128>(), 7 => $f::<5>(), 8 => $f::<65>(), 9 => $f::<127>(), 10 => $f::<2>(), 11 => $f::<3>(), 12 => $f::<7>(), 13 => $f::<31>(), 14 => $f::<33>(), _ => $f::<63>() } } }
#[no_mangle] pub extern "C" fn h_ops() { widths!(ops) }
#[no_mangle] pub extern "C" fn h_mul() { widths!(mul) }
#[no_mangle] pub extern "C" fn h_shift() { widths!(shifts) }
#[no_mangle] pub extern "C" fn h_make() { widths!(make) }

// ---- the interpreter of a bit-vector language, over whole value vectors
macro_rules! interp { ($m:ident, $n:literal) => { pub mod $m { ruler::impl_bv!($n); }
#[no_mangle] pub fn $m() {
    use $m::{Bv, BV as V}; use ruler::SynthLanguage; use egg::Id;
    let k = m::<$n>();
    // two operand vectors of length 2 with independent undefined entries
    let mut raw = vec![]; let mut cv: Vec<Vec<Option<V>>> = vec![];
    for _ in 0..2 { let mut c = vec![]; for _ in 0..2 { let d = boolv("def"); let v = val::<$n>("x"); raw.push((d, v)); c.push(if d { Some(V::new(v)) } else { None }) } cv.push(c) }
    let (i, j) = (Id::from(0), Id::from(1));
    let nodes = [Bv::Add([i, j]), Bv::Sub([i, j]), Bv::Mul([i, j]), Bv::And([i, j]), Bv::Or([i, j]), Bv::Xor([i, j]), Bv::Shl([i, j]), Bv::Shr([i, j]), Bv::Neg(i), Bv::Not(i)];
    let t = choose("op", nodes.len() as u8);
    let out = nodes[t].eval(2, |id| &cv[usize::from(*id)]);
    check(out.len() == 2, "one result per valuation");
    for p in 0..2 {
        let ((da, a), (db, b)) = (raw[p], raw[2 + p]);
        let un = t >= 8; let def = da && (un || db);
        check(out[p].is_some() == def, "defined exactly when every operand is");
        if def { let want = match t { 0 => a.wrapping_add(b) & k, 1 => a.wrapping_sub(b) & k, 2 => a.wrapping_mul(b) & k, 3 => a & b, 4 => a | b, 5 => a ^ b,
              6 => if b >= $n { 0 } else { (a << (b as u32)) & k }, 7 => if b >= $n { 0 } else { a >> (b as u32) }, 8 => 0u128.wrapping_sub(a) & k, _ => a ^ k };
            check(out[p].unwrap().0 == want, "the interpreter applies the operator of the node to the operands in order"); observe(p as u64, want as u64); }
    }
    let lit = val::<$n>("lit"); let node = Bv::Lit(V::new(lit)); let n = choose("n", 4);
    let out = node.eval(n, |_| unreachable!());
    check(out.len() == n, "a literal has one value per valuation"); for v in out { check(v == Some(V::new(lit)), "a literal evaluates to itself") }
} } }
interp!(i8w, 8); interp!(i128w, 128);
#[no_mangle] pub extern "C" fn h_interp() { if boolv("wide") { i128w() } else { i8w() } }
