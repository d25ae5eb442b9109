//! P03: the bit-vector validator asks the solver the right question and reads the answer correctly.
use crate::{h::*, sym::*};
macro_rules! val { ($m:ident, $n:literal) => { pub mod $m { ruler::impl_bv!($n);
  use crate::sym::*; use egg::{ENodeOrVar, RecExpr}; type PV = ENodeOrVar<Bv>;
  const NAMES: [&str; 3] = ["var1", "var2", "v"];
  pub struct B { pub p: RecExpr<PV>, pub g: RecExpr<Bv>, pub vals: Vec<BV>, pub lits: bool }
  impl B {
    fn new(vals: Vec<BV>) -> Self { B { p: RecExpr::default(), g: RecExpr::default(), vals, lits: true } }
    fn var(&mut self, i: usize) -> Id { self.g.add(Bv::Lit(self.vals[i])); self.p.add(ENodeOrVar::Var(format!("?{}", NAMES[i]).parse().unwrap())) }
    fn lit(&mut self, v: BV) -> Id { self.g.add(Bv::Lit(v)); self.p.add(ENodeOrVar::ENode(Bv::Lit(v))) }
    fn op(&mut self, k: usize, x: Id, y: Id) -> Id { let n = node(k, x, y); self.g.add(n.clone()); self.p.add(ENodeOrVar::ENode(n)) }
  }
  fn node(k: usize, x: Id, y: Id) -> Bv { match k { 0 => Bv::Add([x, y]), 1 => Bv::Sub([x, y]), 2 => Bv::Mul([x, y]), 3 => Bv::And([x, y]), 4 => Bv::Or([x, y]), 5 => Bv::Xor([x, y]), 6 => Bv::Shl([x, y]), 7 => Bv::Shr([x, y]), 8 => Bv::Not(x), _ => Bv::Neg(x) } }
  // the interpreter of the language, bottom up over the term in which each variable is replaced by its value
  fn run(g: &RecExpr<Bv>) -> BV { let mut cv: Vec<CVec<Bv>> = vec![]; for n in g.as_ref() { let v = n.eval(1, |id| &cv[usize::from(*id)]); cv.push(v) } match cv.last().unwrap()[0] { Some(x) => x, None => { fail("an operator of the language is undefined"); BV::new(0u128) } } }
  fn pat(p: &RecExpr<PV>) -> Pattern<Bv> { Pattern::new(p.clone()) }
  fn ground(g: &RecExpr<Bv>) -> Pattern<Bv> { Pattern::from(g) }
  fn v1() -> BV { BV::new(u128v("v")) }
  pub fn side(b: &mut B, how: usize, lv: BV, k1: usize, k2: usize, (i, j): (usize, usize)) {
    match how { 0 => { let x = b.var(i); let y = b.var(j); b.op(k1, x, y); } 1 => { let x = b.var(i); let y = b.lit(lv); b.op(k1, x, y); } 2 => { let x = b.lit(lv); let y = b.var(i); b.op(k1, x, y); }
      3 => { let x = b.var(i); let y = b.var(j); let z = b.op(k2, x, y); b.op(k1, z, y); } 4 => { b.var(i); } 5 => { b.lit(lv); } _ => { let x = b.var(i); let y = b.var(j); let z = b.op(k2, x, y); b.op(k1, x, z); } }
  }
  pub fn ask(l: B, r: B) {
    let (pl, pr) = (pat(&l.p), pat(&r.p)); let (x, y) = (run(&l.g), run(&r.g)); let differ = not(x.0 == y.0);
    observe(1, x.0 as u64); observe(2, y.0 as u64);
    if !native() {
        unsafe { symx_z3_result(choose("verdict", 2) as i32 * 2 - 1) }
        for (v, n) in l.vals.iter().zip(NAMES) { z3_bind(n, $n, v.0) }
        let _ = <Bv as SynthLanguage>::validate(&pl, &pr);
        check(unsafe { symx_z3_checks() } == 1, "one question per rule");
        check((unsafe { symx_z3_formula() } != 0) == differ, "the solver is asked whether the two sides differ");
    } else {
        choose("verdict", 2);
        let v = <Bv as SynthLanguage>::validate(&pl, &pr); if differ { check(!matches!(v, ValidationResult::Valid), "a rule declared valid fails at these values") }
        let g = <Bv as SynthLanguage>::validate(&ground(&l.g), &ground(&r.g)); check(!matches!(g, ValidationResult::Valid) || !differ, "a rule between unequal constants is declared valid"); check(!matches!(g, ValidationResult::Invalid) || differ, "a rule between equal constants is declared invalid");
        let mut same = pl.to_string() == pr.to_string();
        if !same && $n <= 4 { same = true; for a in 0..1u128 << ($n % 8) { for b in 0..1u128 << ($n % 8) { for c in 0..1u128 << ($n % 8) { let vs = vec![BV::new(a), BV::new(b), BV::new(c)]; let f = |s: &B| { let mut cv: Vec<CVec<Bv>> = vec![]; for n in s.p.as_ref() { let v = match n { ENodeOrVar::Var(v) => vec![Some(vs[NAMES.iter().position(|x| format!("?{}", x) == v.to_string()).unwrap()])], ENodeOrVar::ENode(n) => n.eval(1, |id| &cv[usize::from(*id)]) }; cv.push(v) } cv.last().unwrap()[0] }; if f(&l) != f(&r) { same = false } } } } }
        if same { check(!matches!(v, ValidationResult::Invalid), "a rule whose sides always agree is declared invalid") }
    }
  }
  pub fn h_one() { let vals = vec![v1(), v1(), v1()]; let mut l = B::new(vals.clone()); let mut r = B::new(vals); let k1 = choose("k", 10); let lv = v1(); side(&mut l, choose("how", 3), lv, k1, 0, [(0, 1), (1, 1)][choose("vars", 2)]); if boolv("rlit") { let v = v1(); r.lit(v); } else { r.var(choose("rv", 3)); } if boolv("swap") { ask(r, l) } else { ask(l, r) } }
  pub fn h_two() { let vals = vec![v1(), v1(), v1()]; let mut l = B::new(vals.clone()); let mut r = B::new(vals); let k1 = choose("k", 10); let k2 = choose("k", 10); let lv = v1(); side(&mut l, 3 + 3 * choose("how", 2), lv, k1, k2, (0, 1)); let c = choose("right", 3); if c == 0 { r.var(2); } else { let k3 = choose("k3", 3); side(&mut r, [0, 1][c - 1], lv, [0, 5, 8][k3], 0, (1, 2)) } ask(l, r) }
  pub fn h_verdict() {
    let (l, r, e): (&str, &str, i32) = [("(+ ?var1 ?var2)", "(+ ?var2 ?var1)", -1), ("(+ ?var1 ?var2)", "?var1", 1), ("(* (+ ?var1 ?var2) (-- ?var1 ?var2))", "(-- (* ?var1 ?var1) (* ?var2 ?var2))", 0), ("(-- ?v ?v)", "0", -1), ("(* ?v ?v)", "1", 1)][choose("case", 5)];
    if !native() { for (v, n) in [v1(), v1()].iter().zip(NAMES) { z3_bind(n, $n, v.0) } unsafe { symx_z3_result(e) } } else { v1(); v1(); }
    let v = <Bv as SynthLanguage>::validate(&l.parse().unwrap(), &r.parse().unwrap());
    if $n >= 32 || e != 0 { check(matches!(v, ValidationResult::Valid) == (e == -1), "valid iff the solver proved both sides equal"); check(matches!(v, ValidationResult::Invalid) == (e == 1), "invalid iff the solver found a difference"); check(matches!(v, ValidationResult::Unknown) == (e == 0), "undecided iff the solver gave up");
      let rule = ruler::enumo::Rule::<Bv>::from_string(&format!("{} ==> {}", l, r)).unwrap().0; check(rule.is_valid() == (e == -1), "a rule is valid only when proved") }
  }
} } }
val!(w1, 1); val!(w4, 4); val!(w8, 8); val!(w32, 32); val!(w64, 64); val!(w65, 65); val!(w127, 127); val!(w128, 128);
#[no_mangle] pub extern "C" fn h_one() { match choose("w", if cfg!(feature = "thorough") { 8 } else { 6 }) { 0 => w4::h_one(), 1 => w8::h_one(), 2 => w64::h_one(), 3 => w128::h_one(), 4 => w65::h_one(), 5 => w1::h_one(), 6 => w32::h_one(), _ => w127::h_one() } }
#[no_mangle] pub extern "C" fn h_two() { match choose("w", if cfg!(feature = "thorough") { 5 } else { 2 }) { 0 => w4::h_two(), 1 => w128::h_two(), 2 => w8::h_two(), 3 => w32::h_two(), _ => w64::h_two() } }
#[no_mangle] pub extern "C" fn h_verdict() { match choose("w", 3) { 0 => w4::h_verdict(), 1 => w32::h_verdict(), _ => w64::h_verdict() } }
