//! P04: sampling of variables.
use crate::{h::*, sym::*};
#[derive(Clone)] struct C { i: usize, v: u8 }
/// any list of <= L constants (arbitrary values, tracked by position), any number of variables <= V
#[no_mangle] pub extern "C" fn h_product() {
    let t = cfg!(feature = "thorough");
    let l = choose("consts", if t { 6 } else { 5 }); let n = choose("vars", if t { 8 } else { 6 }); assume(l > 0); if l >= 2 { assume(l.pow(n as u32) <= if t { 300 } else { 100 }) }
    let ts: Vec<C> = (0..l).map(|i| C { i, v: u8v("c") }).collect();
    let res = ruler::self_product(&ts, n);
    check(res.len() == n, "one vector per variable");
    let rows = l.pow(n as u32); let mut count = vec![0u32; rows];
    for r in &res { check(r.len() == rows, "every vector covers the whole product") }
    if n > 0 { for p in 0..rows { let mut ix = 0; for r in res.iter().rev() { ix = ix * l + r[p].i; check(r[p].v == ts[r[p].i].v, "values are copied unchanged") } count[ix] += 1 } 
      for c in count { check(c == 1, "every combination occurs at exactly one position") } }
    observe(1, rows as u64);
}
macro_rules! initv { ($m:ident, $n:literal) => { pub mod $m { ruler::impl_bv!($n); }
fn $m(nv: usize) {
    use $m::{Bv, BV as V}; use ruler::*;
    let names: Vec<String> = (0..nv).map(|i| { let b = byte("name", b"abcxyz"); let _ = i; String::from_utf8(vec![b]).unwrap() }).collect();
    for i in 0..nv { for j in 0..i { assume(names[i] != names[j]) } }
    let mut eg: EGraph<Bv, SynthAnalysis> = Default::default();
    Bv::initialize_vars(&mut eg, &names);
    let k: u128 = if $n == 128 { u128::MAX } else { (1u128 << $n) - 1 }; let sign = 1u128 << ($n - 1);
    let mut want = vec![0, 1, k, sign, (sign + 1) & k, sign - 1, sign.wrapping_sub(2) & k]; want.sort(); want.dedup();
    let rows = want.len().pow(nv as u32);
    check(eg.analysis.cvec_len == rows, "the e-graph declares the length of the full product");
    let mut cvs = vec![];
    for v in &names { let id = eg.lookup(Bv::Var(Symbol::from(v.clone()))); match id { Some(id) => cvs.push(eg[id].data.cvec.clone()), None => fail("a variable has no class") } }
    let mut seen = vec![0u32; rows];
    for c in &cvs { check(c.len() == rows, "every variable has one value per row") }
    if nv > 0 { for p in 0..rows { let mut ix = 0; for c in &cvs { match c[p] { Some(x) => match want.iter().position(|w| *w == x.0) { Some(q) => ix = ix * want.len() + q, None => fail("a sampled value is not a corner value") }, None => fail("a variable is undefined somewhere") } } seen[ix] += 1 }
      for s in seen { check(s == 1, "every combination of corner values occurs exactly once") } }
    observe(1, rows as u64);
} } }
initv!(w1, 1); initv!(w2, 2); initv!(w3, 3); initv!(w4, 4); initv!(w8, 8); initv!(w32, 32); initv!(w64, 64); initv!(w128, 128);
#[no_mangle] pub extern "C" fn h_init() {
    let nv = choose("nvars", 5); let w = choose("w", 8); if !cfg!(feature = "thorough") && w >= 2 { assume(nv < 4) }
    match w { 0 => w1(nv), 1 => w2(nv), 2 => w3(nv), 3 => w4(nv), 4 => w8(nv), 5 => w32(nv), 6 => w64(nv), _ => w128(nv) }
}
/// turning a workload into an e-graph: every term is there, and its vector is its pointwise value
#[no_mangle] pub extern "C" fn h_egraph() {
    use ruler::{*, enumo::*}; use w8::{Bv, BV as V}; use egg::RecExpr;
    init();
    let ops = ["+", "--", "*", "&", "|", "^", "<<", ">>"]; let mut terms = vec![];
    let n = choose("nterms", 3) + 1;
    for _ in 0..n { let o = ops[choose("op", if cfg!(feature = "thorough") { 8 } else { 3 })]; let a = str1("l", b"ab7"); let b = str1("r", b"ab7"); terms.push(Sexp::List(vec![Sexp::Atom(o.into()), Sexp::Atom(a), Sexp::Atom(b)])) }
    let eg = Workload::Set(terms.clone()).to_egraph::<Bv>();
    let rows = eg.analysis.cvec_len;
    for t in &terms { let e: RecExpr<Bv> = t.to_string().parse().unwrap(); match eg.lookup_expr(&e) { None => fail("a term of the workload is missing from the e-graph"), Some(id) => {
        let l = match t { Sexp::List(l) => l, _ => unreachable!() }; let op = l[0].to_string();
        let get = |s: &Sexp, p: usize| -> u8 { let s = s.to_string(); if s == "7" { 7 } else { let id = eg.lookup(Bv::Var(Symbol::from(s))).unwrap(); eg[id].data.cvec[p].unwrap().0 as u8 } };
        let cv = &eg[id].data.cvec; check(cv.len() == rows, "vector length of a compound term");
        for p in 0..rows { let (x, y) = (get(&l[1], p), get(&l[2], p)); let w = match op.as_str() { "+" => x.wrapping_add(y), "--" => x.wrapping_sub(y), "*" => x.wrapping_mul(y), "&" => x & y, "|" => x | y, "^" => x ^ y, "<<" => if y >= 8 { 0 } else { x << y }, _ => if y >= 8 { 0 } else { x >> y } };
          check(cv[p] == Some(V::new(w)), "the vector of a term is its value at every sample") }
    } } }
    observe(1, rows as u64);
}
