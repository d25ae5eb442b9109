//! P16: merging and making class data.
use crate::{sym::*, toy::*}; use ruler::{Interval, Limits, Signature, SynthAnalysis, SynthLanguage, CVec, enumo::*};
type Sig = Signature<Toy>;
fn opt(n: &str) -> Option<u8> { if boolv("def") { Some(u8v(n)) } else { None } }
fn cv(n: usize) -> CVec<Toy> { (0..n).map(|_| opt("val")).collect() }
fn sig(c: CVec<Toy>, t: &str, i: Interval<u8>) -> Sig { Signature { cvec: c, simplest: term(t), interval: i } }
fn merge(a: &Sig, b: &Sig) -> (Sig, bool, bool) { let mut x = a.clone(); let d = SynthAnalysis::default().merge(&mut x, b.clone()); (x, d.0, d.1) }
#[no_mangle] pub extern "C" fn h_values() {
    let n = choose("len", if cfg!(feature = "thorough") { 6 } else { 5 }); let (a, b) = (sig(cv(n), "x", Interval::default()), sig(cv(n), "x", Interval::default()));
    let mut clash = false; for i in 0..n { if let (Some(x), Some(y)) = (a.cvec[i], b.cvec[i]) { clash = or(clash, x != y) } }
    if clash { reach(0); expect_panic(true); let _ = merge(&a, &b); expect_panic(false); fail("contradicting values are accepted"); return }
    reach(1); let (m, da, db) = merge(&a, &b); check(m.cvec.len() == n, "length"); let (mut ca, mut cb) = (false, false);
    for i in 0..n {
        match (a.cvec[i], b.cvec[i], m.cvec[i]) { (None, None, z) => check(z.is_none(), "undefined in both stays undefined"), (Some(x), _, Some(z)) => check(x == z, "a defined value survives"), (None, Some(y), Some(z)) => check(y == z, "a value defined on the other side is taken over"), _ => fail("a defined position is lost") }
        ca |= a.cvec[i].is_some() != m.cvec[i].is_some(); cb |= b.cvec[i].is_some() != m.cvec[i].is_some();
    }
    check(da || !ca, "a change of the first side is reported"); check(db || !cb, "a change of the second side is reported"); observe(1, da as u64); observe(2, db as u64);
    check(m.is_defined() == (n == 0 || m.cvec.iter().any(|x| x.is_some())), "defined iff some position is, or there are no samples");
}
fn iv() -> Interval<u8> { let (l, h) = (opt("low"), opt("high")); if let (Some(x), Some(y)) = (l, h) { assume(x <= y) } Interval::new(l, h) }
fn inside(i: &Interval<u8>, v: u8) -> bool { and(i.low.map_or(true, |l| l <= v), i.high.map_or(true, |h| v <= h)) }
fn same(a: &Interval<u8>, b: &Interval<u8>) -> bool { let e = |x: Option<u8>, y: Option<u8>| match (x, y) { (None, None) => true, (Some(x), Some(y)) => x == y, _ => false }; and(e(a.low, b.low), e(a.high, b.high)) }
#[no_mangle] pub extern "C" fn h_interval() {
    let (a, b) = (iv(), iv()); let empty = or(match (a.low, b.high) { (Some(l), Some(h)) => l > h, _ => false }, match (b.low, a.high) { (Some(l), Some(h)) => l > h, _ => false });
    let (x, y) = (sig(vec![], "x", a.clone()), sig(vec![], "x", b.clone()));
    if empty { reach(0); expect_panic(true); let _ = merge(&x, &y); expect_panic(false); fail("an empty interval is accepted"); return }
    reach(1); let (m, da, db) = merge(&x, &y); let v = u8v("v"); check(inside(&m.interval, v) == and(inside(&a, v), inside(&b, v)), "the interval is the intersection");
    check(m.interval.low.is_some() == (a.low.is_some() || b.low.is_some()) && m.interval.high.is_some() == (a.high.is_some() || b.high.is_some()), "a side is unbounded only if both are");
    check(or(da, same(&m.interval, &a)), "a change of the first side is reported"); check(or(db, same(&m.interval, &b)), "a change of the second side is reported"); observe(1, da as u64); observe(2, db as u64);
}
const TERMS: [&str; 8] = ["x", "1", "(f x)", "(k x)", "(g x y)", "(f (f x))", "(g (f x) 1)", "(h x x 1)"];
#[no_mangle] pub extern "C" fn h_simplest() {
    for i in 0..6 { cfg().allowed[i] = u8v("allowed") & 1 == 1 } let (s, t) = (TERMS[choose("s", 8)], TERMS[choose("t", 8)]);
    let (a, b) = (sig(vec![], s, Interval::default()), sig(vec![], t, Interval::default())); let (m, da, db) = merge(&a, &b);
    let cost = |e: &egg::RecExpr<Toy>| { let mut n = e.as_ref().len(); for x in e.as_ref() { if !cfg().allowed[opix(x)] { n = usize::MAX } } n };
    check(m.simplest == a.simplest || m.simplest == b.simplest, "the representative is one of the two"); check(cost(&m.simplest) == cost(&a.simplest).min(cost(&b.simplest)), "the representative is the smaller one");
    check(da || m.simplest == a.simplest, "a change of the first side is reported"); check(db || m.simplest == b.simplest, "a change of the second side is reported"); observe(1, cost(&m.simplest) as u64);
}
/// after any unions, every class knows at least what each of its nodes evaluates to
fn settled(eg: &EG) {
    for c in eg.classes() { for n in &c.nodes {
        let d = SynthAnalysis::make(eg, n);
        for i in 0..d.cvec.len() { if let Some(v) = d.cvec[i] { match c.data.cvec.get(i) { Some(Some(w)) => check(v == *w, "the value vector of a class agrees with each node"), _ => fail("a value known from a node is missing in its class") } } }
        check(Ext.cost_rec(&d.simplest) >= Ext.cost_rec(&c.data.simplest), "no node of the class gives a smaller representative than the one kept");
        if let Some(l) = d.interval.low { check(c.data.interval.low.map_or(false, |m| m >= l), "the interval of a class is within that of each node") } if let Some(h) = d.interval.high { check(c.data.interval.high.map_or(false, |m| m <= h), "the interval of a class is within that of each node") }
    }
    check(eg.lookup_expr(&c.data.simplest) == Some(c.id), "the representative is a term of the class"); }
}
use ruler::ExtractableAstSize as Ext;
#[no_mangle] pub extern "C" fn h_egraph() {
    let n = if cfg!(feature = "thorough") { 3 } else { 2 }; let t = &mut cfg().tab; for x in t.f.iter_mut() { *x = below("F", 3) } for x in t.g.iter_mut() { *x = below("G", 3) }
    let val = |_| if boolv("def") { Some(below("val", 2)) } else { None }; cfg().vars = vec![("x".to_string(), (0..n).map(val).collect()), ("y".to_string(), (0..n).map(val).collect())];
    let mut eg: EG = Default::default(); Toy::initialize_vars(&mut eg, &["x".to_string(), "y".to_string()]);
    let ts = ["x", "y", "1", "(f x)", "(f y)", "(g x y)", "(g x (f x))", "(f (g x y))", "(g 1 y)", "(f (f y))"]; let ids: Vec<_> = ts.iter().map(|t| eg.add_expr(&term(t))).collect();
    settled(&eg);
    let (a, b) = [(0, 1), (0, 2), (3, 1), (5, 6), (2, 5)][choose("union", 5)]; let (ca, cb) = (eg[ids[a]].data.cvec.clone(), eg[ids[b]].data.cvec.clone());
    for i in 0..n { if let (Some(x), Some(y)) = (ca[i], cb[i]) { assume(x == y) } }
    eg.union(ids[a], ids[b]); eg.rebuild(); settled(&eg); let m = &eg[ids[a]].data.cvec; for i in 0..n { observe(1, m[i].map_or(9, |v| v as u64)) }
}
/// a class whose interval is one point contains that constant
#[no_mangle] pub extern "C" fn h_modify() {
    cfg().interval = true; let c = below("c", 50); let d = below("d", 50); let mut eg: EG = Default::default();
    let (x, nc, nd) = (eg.add(Toy::Var("x".into())), eg.add(Toy::Num(c)), eg.add(Toy::Num(d))); let fx = eg.add(Toy::F(x)); let fc = eg.add(Toy::F(nc)); let kc = eg.add(Toy::K(nc)); let kd = eg.add(Toy::K(nd)); let kx = eg.add(Toy::K(x)); let ffx = eg.add(Toy::F(fx));
    eg.rebuild(); check(eg.lookup(Toy::Num(c + 1)).map(|i| eg.find(i)) == Some(eg.find(fc)), "a class of one value holds that constant");
    let (a, b) = [(x, nc), (kc, kd), (kx, kc), (fx, nc), (kc, fc), (kx, nd)][choose("union", 6)];
    let (i, j) = (eg[a].data.interval.clone(), eg[b].data.interval.clone());
    if or(i.low.zip(j.high).map_or(false, |(l, h)| l > h), j.low.zip(i.high).map_or(false, |(l, h)| l > h)) { reach(0); expect_panic(true); eg.union(a, b); eg.rebuild(); expect_panic(false); fail("an empty interval is accepted"); return }
    // other clashes further up are refused as well; a completed rebuild must be settled
    expect_panic(true); eg.union(a, b); eg.rebuild(); expect_panic(false); settled(&eg);
    for k in eg.classes() { if let (Some(l), Some(h)) = (k.data.interval.low, k.data.interval.high) { check(l <= h, "no empty interval is kept"); if l == h { check(eg.lookup(Toy::Num(l)).map(|i| eg.find(i)) == Some(eg.find(k.id)), "a class of one value holds that constant"); reach(1) } } }
    let r = eg[ffx].data.interval.clone(); observe(1, r.low.map_or(99, |v| v as u64)); 
}
