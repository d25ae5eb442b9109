//! P17: what one application of a rule equates.
use crate::{sym::*, toy::*}; use ruler::{Limits, Signature, SynthAnalysis, SynthLanguage, CVec, enumo::*};
const RULES: [&str; 9] = ["(f ?a) ==> (k ?a)", "(f ?a) ==> ?a", "?a ==> (k ?a)", "(g ?a ?b) ==> (g ?b ?a)", "(f (f ?a)) ==> ?a", "(g ?a ?a) ==> (f ?a)", "(g ?a 1) ==> ?a", "(g (f ?a) ?b) ==> (f (g ?a ?b))", "(k ?a) ==> 1"];
fn t1(t: &[u8; 2], x: Option<u8>) -> Option<u8> { let x = x?; let v = if x == 0 { t[0] } else { t[1] }; if v < 2 { Some(v) } else { None } }
/// value of a term at one sample
pub fn ev(t: &Sexp, env: &dyn Fn(&str) -> Option<u8>) -> Option<u8> {
    match t { Sexp::Atom(a) => if a == "1" { Some(1) } else { env(a) },
      Sexp::List(l) => { let Sexp::Atom(op) = &l[0] else { return None }; let tb = &cfg().tab; match op.as_str() { "f" => t1(&tb.f, ev(&l[1], env)), "k" => t1(&tb.k, ev(&l[1], env)), _ => { let x = ev(&l[1], env)?; let y = ev(&l[2], env)?; if x == 0 { t1(&[tb.g[0], tb.g[1]], Some(y)) } else { t1(&[tb.g[2], tb.g[3]], Some(y)) } } } } }
}
pub fn sub(p: &str, s: &[(&str, &str)]) -> String { let mut r = p.to_string(); for (v, t) in s { r = r.replace(v, t) } r }
fn at(t: &str, i: usize) -> Option<u8> { let s: Sexp = t.parse().unwrap(); ev(&s, &|v| cfg().vars.iter().find(|x| x.0 == v).and_then(|x| x.1[i])) }
/// tables on which the rule never contradicts itself
fn tables(r: usize) {
    let t = &mut cfg().tab; if RULES[r].contains('f') { for x in t.f.iter_mut() { *x = below("F", 3) } } if RULES[r].contains('k') { for x in t.k.iter_mut() { *x = below("K", 3) } } if RULES[r].contains('g') { for x in t.g.iter_mut() { *x = below("G", 3) } }
    let (l, rr) = RULES[r].split_once(" ==> ").unwrap(); let (l, rr): (Sexp, Sexp) = (l.parse().unwrap(), rr.parse().unwrap());
    for i in 0..4u8 { let env = |v: &str| Some(if v == "?a" { i & 1 } else { i >> 1 }); if let (Some(x), Some(y)) = (ev(&l, &env), ev(&rr, &env)) { assume(x == y) } }
}
#[no_mangle] pub extern "C" fn h_apply() {
    init(); let r = choose("rule", 9); tables(r); let n = choose("samples", if cfg!(feature = "thorough") { 3 } else { 3 });
    let val = |_| if boolv("def") { Some(below("val", 2)) } else { None }; cfg().vars = vec![("x".to_string(), (0..n).map(val).collect()), ("y".to_string(), (0..n).map(val).collect())];
    let mut eg: EG = Default::default(); Toy::initialize_vars(&mut eg, &["x".to_string(), "y".to_string()]);
    let (l, rr) = RULES[r].split_once(" ==> ").unwrap(); let s = [("?a", ["x", "(f x)"][choose("a", 2)]), ("?b", "y")]; let (l, rr) = (sub(l, &s), sub(rr, &s));
    let mut ts = vec!["x".to_string(), "y".into(), "1".into(), "(f x)".into(), "(k (f x))".into(), l.clone()]; if boolv("rhs") { ts.push(rr.clone()) }
    let ids: Vec<_> = ts.iter().map(|t| eg.add_expr(&term(t))).collect(); eg.rebuild();
    let before: Vec<CVec<Toy>> = ids.iter().map(|i| eg[*i].data.cvec.clone()).collect();
    let out = Scheduler::Simple(Limits { iter: 1, node: 1000, match_: 1000 }).run(&eg, &rules(&[RULES[r]]));
    let defined = |t: &str| n == 0 || (0..n).any(|i| at(t, i).is_some());
    if defined(&l) && defined(&rr) { reach(0); check(out.lookup_expr(&term(&rr)).is_some() && out.lookup_expr(&term(&rr)) == out.lookup_expr(&term(&l)), "a matched instance is equated when both sides are defined somewhere") } else { reach(1) }
    for c in out.classes() { if n > 0 && c.data.cvec.iter().all(|v| v.is_none()) { reach(2); check(c.nodes.len() == 1, "a class undefined everywhere is never merged with another") } }
    // nothing else is equated: every model of the rule satisfies every merge
    let m = Model::any(&["x", "y"]); let ok = m.all(&rules(&[RULES[r]])); let vs: Vec<u8> = ts.iter().map(|t| m.value(&term(t))).collect();
    for i in 0..ts.len() { for j in 0..i { if out.find(ids[i]) == out.find(ids[j]) { check(or(not(ok), vs[i] == vs[j]), "only instances of the rule are equated") } } }
    for (i, b) in before.iter().enumerate() { for j in 0..n { if let Some(v) = b[j] { check(out[ids[i]].data.cvec[j] == Some(v), "values are kept") } } }
    observe(1, out.number_of_classes() as u64); observe(2, out.total_number_of_nodes() as u64);
}
/// two rules, two rounds, no samples
#[no_mangle] pub extern "C" fn h_sound() {
    init(); let p = [RULES[0], RULES[1], RULES[3], RULES[4], RULES[5], RULES[6], RULES[7], RULES[8], "(k (f ?a)) ==> (f (k ?a))", "(h ?a ?b ?c) ==> (g (g ?a ?b) ?c)", "(g ?b (f ?a)) ==> (h ?b ?b ?a)"]; let i = choose("r1", 11); let j = choose("r2", 11); assume(i < j); let rs = rules(&[p[i], p[j]]);
    let sets: [&[&str]; 3] = [&["(g (f x) 1)", "(g 1 (f x))", "(f (g x 1))", "(k x)", "(f (f (g x y)))", "x", "y"], &["(h x y 1)", "(g (g x y) 1)", "(k (f x))", "(f (k x))", "(g y (f x))", "(g x x)"], &["(f (f (f x)))", "(g (k x) (k x))", "(k (k y))", "1", "(h x x x)", "(g x (f y))"]]; let ts = sets[choose("terms", 3)];
    let mut eg: EG = Default::default(); let ids: Vec<_> = ts.iter().map(|t| eg.add_expr(&term(t))).collect(); eg.rebuild();
    let pre = choose("pre", 2) == 1; if pre { eg.union(ids[0], ids[3]); eg.rebuild(); }
    let out = Scheduler::Simple(Limits { iter: if cfg!(feature = "thorough") { 3 } else { 2 }, node: 200, match_: 100 }).run(&eg, &rs);
    let m = Model::any(&["x", "y"]); let vs: Vec<u8> = ts.iter().map(|t| m.value(&term(t))).collect(); let mut ok = m.all(&rs); if pre { ok = and(ok, vs[0] == vs[3]) }
    for i in 0..ts.len() { for j in 0..i { if out.find(ids[i]) == out.find(ids[j]) { reach(0); check(or(not(ok), vs[i] == vs[j]), "every merge follows from the rules") } } }
    observe(1, out.number_of_classes() as u64);
}
