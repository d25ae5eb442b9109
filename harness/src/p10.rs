//! P10: grammar enumeration.
use crate::{h::*, sym::*}; use ruler::{enumo::*, recipe_utils::*};
/// closed derivations of measure <= n, by structural recursion over the remaining budget
fn derive(ps: &[Sexp], atom: &str, m: Metric, n: usize, lvl: usize) -> Vec<Sexp> {
    if lvl == 0 { return vec![] }
    let mut out = vec![];
    for p in ps {
        let mut occ = vec![]; subterms(p, &mut occ); let has = occ.iter().any(|x| matches!(x, Sexp::Atom(a) if a == atom));
        let c = if has { let sub = derive(ps, atom, m, n, lvl - 1); plugged(p, atom, &sub) } else { vec![p.clone()] };
        for t in c { if size(&t, m) <= n { out.push(t) } }
    }
    out
}
fn prod() -> Sexp { let at = |s: &str| Sexp::Atom(s.into()); let hole = |n: &str| Sexp::Atom(str1(n, b"Eab"));
    match choose("prod", 4) { 0 => Sexp::Atom(str1("leaf", b"ab")), 1 => Sexp::List(vec![at("f"), hole("h1")]), 2 => Sexp::List(vec![at("g"), hole("h2"), hole("h2")]), _ => Sexp::List(vec![at("k"), Sexp::List(vec![at("f"), hole("h3")]), hole("h3")]) } }
#[no_mangle] pub extern "C" fn h_iter() {
    let t = cfg!(feature = "thorough"); let np = 1 + choose("np", 3); let ps: Vec<Sexp> = (0..np).map(|_| prod()).collect();
    let m = any_metric(); let n = 1 + choose("n", if t { 4 } else { 3 });
    if !t && n == 3 { assume(np <= 2) } if np == 3 && matches!(m, Metric::Lists | Metric::Depth) { assume(n <= 2) } if matches!(m, Metric::Depth) { assume(n <= 3) }
    let want = derive(&ps, "E", m, n, n + 1);
    let got = iter_metric(Workload::Set(ps), "E", m, n).force();
    observe(1, got.len() as u64); check(same_terms(&got, &want), "exactly the closed derivations up to the bound"); if want.is_empty() { reach(0) } else { reach(1) }
}
#[no_mangle] pub extern "C" fn h_base() {
    let n = choose("n", 6); let got = base_lang(n).force(); check(got.len() == n + 2, "one production per arity, a variable and a value");
    let s: Vec<String> = got.iter().map(|x| x.to_string()).collect(); check(s.iter().any(|x| x == "VAR") && s.iter().any(|x| x == "VAL"), "variables and values");
    for i in 1..=n { let mut l = vec![Sexp::Atom(format!("OP{}", i))]; for _ in 0..i { l.push(Sexp::Atom("EXPR".into())) } let p = Sexp::List(l); check(got.iter().filter(|x| seq(x, &p)).count() == 1, "a production of each arity") }
}
#[no_mangle] pub extern "C" fn h_subst() {
    let at = |n: &str| Sexp::Atom(str1(n, b"xya")); let term = || match choose("t", 4) { 0 => at("a"), 1 => Sexp::List(vec![at("a"), at("a")]), 2 => Sexp::List(vec![]), _ => Sexp::List(vec![at("a"), Sexp::List(vec![at("a")])]) };
    let w: Vec<Sexp> = (0..choose("nw", 3)).map(|_| term()).collect(); let s: Vec<Sexp> = (0..choose("ns", 3)).map(|_| term()).collect(); let name = str1("name", b"xy");
    let mut want = vec![]; for p in &s { for t in &w { want.extend(plugged(t, &name, &[p.clone()])) } }
    let got = substitute(Workload::Set(w), Workload::Set(s), &name).force(); observe(1, got.len() as u64);
    check(same_terms(&got, &want), "every instance replaces all occurrences by the same term")
}
