//! P08: filters.
use crate::{h::*, sym::*}; use ruler::enumo::*;
fn run(f: Filter, e: &Sexp) -> bool { let r = Workload::Set(vec![e.clone()]).filter(f).force(); check(r.len() <= 1, "a filter does not duplicate"); if r.len() == 1 { check(seq(&r[0], e), "a kept term is unchanged") } r.len() == 1 }
#[no_mangle] pub extern "C" fn h_pattern() {
    let t = cfg!(feature = "thorough"); let p = any_pat(if t { 6 } else { 5 }, 3, b"ab"); let e = any_term(if t { 7 } else { 6 }, 3, b"ab");
    let want = contains(&p, &e);
    check(run(Filter::Contains(p.clone()), &e) == want, "containment: some subterm is an instance of the pattern");
    check(run(Filter::Excludes(p), &e) == !want, "exclusion is the complement of containment");
    observe(1, want as u64); if want { reach(0) } else { reach(1) }
}
/// repeated variables over larger subterms
#[no_mangle] pub extern "C" fn h_nonlinear() {
    let v = |n: &str| Pattern::Var(format!("?{}", str1(n, b"xyz")));
    let p = match choose("form", 3) { 0 => Pattern::List(vec![v("v"), v("v"), v("v")]), 1 => Pattern::List(vec![v("v"), Pattern::List(vec![v("v"), v("v")])]), _ => Pattern::List(vec![Pattern::List(vec![v("v"), v("v")]), v("v")]) };
    let sub = || { any_term(3, 2, b"ab") };
    let e = match choose("eform", 3) { 0 => Sexp::List(vec![sub(), sub(), sub()]), 1 => Sexp::List(vec![sub(), Sexp::List(vec![sub(), sub()])]), _ => Sexp::List(vec![Sexp::List(vec![sub(), sub()]), sub()]) };
    let want = contains(&p, &e); check(run(Filter::Contains(p), &e) == want, "a repeated variable matches equal subterms only"); observe(1, want as u64); if want { reach(0) } else { reach(1) }
}
fn leaf() -> Filter {
    match choose("leaf", 6) { 0 => Filter::MetricLt(any_metric(), usizev("n")), 1 => Filter::MetricEq(any_metric(), usizev("n")), 2 => Filter::Contains(Pattern::Lit(str1("l", b"ab"))), 3 => Filter::Excludes(Pattern::Lit(str1("l", b"ab"))),
      4 => Filter::Canon(vec!["a".into(), "b".into()]), _ => Filter::Contains(Pattern::List(vec![Pattern::Wild, Pattern::Var("?x".into())])) }
}
fn tree(d: usize) -> Filter {
    if d == 0 { return leaf() }
    match choose("conn", 4) { 0 => leaf(), 1 => Filter::Invert(Box::new(tree(d - 1))), k => { let n = choose("arity", 3); let fs = (0..n).map(|_| tree(d - 1)).collect(); if k == 2 { Filter::And(fs) } else { Filter::Or(fs) } } }
}
#[no_mangle] pub extern "C" fn h_bool() {
    let t = cfg!(feature = "thorough"); let f = tree(1); let f = if t { match choose("wrap", 3) { 0 => f, 1 => Filter::Invert(Box::new(f)), _ => Filter::And(vec![f, leaf()]) } } else { f };
    let e = match choose("e", 4) { 0 => Sexp::Atom(str1("a", b"ab")), 1 => Sexp::List(vec![Sexp::Atom(str1("a", b"ab")), Sexp::Atom(str1("a", b"ab"))]), 2 => Sexp::List(vec![]), _ => Sexp::List(vec![Sexp::Atom(str1("a", b"ab")), Sexp::List(vec![Sexp::Atom(str1("a", b"ab")), Sexp::Atom(str1("a", b"ab"))])]) };
    let want = accepts(&f, &e); check(run(f, &e) == want, "filters combine by boolean logic"); observe(1, want as u64); if want { reach(0) } else { reach(1) }
}
/// chains: filtering twice is filtering by the conjunction
#[no_mangle] pub extern "C" fn h_chain() {
    let n = if cfg!(feature = "thorough") { 3 } else { 2 };
    let part = || match choose("p", 3) { 0 => leaf(), 1 => { let m = any_metric(); Filter::And(vec![Filter::MetricLt(m, usizev("n")), Filter::MetricLt(any_metric(), usizev("n"))]) } _ => Filter::MetricLt(any_metric(), usizev("n")) };
    let e = any_term(3, 2, b"ab"); let mut w = Workload::Set(vec![e.clone()]); let mut want = true;
    for _ in 0..n { let f = part(); want &= accepts(&f, &e); w = w.filter(f) }
    check((w.force().len() == 1) == want, "chained filters keep exactly the terms passing all of them"); observe(1, want as u64); if want { reach(0) } else { reach(1) }
}
