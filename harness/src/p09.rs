//! P09: workload denotation.
use crate::{h::*, sym::*}; use ruler::enumo::*;
/// a workload built through the public operations, with the terms it should denote
type D = (Workload, Vec<Sexp>);
fn at(n: &str) -> Sexp { Sexp::Atom(str1(n, b"xya")) }
fn small() -> Sexp { match choose("t", 6) { 0 => at("a0"), 1 => Sexp::List(vec![at("a1")]), 2 => Sexp::List(vec![at("a2"), at("a2")]), 3 => Sexp::List(vec![]), 4 => Sexp::List(vec![at("a3"), Sexp::List(vec![at("a3")])]), _ => Sexp::List(vec![at("a4"), at("a4"), at("a4")]) } }
fn tiny() -> Sexp { match choose("u", 3) { 0 => at("b0"), 1 => Sexp::List(vec![at("b1"), at("b1")]), _ => Sexp::List(vec![]) } }
fn base(n: usize, f: fn() -> Sexp) -> D { let ts: Vec<Sexp> = (0..n).map(|_| f()).collect(); (Workload::Set(ts.clone()), ts) }
fn plug(w: D, name: &str, p: D) -> D { let mut r = vec![]; for t in &w.1 { r.extend(plugged(t, name, &p.1)) } (w.0.plug(name, &p.0), r) }
fn append(a: D, b: D) -> D { let mut r = a.1; r.extend(b.1); (a.0.append(b.0), r) }
fn filter(a: D, f: Filter) -> D { let r = a.1.into_iter().filter(|t| accepts(&f, t)).collect(); (a.0.filter(f), r) }
fn mono() -> Filter { match choose("f", 5) { 0 => Filter::MetricLt(any_metric(), usizev("n")), 1 => Filter::Excludes(Pattern::Lit(str1("l", b"xya"))), 2 => Filter::Excludes(Pattern::List(vec![Pattern::Wild, Pattern::Lit(str1("l", b"xya"))])), 3 => Filter::And(vec![Filter::MetricLt(any_metric(), usizev("n")), Filter::Excludes(Pattern::Lit(str1("l", b"xya")))]), _ => Filter::Excludes(Pattern::List(vec![Pattern::Var("?p".into()), Pattern::Var("?p".into())])) } }
fn other() -> Filter { match choose("g", 9) { 0 => Filter::MetricEq(any_metric(), usizev("n")), 1 => Filter::Contains(Pattern::Lit(str1("l", b"xya"))), 2 => Filter::Or(vec![Filter::MetricLt(Metric::Atoms, usizev("n")), Filter::Contains(Pattern::Lit(str1("l", b"xya")))]), 3 => Filter::Invert(Box::new(Filter::MetricLt(any_metric(), usizev("n")))), 4 => Filter::Canon(vec!["x".into(), "y".into()]), 5 => Filter::Invert(Box::new(Filter::MetricEq(any_metric(), usizev("n")))), 6 => Filter::Invert(Box::new(Filter::Excludes(Pattern::Lit(str1("l", b"xya"))))), 7 => Filter::Or(vec![Filter::MetricLt(Metric::Depth, usizev("n")), Filter::Excludes(Pattern::Lit(str1("l", b"xya")))]), _ => Filter::And(vec![Filter::Contains(Pattern::Lit(str1("l", b"xya"))), Filter::MetricLt(any_metric(), usizev("n"))]) } }
fn anyf() -> Filter { if boolv("mono") { mono() } else { other() } }
fn done(d: D) { let got = d.0.force(); observe(1, got.len() as u64); check(same_terms(&got, &d.1), "the workload denotes exactly the terms of its definition"); if d.1.is_empty() { reach(0) } else { reach(1) } }
/// plug with any pegs, including none
#[no_mangle] pub extern "C" fn h_plug() {
    let t = cfg!(feature = "thorough"); let w = base(1 + choose("nw", 2), small); let p = base(choose("np", if t { 4 } else { 3 }), tiny); let n = str1("name", b"xy"); done(plug(w, &n, p))
}
/// odd names: a name is a name, whatever it looks like as a pattern
#[no_mangle] pub extern "C" fn h_name() {
    let al = b"*?x"; let a = |n: &str| Sexp::Atom(str1(n, al)); let t = match choose("t", 3) { 0 => a("a"), 1 => Sexp::List(vec![a("a"), a("a")]), _ => Sexp::List(vec![a("a"), Sexp::List(vec![a("a")])]) };
    let w = (Workload::Set(vec![t.clone()]), vec![t]); let p = base(choose("np", 3), tiny); let n = str1("name", al); done(plug(w, &n, p))
}
/// a filter over a plug (push-down), pegs possibly composite
#[no_mangle] pub extern "C" fn h_push() {
    let w = base(1, small); let p = match choose("pk", 3) { 0 => base(choose("np", 3), tiny), 1 => { let a = base(1, tiny); let b = base(1, tiny); let n = str1("pn", b"xy"); plug(a, &n, b) } _ => { let a = base(2, tiny); filter(a, anyf()) } };
    let n = str1("name", b"xy"); let d = plug(w, &n, p); done(filter(d, anyf()))
}
/// two filters over a plug, in any order and kind
#[no_mangle] pub extern "C" fn h_push2() {
    let w = base(1, if cfg!(feature = "thorough") { small } else { tiny }); let p = base(1 + choose("np", 2), tiny); let n = str1("name", b"xy"); let d = plug(w, &n, p); let d = filter(d, anyf()); done(filter(d, anyf()))
}
/// plug after filter after plug
#[no_mangle] pub extern "C" fn h_replug() {
    let w = base(1, small); let p = base(1, tiny); let d = plug(w, &str1("name", b"xy"), p); let d = filter(d, mono()); let q = base(choose("nq", 2), tiny); let d = plug(d, &str1("name", b"xy"), q); done(if boolv("again") { filter(d, mono()) } else { d })
}
/// append of any kinds of workloads, then plug or filter
#[no_mangle] pub extern "C" fn h_append() {
    let part = || match choose("k", 4) { 0 => base(choose("n", 2), tiny), 1 => { let a = base(1, tiny); let b = base(1, tiny); plug(a, "x", b) } 2 => { let a = base(1, tiny); filter(a, Filter::MetricLt(any_metric(), usizev("m"))) } _ => { let a = base(1, tiny); let b = base(1, tiny); let b = filter(b, Filter::MetricLt(Metric::Atoms, usizev("m"))); append(a, b) } };
    let d = append(part(), part()); let d = if cfg!(feature = "thorough") && boolv("three") { append(d, part()) } else { d };
    done(match choose("post", 3) { 0 => d, 1 => { let p = base(choose("np", 2), tiny); plug(d, "y", p) } _ => filter(d, Filter::MetricLt(any_metric(), usizev("m"))) })
}
