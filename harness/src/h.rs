//! Shared generators and reference definitions for s-expressions, patterns, filters and workloads.
#![allow(dead_code)]
use crate::sym::*;
use ruler::enumo::*;

/// one symbolic byte out of an alphabet (not forked)
pub fn byte(name: &str, alpha: &[u8]) -> u8 { let b = u8v(name); let mut ok = false; for c in alpha { ok = or(ok, b == *c) } assume(ok); b }
pub fn str1(name: &str, alpha: &[u8]) -> String { unsafe { String::from_utf8_unchecked(vec![byte(name, alpha)]) } }
/// any s-expression with at most `left` further nodes; atoms are one symbolic byte
pub struct Gen<'a> { pub left: usize, pub maxlen: usize, pub alpha: &'a [u8] }
impl<'a> Gen<'a> {
    pub fn new(nodes: usize, maxlen: usize, alpha: &'a [u8]) -> Self { Gen { left: nodes - 1, maxlen, alpha } }
    pub fn term(&mut self) -> Sexp {
        let m = self.left.min(self.maxlen);
        let k = choose("shape", 2 + m as u8);
        if k == 0 { return Sexp::Atom(str1("atom", self.alpha)) }
        self.left -= k - 1; Sexp::List((1..k).map(|_| self.term()).collect())
    }
    pub fn pat(&mut self) -> Pattern {
        let m = self.left.min(self.maxlen);
        match choose("pshape", 4 + m as u8) {
            0 => Pattern::Wild, 1 => Pattern::Var(format!("?{}", str1("pvar", b"xy"))), 2 => Pattern::Lit(str1("plit", self.alpha)),
            k => { self.left -= k - 3; Pattern::List((3..k).map(|_| self.pat()).collect()) }
        }
    }
}
pub fn any_term(nodes: usize, maxlen: usize, alpha: &[u8]) -> Sexp { Gen::new(nodes, maxlen, alpha).term() }
pub fn any_pat(nodes: usize, maxlen: usize, alpha: &[u8]) -> Pattern { Gen::new(nodes, maxlen, alpha).pat() }
pub fn any_metric() -> Metric { match choose("metric", 3) { 0 => Metric::Atoms, 1 => Metric::Lists, _ => Metric::Depth } }

// ------------------------------------------------------------ reference definitions
pub fn seq(a: &Sexp, b: &Sexp) -> bool { match (a, b) { (Sexp::Atom(x), Sexp::Atom(y)) => x.len() == y.len() && x == y, (Sexp::List(x), Sexp::List(y)) => { if x.len() != y.len() { return false } for i in 0..x.len() { if !seq(&x[i], &y[i]) { return false } } true } _ => false } }
/// measure of a term, by traversal with an explicit stack of (term, depth)
pub fn size(t: &Sexp, m: Metric) -> usize {
    let (mut atoms, mut lists, mut deep) = (0, 0, 0); let mut st = vec![(t, 1usize)];
    while let Some((t, d)) = st.pop() { if d > deep { deep = d } match t { Sexp::Atom(_) => atoms += 1, Sexp::List(l) => { lists += 1; for x in l { st.push((x, d + 1)) } } } }
    match m { Metric::Atoms => atoms, Metric::Lists => lists, Metric::Depth => deep }
}
pub fn subterms<'a>(t: &'a Sexp, out: &mut Vec<&'a Sexp>) { out.push(t); if let Sexp::List(l) = t { for x in l { subterms(x, out) } } }
pub fn inst<'a>(p: &'a Pattern, t: &'a Sexp, env: &mut Vec<(&'a String, &'a Sexp)>) -> bool {
    match (p, t) {
        (Pattern::Wild, _) => true,
        (Pattern::Var(v), _) => { for (w, s) in env.iter() { if *w == v { return seq(s, t) } } env.push((v, t)); true }
        (Pattern::Lit(x), Sexp::Atom(y)) => x == y, (Pattern::Lit(_), _) => false,
        (Pattern::List(ps), Sexp::List(ts)) => { if ps.len() != ts.len() { return false } for i in 0..ps.len() { if !inst(&ps[i], &ts[i], env) { return false } } true }
        (Pattern::List(_), _) => false,
    }
}
pub fn contains(p: &Pattern, t: &Sexp) -> bool { let mut s = vec![]; subterms(t, &mut s); for x in s { if inst(p, x, &mut vec![]) { return true } } false }
pub fn canonical(syms: &[String], t: &Sexp) -> bool {
    let mut s = vec![]; subterms(t, &mut s); let mut seen: Vec<&String> = vec![];
    for x in s { if let Sexp::Atom(a) = x { if syms.iter().any(|y| y == a) && !seen.iter().any(|y| *y == a) { if *a != syms[seen.len()] { return false } seen.push(a) } } }
    true
}
pub fn accepts(f: &Filter, t: &Sexp) -> bool {
    match f {
        Filter::MetricLt(m, n) => size(t, *m) < *n, Filter::MetricEq(m, n) => size(t, *m) == *n,
        Filter::Contains(p) => contains(p, t), Filter::Excludes(p) => !contains(p, t), Filter::Canon(s) => canonical(s, t),
        Filter::And(fs) => { let mut r = true; for g in fs { if !accepts(g, t) { r = false } } r } Filter::Or(fs) => { let mut r = false; for g in fs { if accepts(g, t) { r = true } } r } Filter::Invert(g) => !accepts(g, t),
    }
}
/// all ways to replace each occurrence of the atom by one of the pegs, independently
pub fn plugged(t: &Sexp, name: &str, pegs: &[Sexp]) -> Vec<Sexp> {
    match t {
        Sexp::Atom(a) => if a.len() == name.len() && a == name { pegs.to_vec() } else { vec![t.clone()] },
        Sexp::List(l) => { let mut acc: Vec<Vec<Sexp>> = vec![vec![]]; for x in l { let c = plugged(x, name, pegs); let mut n = vec![]; for a in &acc { for y in &c { let mut b = a.clone(); b.push(y.clone()); n.push(b) } } acc = n } acc.into_iter().map(Sexp::List).collect() }
    }
}
/// equal as multisets
pub fn same_terms(a: &[Sexp], b: &[Sexp]) -> bool {
    if a.len() != b.len() { return false }
    let mut inorder = true; for i in 0..a.len() { if !seq(&a[i], &b[i]) { inorder = false; break } } if inorder { return true }
    let mut rest: Vec<&Sexp> = b.iter().collect();
    for x in a { match rest.iter().position(|y| seq(x, y)) { Some(i) => { rest.swap_remove(i); } None => return false } }
    true
}
pub fn obs_sexp(tag: u64, t: &Sexp) { match t { Sexp::Atom(a) => observe_bytes(tag, a.as_bytes()), Sexp::List(l) => { observe(tag, 1000 + l.len() as u64); for x in l { obs_sexp(tag, x) } } } }
