//! A small language for driving the domain-independent parts of ruler.  What a domain
//! supplies (samples, validator verdicts, allowed operators, intervals) comes from CFG,
//! which the harnesses fill with symbolic values.
#![allow(dead_code)]
use crate::sym::*; pub use egg::{self, Id, Analysis, AstSize, CostFunction, DidMerge, ENodeOrVar, Extractor, Language, RecExpr, Symbol, Var}; use ruler::{CVec, HashMap, Interval, SynthAnalysis, SynthLanguage, ValidationResult, enumo::*};
pub type EG = ruler::EGraph<Toy, SynthAnalysis>; pub type RS = Ruleset<Toy>; pub type RL = Rule<Toy>; pub type Pat = egg::Pattern<Toy>;
egg::define_language! { pub enum Toy { "f" = F(egg::Id), "k" = K(egg::Id), "g" = G([egg::Id; 2]), "h" = H([egg::Id; 3]), "q" = Q([egg::Id; 4]), Num(u8), Var(egg::Symbol), } }
/// function tables over {0,1}; 2 stands for undefined
#[derive(Clone, Copy)] pub struct Tab { pub f: [u8; 2], pub k: [u8; 2], pub g: [u8; 4] }
pub struct Cfg { pub tab: Tab, pub vars: Vec<(String, CVec<Toy>)>, pub verdict: Vec<(String, u8)>, pub default_verdict: u8, pub allowed: [bool; 7], pub expl: Vec<String>, pub interval: bool, pub ff: bool, pub lazy: bool, pub two: bool }
impl Cfg { pub const fn new() -> Self { Cfg { tab: Tab { f: [0, 1], k: [0, 1], g: [0, 0, 0, 1] }, vars: vec![], verdict: vec![], default_verdict: 0, allowed: [true; 7], expl: vec![], interval: false, ff: false, lazy: false, two: false } } }
static mut CFG: Cfg = Cfg::new();
pub fn cfg() -> &'static mut Cfg { unsafe { &mut *std::ptr::addr_of_mut!(CFG) } }
fn t1(t: &[u8; 2], x: u8) -> Option<u8> { let v = if x == 0 { t[0] } else { t[1] }; if v < 2 { Some(v) } else { None } }
fn t2(t: &[u8; 4], x: u8, y: u8) -> Option<u8> { let v = if x == 0 { if y == 0 { t[0] } else { t[1] } } else if y == 0 { t[2] } else { t[3] }; if v < 2 { Some(v) } else { None } }
pub fn opix(n: &Toy) -> usize { match n { Toy::F(_) => 0, Toy::K(_) => 1, Toy::G(_) => 2, Toy::H(_) => 3, Toy::Num(_) => 4, Toy::Var(_) => 5, Toy::Q(_) => 6 } }
impl SynthLanguage for Toy {
    type Constant = u8;
    fn eval<'a, F>(&'a self, n: usize, mut get: F) -> CVec<Self> where F: FnMut(&'a egg::Id) -> &'a CVec<Self> {
        let t = &cfg().tab;
        match self {
            Toy::F(a) => get(a).iter().map(|x| x.and_then(|x| t1(&t.f, x))).collect(), Toy::K(a) => get(a).iter().map(|x| x.and_then(|x| t1(&t.k, x))).collect(),
            Toy::G([a, b]) => { let x = get(a).clone(); let y = get(b).clone(); x.iter().zip(y).map(|(x, y)| match (x, y) { (Some(x), Some(y)) => t2(&t.g, *x, y), _ => None }).collect() }
            Toy::H([a, b, c]) => { let x = get(a).clone(); let y = get(b).clone(); let z = get(c).clone(); x.iter().zip(y).zip(z).map(|((x, y), z)| match (x, y, z) { (Some(x), Some(y), Some(z)) => Some(x ^ y ^ z), _ => None }).collect() }
            Toy::Q(a) => { let v: Vec<CVec<Toy>> = a.iter().map(|i| get(i).clone()).collect(); (0..v[0].len()).map(|i| match (v[0][i], v[1][i], v[2][i], v[3][i]) { (Some(a), Some(b), Some(c), Some(d)) => Some(a ^ b ^ c ^ d), _ => None }).collect() }
            Toy::Num(c) => vec![Some(*c); n], Toy::Var(_) => vec![],
        }
    }
    fn mk_interval<'a, F>(&'a self, mut get: F) -> Interval<u8> where F: FnMut(&'a egg::Id) -> &'a Interval<u8> {
        if !cfg().interval { return Interval::default() }
        match self { Toy::Num(c) => Interval::new(Some(*c), Some(*c)), Toy::F(a) => { let i = get(a); Interval::new(i.low.map(|x| x + 1), i.high.map(|x| x + 1)) } Toy::K(a) => { let i = get(a); Interval::new(i.low, i.high.map(|x| x + 1)) } _ => Interval::default() }
    }
    fn initialize_vars(eg: &mut EG, vars: &[String]) {
        let n = cfg().vars.first().map_or(0, |v| v.1.len()); eg.analysis.cvec_len = n;
        for v in vars { let id = eg.add(Toy::Var(v.as_str().into())); if let Some((_, cv)) = cfg().vars.iter().find(|x| x.0 == *v) { eg[id].data.cvec = cv.clone() } }
    }
    fn to_var(&self) -> Option<egg::Symbol> { if let Toy::Var(s) = self { Some(*s) } else { None } }
    fn mk_var(s: egg::Symbol) -> Self { Toy::Var(s) }
    fn is_constant(&self) -> bool { matches!(self, Toy::Num(_)) }
    fn mk_constant(c: u8, _: &mut EG) -> Self { Toy::Num(c) }
    fn is_fast_forwarding() -> bool { cfg().ff }
    fn get_exploratory_rules() -> RS { RS::new(&cfg().expl) }
    fn is_allowed_op(&self) -> bool { cfg().allowed[opix(self)] }
    fn validate(l: &Pat, r: &Pat) -> ValidationResult { match verdict(&canon_rule(&l.to_string(), &r.to_string())) { 0 => ValidationResult::Valid, 1 => ValidationResult::Invalid, _ => ValidationResult::Unknown } }
}
/// the validator's answer for a rule (canonical text): 0 valid, 1 invalid, 2 unknown; in lazy mode any answer, the same one every time
pub fn verdict(name: &str) -> u8 { if let Some(x) = cfg().verdict.iter().find(|x| x.0 == name) { return x.1 } if !cfg().lazy { return cfg().default_verdict } let k = format!("verdict_{}", name.replace(' ', "_")); let v = if cfg().two { if boolv(&k) { 1 + (name.len() & 1) as u8 } else { 0 } } else { conc(below(&k, 3) as usize) as u8 }; cfg().verdict.push((name.to_string(), v)); v }
pub fn valid(l: &str, r: &str) -> bool { verdict(&canon_rule(l, r)) == 0 }
pub fn term(s: &str) -> RecExpr<Toy> { s.parse().unwrap() }
pub fn pat(s: &str) -> Pat { s.parse().unwrap() }
pub fn rule(s: &str) -> RL { RL::from_string(s).unwrap().0 }
pub fn rules(s: &[&str]) -> RS { RS::new(s) }

// ------------------------------------------------------- finite models (two elements), evaluated without branching
#[derive(Clone)] pub struct Model { pub f: [u8; 2], pub k: [u8; 2], pub g: [u8; 4], pub h: [u8; 8], pub q: [u8; 16], pub num: [u8; 4], pub env: Vec<(String, u8)> }
fn bit(n: &str) -> u8 { u8v(n) & 1 }
impl Model {
    /// any interpretation of the operators, constants and the variables named
    pub fn any(vars: &[&str]) -> Model { let mut m = Model { f: [0; 2], k: [0; 2], g: [0; 4], h: [0; 8], q: [0; 16], num: [0; 4], env: vec![] };
        for x in m.f.iter_mut() { *x = bit("Mf") } for x in m.k.iter_mut() { *x = bit("Mk") } for x in m.g.iter_mut() { *x = bit("Mg") } for x in m.h.iter_mut() { *x = bit("Mh") } for x in m.q.iter_mut() { *x = bit("Mq") } for x in m.num.iter_mut() { *x = bit("Mn") } m.env = vars.iter().map(|v| (v.to_string(), bit("Mv"))).collect(); m }
    fn op(&self, n: &Toy, cv: &[u8]) -> u8 { let c = |i: &egg::Id| cv[usize::from(*i)]; let mx = |x: u8, a: u8, b: u8| (x & b) | (!x & a & 1);
        match n { Toy::F(a) => mx(c(a), self.f[0], self.f[1]), Toy::K(a) => mx(c(a), self.k[0], self.k[1]), Toy::G([a, b]) => mx(c(a), mx(c(b), self.g[0], self.g[1]), mx(c(b), self.g[2], self.g[3])),
          Toy::H([a, b, d]) => { let q = |o: usize| mx(c(b), mx(c(d), self.h[o], self.h[o + 1]), mx(c(d), self.h[o + 2], self.h[o + 3])); mx(c(a), q(0), q(4)) } Toy::Q(a) => { let mut t: Vec<u8> = self.q.to_vec(); for i in a { let x = c(i); let h = t.len() / 2; t = (0..h).map(|j| mx(x, t[j], t[j + h])).collect() } t[0] } Toy::Num(v) => self.num[*v as usize & 3], Toy::Var(_) => unreachable!() } }
    pub fn value(&self, t: &RecExpr<Toy>) -> u8 { let mut cv: Vec<u8> = vec![]; for n in t.as_ref() { let v = match n { Toy::Var(s) => { let s = s.as_str(); self.env.iter().find(|x| x.0 == s).expect("variable of the model").1 } n => self.op(n, &cv) }; cv.push(v) } *cv.last().unwrap() }
    fn pvalue(&self, p: &Pat, env: &[(egg::Var, u8)]) -> u8 { let mut cv: Vec<u8> = vec![]; for n in p.ast.as_ref() { let v = match n { ENodeOrVar::Var(v) => env.iter().find(|x| x.0 == *v).unwrap().1, ENodeOrVar::ENode(Toy::Var(s)) => self.env.iter().find(|x| x.0 == s.as_str()).expect("variable of the model").1, ENodeOrVar::ENode(n) => self.op(n, &cv) }; cv.push(v) } *cv.last().unwrap() }
    /// does the equation hold for all values of its pattern variables
    pub fn holds(&self, l: &Pat, r: &Pat) -> bool { let mut vs = l.vars(); for v in r.vars() { if !vs.contains(&v) { vs.push(v) } } let mut ok = true;
        for i in 0..1u32 << vs.len() { let env: Vec<(egg::Var, u8)> = vs.iter().enumerate().map(|(j, v)| (*v, (i >> j & 1) as u8)).collect(); ok = and(ok, self.pvalue(l, &env) == self.pvalue(r, &env)) } ok }
    pub fn all(&self, rs: &RS) -> bool { let mut ok = true; for r in rs.iter() { ok = and(ok, self.holds(&r.lhs, &r.rhs)) } ok }
}
/// canonical text of a rule: pattern variables renamed in order of first occurrence
pub fn canon_rule(l: &str, r: &str) -> String { let s = format!("{} ==> {}", l, r); let mut out = String::new(); let mut seen: Vec<String> = vec![]; let mut it = s.chars().peekable();
    while let Some(c) = it.next() { if c == '?' { let mut v = String::new(); while let Some(d) = it.peek() { if d.is_alphanumeric() { v.push(*d); it.next(); } else { break } } let k = match seen.iter().position(|x| *x == v) { Some(k) => k, None => { seen.push(v); seen.len() - 1 } }; out.push_str(&format!("?{}", k)) } else { out.push(c) } } out }
/// the canonical rules a candidate pair stands for: both directions, where every variable on the right occurs on the left
pub fn pair_rules(a: &str, b: &str, out: &mut Vec<String>) { for (l, r) in [(a, b), (b, a)] { let (lp, rp) = (qm(l), qm(r)); if pvars(&rp).iter().all(|v| pvars(&lp).contains(v)) { let c = canon_rule(&lp, &rp); if !out.contains(&c) { out.push(c) } } } }
/// term text to pattern text: identifiers that are not operators or numbers become pattern variables
pub fn qm(s: &str) -> String { let mut o = String::new(); let mut w = String::new(); for c in s.chars().chain(std::iter::once('\n')) { if c == '(' || c == ')' || c == ' ' || c == '\n' { if !w.is_empty() { let op = ["f", "k", "g", "h", "q"].contains(&w.as_str()) && o.ends_with('('); if !op && !w.as_bytes()[0].is_ascii_digit() { o.push('?') } o.push_str(&w); w.clear() } if c != '\n' { o.push(c) } } else { w.push(c) } } o }
pub fn pvars(p: &str) -> Vec<String> { let mut v: Vec<String> = vec![]; for w in p.split(|c: char| c == ' ' || c == '(' || c == ')') { if w.starts_with('?') && !v.contains(&w.to_string()) { v.push(w.to_string()) } } v }
pub fn names(rs: &RS) -> Vec<String> { rs.iter().map(|r| r.name.to_string()).collect() }
pub fn same_set(a: &[String], b: &[String]) -> bool { a.iter().all(|x| b.contains(x)) && b.iter().all(|x| a.contains(x)) }
// ------------------------------------------------------- e-graphs with given value vectors
pub const TERMS: [&str; 6] = ["x", "(f x)", "(g x y)", "(g y x)", "1", "y"];
/// classes with any value vectors; the smallest term of each class is the one listed
pub fn classes(k: usize, n: usize, hi: u8) -> (EG, Vec<&'static str>, Vec<CVec<Toy>>) {
    let mut eg: EG = Default::default(); let ts = TERMS[..k].to_vec(); let ids: Vec<_> = ts.iter().map(|t| eg.add_expr(&term(t))).collect(); let extra = boolv("extra");
    let mut all = ids.clone(); if !ts.contains(&"y") && k >= 3 { all.push(eg.add_expr(&term("y"))) }
    if extra { let o = eg.add_expr(&term("(k (k (f x)))")); let p = eg.add_expr(&term("(k (f x))")); eg.union(o, ids[1]); eg.union(p, ids[0]); eg.rebuild(); }
    eg.rebuild(); eg.analysis.cvec_len = n;
    let cvs: Vec<CVec<Toy>> = ts.iter().map(|_| (0..n).map(|_| if boolv("def") { Some(below("val", hi)) } else { None }).collect()).collect();
    for c in eg.classes_mut() { c.data.cvec = vec![None; n] }
    for (i, c) in ids.iter().zip(&cvs) { eg[*i].data.cvec = c.clone() }
    (eg, ts, cvs)
}
pub fn canon_all(rs: &RS) -> Vec<String> { let mut o: Vec<String> = vec![]; for r in rs.iter() { check(&*r.name == format!("{} ==> {}", r.lhs, r.rhs), "a rule is named by its sides"); let c = canon_rule(&r.lhs.to_string(), &r.rhs.to_string()); if !o.contains(&c) { o.push(c) } } o }
pub fn compare(got: &RS, want: &[String]) { let g = canon_all(got); check(g.iter().all(|x| want.contains(x)), "only agreeing pairs are proposed"); check(want.iter().all(|x| g.contains(x)), "every agreeing pair is proposed in each legal direction"); if want.is_empty() { reach(0) } else { reach(1) } observe(1, want.len() as u64) }
