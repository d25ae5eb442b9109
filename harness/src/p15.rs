//! P15: cost of extractable terms.
use crate::{h::*, sym::*, toy::*}; use egg::{CostFunction, Extractor}; use ruler::{*, enumo::*};
fn allow() { for i in 0..6 { cfg().allowed[i] = u8v("allowed") & 1 == 1 } }
fn bad(e: &egg::RecExpr<Toy>) -> bool { let mut b = false; for n in e.as_ref() { b = or(b, not(cfg().allowed[opix(n)])) } b }
fn tm(left: &mut usize) -> String {
    let k = choose("shape", 2 + (*left).min(3) as u8);
    if k == 0 { return "x".to_string() } if k == 1 { return "7".to_string() }
    let n = k - 1; *left -= n; let mut s = format!("({}", if n == 1 { ["f", "k"][choose("u", 2)] } else { ["g", "h"][n - 2] }); for _ in 0..n { s.push(' '); s.push_str(&tm(left)) } s.push(')'); s
}
#[no_mangle] pub extern "C" fn h_cost() {
    allow(); let s = tm(&mut if cfg!(feature = "thorough") { 6 } else { 5 }); let e = term(&s); let c = ExtractableAstSize.cost_rec(&e);
    let n = s.split(|c| c == ' ' || c == '(' || c == ')').filter(|x| !x.is_empty()).count();
    if bad(&e) { reach(0); check(c == usize::MAX, "a term with a disallowed operator has the maximal cost") } else { reach(1); check(c == n, "the cost of an allowed term is its size") } observe(1, c as u64);
}
/// extraction from classes holding several terms
#[no_mangle] pub extern "C" fn h_extract() {
    allow(); let pool = ["x", "7", "(f x)", "(k x)", "(g x 7)", "(k (f x))", "(h x x 7)", "(f (k x))", "(g (f x) 7)"]; let mut eg: EG = Default::default();
    let ids: Vec<_> = pool.iter().map(|t| eg.add_expr(&term(t))).collect();
    let n = 1 + choose("unions", if cfg!(feature = "thorough") { 3 } else { 2 }); for _ in 0..n { let i = choose("i", 9); let j = choose("j", 9); assume(i < j); eg.union(ids[i], ids[j]); }
    eg.rebuild(); let ex = Extractor::new(&eg, ExtractableAstSize);
    // reference: least cost of each class by relaxation over the nodes of the e-graph
    let cls: Vec<_> = eg.classes().map(|c| c.id).collect(); let mut cost = vec![usize::MAX; cls.len()]; let ix = |id: ruler::Id| cls.iter().position(|c| *c == eg.find(id)).unwrap();
    for _ in 0..=cls.len() { for (i, c) in cls.iter().enumerate() { for nd in &eg[*c].nodes { if !cfg().allowed[opix(nd)] { continue } let mut s = 1usize; egg::Language::for_each(nd, |ch| s = s.saturating_add(cost[ix(ch)])); if s < cost[i] { cost[i] = s } } } }
    for (i, c) in cls.iter().enumerate() { let (k, e) = ex.find_best(*c); check(k == cost[i], "extraction finds the least allowed cost"); if cost[i] != usize::MAX { reach(1); check(!bad(&e), "extraction returns an allowed term if there is one"); check(e.as_ref().len() <= cost[i], "of that size"); check(eg.lookup_expr(&e) == Some(*c), "from the class") } else { reach(0) } }
    for id in &ids { observe(1, cost[ix(*id)] as u64) }
}
