//! P18: schedulers.
use crate::{sym::*, toy::*}; use ruler::{Limits, SynthAnalysis, SynthLanguage, enumo::*};
const POOL: [&str; 10] = ["(f ?a) ==> (k ?a)", "(f (f ?a)) ==> ?a", "(g ?a ?b) ==> (g ?b ?a)", "(g ?a ?a) ==> ?a", "(k ?a) ==> (g ?a 1)", "(g ?a 1) ==> ?a", "(g (f ?a) ?b) ==> (f (g ?a ?b))", "?a ==> (f (f ?a))", "(h ?a ?b ?c) ==> (g (g ?a ?b) ?c)", "(k ?a) ==> 1"];
const SETS: [[&str; 6]; 3] = [["(g (f x) 1)", "(f (g x 1))", "(k x)", "(f (f (g x y)))", "(g y x)", "1"], ["(h x y 1)", "(g (g x y) 1)", "(k (f x))", "(f (k x))", "(g 1 (f x))", "(g x x)"], ["(f (f (f x)))", "(g (k x) (k x))", "(k (k y))", "(h x x x)", "(g x (f y))", "(f (g y x))"]];
struct St { eg: EG, ids: Vec<egg::Id>, rs: RS, ts: [&'static str; 6], pre: Option<(usize, usize)>, ix: Vec<usize> }
fn start(k: u8) -> St {
    init(); let n = 1 + choose("rules", k); let mut ix: Vec<usize> = vec![]; for _ in 0..n { let i = choose("r", 10); if let Some(l) = ix.last() { assume(*l < i) } ix.push(i) } 
    let rs = RS::new(ix.iter().map(|i| POOL[*i])); let ts = SETS[choose("terms", 3)]; let mut eg: EG = Default::default(); let ids: Vec<_> = ts.iter().map(|t| eg.add_expr(&term(t))).collect(); eg.rebuild();
    let pre = match choose("pre", 3) { 0 => None, 1 => Some((0, 3)), _ => Some((2, 5)) }; if let Some((i, j)) = pre { eg.union(ids[i], ids[j]); eg.rebuild(); } St { eg, ids, rs, ts, pre, ix }
}
fn all_ids(eg: &EG) -> Vec<egg::Id> { eg.classes().map(|c| c.id).collect() }
fn lim() -> Limits { let (iter, node, match_) = [(2, 10000, 10000), (1, 10000, 10000), (2, 8, 10000), (2, 10000, 1), (0, 10000, 10000), (2, 10000, 2)][choose("limits", 6)]; Limits { iter, node, match_ } }
fn untouched(s: &St, ids: &[egg::Id], sizes: (usize, usize)) { check(s.eg.number_of_classes() == sizes.0 && s.eg.total_number_of_nodes() == sizes.1, "the input e-graph keeps its classes and nodes"); for i in ids { for j in ids { if i < j { check(s.eg.find(*i) != s.eg.find(*j), "the input e-graph is not merged") } } } check(s.eg.clean, "the input e-graph stays clean") }
/// soundness: whatever is merged holds in every model of the rules (and of what was merged at the start)
fn sound(s: &St, out: &EG) {
    let m = Model::any(&["x", "y"]); let vs: Vec<u8> = s.ts.iter().map(|t| m.value(&term(t))).collect(); let mut ok = m.all(&s.rs); if let Some((i, j)) = s.pre { ok = and(ok, vs[i] == vs[j]) }
    for i in 0..6 { for j in 0..i { if out.find(s.ids[i]) == out.find(s.ids[j]) { reach(0); check(or(not(ok), vs[i] == vs[j]), "terms are merged only if the rules imply it") } } }
}
#[no_mangle] pub extern "C" fn h_sound() {
    let s = start(if cfg!(feature = "thorough") { 3 } else { 2 }); let l = lim(); let ids = all_ids(&s.eg); let sizes = (s.eg.number_of_classes(), s.eg.total_number_of_nodes());
    let k = choose("scheduler", 4); let out = match k { 0 => Scheduler::Simple(l).run(&s.eg, &s.rs), 1 => Scheduler::Saturating(l).run(&s.eg, &s.rs), 2 => Scheduler::Compress(l).run(&s.eg, &s.rs), _ => Scheduler::Saturating(l).run_derive(&s.eg, &s.rs, &rule("(g (f x) 1) ==> (f (g x 1))")) };
    untouched(&s, &ids, sizes); sound(&s, &out); check(out.clean, "the result is rebuilt");
    for i in 0..6 { check(out.lookup_expr(&term(s.ts[i])) == Some(out.find(s.ids[i])), "every term is still where it was") ; for j in 0..i { if s.eg.find(s.ids[i]) == s.eg.find(s.ids[j]) { check(out.find(s.ids[i]) == out.find(s.ids[j]), "what was merged stays merged") } } }
    if k == 2 { check(out.number_of_classes() <= sizes.0 && out.total_number_of_nodes() <= sizes.1, "compressing adds neither classes nor nodes") }
}
#[no_mangle] pub extern "C" fn h_compress() {
    let s = start(if cfg!(feature = "thorough") { 4 } else { 3 }); let l = lim(); let ids = all_ids(&s.eg); let sizes = (s.eg.number_of_classes(), s.eg.total_number_of_nodes());
    let a = Scheduler::Compress(l).run(&s.eg, &s.rs); let b = Scheduler::Simple(l).run(&s.eg, &s.rs); untouched(&s, &ids, sizes);
    check(a.number_of_classes() <= sizes.0 && a.total_number_of_nodes() <= sizes.1, "compressing adds neither classes nor nodes");
    for i in &ids { for j in &ids { if i < j { let m = b.find(*i) == b.find(*j); if m { reach(0) } check((a.find(*i) == a.find(*j)) == m, "compressing merges exactly what the simple scheduler merges") } } } observe(1, ids.len() as u64);
    check(ids.iter().all(|i| a.find(*i) < egg::Id::from(1000)), "ids stay in range");
}
#[no_mangle] pub extern "C" fn h_saturate() {
    let s = start(if cfg!(feature = "thorough") { 4 } else { 3 }); let iter = choose("iter", 3); let l = Limits { iter, node: 10000, match_: 10000 }; let ids = all_ids(&s.eg);
    let a = Scheduler::Saturating(l).run(&s.eg, &s.rs); let b = Scheduler::Simple(l).run(&s.eg, &s.rs);
    for i in &ids { for j in &ids { if i < j && b.find(*i) == b.find(*j) { check(a.find(*i) == a.find(*j), "saturating reaches what the same number of plain rounds reaches") } } }
    // closed under the saturating rules: rules whose right side brings no new subterm below its root
    let sat: Vec<&str> = s.ix.iter().filter(|i| [0, 1, 2, 3, 5, 9].contains(*i) && rule(POOL[**i]).is_saturating()).map(|i| POOL[*i]).collect(); if !sat.is_empty() {
        reach(0); let c = Scheduler::Simple(Limits { iter: 1, node: 100000, match_: 100000 }).run(&a, &RS::new(&sat)); check(c.number_of_classes() == a.number_of_classes() && c.total_number_of_nodes() == a.total_number_of_nodes(), "the result is closed under the saturating rules");
        let p = Scheduler::Simple(Limits { iter: 30, node: 100000, match_: 100000 }).run(&s.eg, &RS::new(&sat)); for i in &ids { for j in &ids { if i < j && p.find(*i) == p.find(*j) { check(a.find(*i) == a.find(*j), "everything the saturating rules imply is merged") } } } }
    observe(1, a.number_of_classes() as u64);
}
