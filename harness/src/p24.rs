//! P24: rule inference end to end.
use crate::{sym::*, toy::*}; use ruler::{enumo::*, recipe_utils::*, *};
type O = Option<u8>;
const BIG: Limits = Limits { iter: 2, node: 10000, match_: 10000 };
const SETS: [[&str; 7]; 3] = [["x", "1", "(f x)", "(k x)", "(f (f x))", "(k (f x))", "0"], ["x", "y", "(g x y)", "(g y x)", "(g x x)", "(f x)", "1"], ["x", "(g x 1)", "(g 1 x)", "(f (g x 1))", "(g (f x) 1)", "(k x)", "(g x x)"]];
/// any samples of x and y, any tables for f and k, one of four for g
fn world(n: usize, partial: bool) {
    let hi = if partial { 3 } else { 2 }; let t = &mut cfg().tab; for x in t.f.iter_mut() { *x = below("F", hi) } for x in t.k.iter_mut() { *x = below("K", hi) } t.g = [[0, 0, 0, 1], [0, 1, 1, 0], [0, 0, 1, 1], [0, 2, 2, 1]][choose("G", if partial { 4 } else { 3 })];
    let xs: Vec<Vec<O>> = if n == 4 { vec![vec![Some(0), Some(0), Some(1), Some(1)], vec![Some(0), Some(1), Some(0), Some(1)]] } else { (0..2).map(|_| (0..n).map(|_| if partial && boolv("undef") { None } else { Some(below("val", 2)) }).collect()).collect() };
    cfg().vars = vec![("x".to_string(), xs[0].clone()), ("y".to_string(), xs[1].clone())];
}
fn ops_of(p: &Pat) -> Vec<String> { p.ast.as_ref().iter().filter_map(|n| if let ENodeOrVar::ENode(n) = n { Some(n.to_string()) } else { None }).collect() }
fn sound(got: &RS, prior: &RS, ts: &[&str]) {
    let words: Vec<String> = ts.iter().flat_map(|t| t.replace('(', " ").replace(')', " ").split_whitespace().map(|x| x.to_string()).collect::<Vec<_>>()).collect();
    for r in got.iter() { check(valid(&r.lhs.to_string(), &r.rhs.to_string()), "only rules the validator accepts are returned"); check(!prior.contains(r), "prior rules are not returned again"); for p in [&r.lhs, &r.rhs] { for o in ops_of(p) { check(words.contains(&o), "rules are over the language of the workload") } } }
}
fn wk(ts: &[&str]) -> Workload { Workload::new(ts.iter().cloned()) }
/// any verdicts
#[no_mangle] pub extern "C" fn h_verdicts() {
    init(); cfg().lazy = true; let ts = if cfg!(feature = "thorough") { &SETS[choose("terms", 3)][..] } else { &SETS[choose("terms", 3)][..4] }; world(1, true); cfg().two = true; cfg().tab.f = [[1, 0], [0, 1], [1, 2]][choose("f", 3)]; cfg().tab.k = [[1, 0], [0, 2]][choose("k", 2)]; let fast = boolv("fast"); let prior = RS::default();
    expect_panic(true); let got = run_workload(wk(ts), prior.clone(), BIG, BIG, fast); expect_panic(false); check(!got.is_empty(), "an empty result is refused"); reach(0); sound(&got, &prior, ts);
}
/// everything valid: terms with equal samples are equal in every model of the prior and learned rules
fn complete(got: &RS, prior: &RS, ts: &[String], n: usize) {
    let m = Model::any(&["x", "y"]); let ok = and(m.all(prior), m.all(got)); let mut eg: EG = Default::default(); Toy::initialize_vars(&mut eg, &["x".to_string(), "y".to_string()]);
    let cv: Vec<CVec<Toy>> = ts.iter().map(|t| { let i = eg.add_expr(&term(t)); eg[i].data.cvec.clone() }).collect(); let vs: Vec<u8> = ts.iter().map(|t| m.value(&term(t))).collect();
    for i in 0..ts.len() { for j in 0..i { let mut out = vec![]; pair_rules(&ts[i], &ts[j], &mut out); if out.is_empty() { continue } let mut same = true; for p in 0..n { same = and(same, cv[i][p].unwrap() == cv[j][p].unwrap()) } if same { reach(1); check(or(not(ok), vs[i] == vs[j]), "terms that agree on every sample are equated by the rules learned and the prior ones") } } }
}
#[no_mangle] pub extern "C" fn h_complete() {
    init(); let s = choose("terms", 3); let ts = &SETS[s]; world(4, false); let fast = boolv("fast"); let g = cfg().tab.g;
    let prior = match choose("prior", 3) { 1 => { if g[1] != g[2] { assume(false) } rules(&["(g ?a ?b) ==> (g ?b ?a)"]) } 2 => { let t = cfg().tab; assume(and(t.f[0] == t.k[0], t.f[1] == t.k[1])); rules(&["(f ?a) ==> (k ?a)", "(k ?a) ==> (f ?a)"]) } _ => RS::default() };
    expect_panic(true); let got = run_workload(wk(ts), prior.clone(), BIG, BIG, fast); expect_panic(false); reach(0); sound(&got, &prior, ts); complete(&got, &prior, &ts.iter().map(|x| x.to_string()).collect::<Vec<_>>(), 4);
}
/// all terms over the language up to the bound
fn all_terms(d: usize, lang: &Lang, atoms: usize) -> Vec<String> {
    let mut v: Vec<String> = vec![]; if d == 0 || atoms == 0 { return v } v.extend(lang.vars.iter().cloned()); v.extend(lang.vals.iter().cloned());
    if d > 1 { for (i, ops) in lang.ops.iter().enumerate() { let mut args: Vec<String> = vec![String::new()]; for _ in 0..=i { let sub = all_terms(d - 1, lang, atoms); args = args.iter().flat_map(|a| sub.iter().map(move |s| format!("{} {}", a, s))).collect() } for o in ops { for a in &args { let t = format!("({}{})", o, a); if size(&t) <= atoms { v.push(t) } } } } } v
}
fn size(t: &str) -> usize { t.split(|c| c == ' ' || c == '(' || c == ')').filter(|x| !x.is_empty()).count() }
const NONE: &[&str] = &[];
fn langs(i: usize) -> Lang { match i { 0 => Lang::new(&["1"], &["x"], &[&["f"], &["g"]]), 1 => Lang::new(&["1"], &["x"], &[&["f", "k"]]), 2 => Lang::new(&[], &["x", "y"], &[&["f"], &["g"], &["h"]]), 3 => Lang::new(&["0", "1"], &["x"], &[&["k"], NONE, &["h"]]), 4 => Lang::new(&["1"], &["x"], &[]), _ => Lang::new(&["1"], &["x"], &[&["f"], NONE, NONE, &["q"]]) } }
#[no_mangle] pub extern "C" fn h_recursive() {
    init(); let i = choose("lang", 6); let lang = langs(i); world(4, false); cfg().lazy = cfg!(feature = "thorough") && (i == 1 || i == 4);
    let prior = if (i == 0 || i == 2) && boolv("prior") { let g = cfg().tab.g; if g[1] != g[2] { assume(false) } rules(&["(g ?a ?b) ==> (g ?b ?a)"]) } else { RS::default() };
    let (met, n) = if i == 2 || i == 3 || i == 5 { (Metric::Depth, 2) } else { [(Metric::Depth, 2), (Metric::Lists, 1), (Metric::Depth, 0), (Metric::Atoms, 3)][choose("bound", 4)] };
    if n > 2 { expect_panic(true) } let got = recursive_rules(met, n, lang.clone(), prior.clone()); if n > 2 { expect_panic(false) }
    if n == 0 { check(got.is_empty(), "nothing below the smallest bound"); return }
    check(prior.iter().all(|r| got.contains(r)), "the prior rules are part of the result"); let mut new = got.clone(); new.remove_all(prior.clone());
    let ts: Vec<String> = match met { Metric::Atoms => all_terms(n, &lang, n), Metric::Lists => all_terms(n + 1, &lang, 100), _ => all_terms(n, &lang, 100) }; let ts: Vec<String> = ts.into_iter().filter(|t| lang.vars.iter().any(|v| t.replace('(', " ").replace(')', " ").split_whitespace().any(|w| w == v))).collect();
    sound(&new, &prior, &ts.iter().map(|x| x.as_str()).collect::<Vec<_>>()); reach(0); if !cfg().lazy { complete(&got, &prior, &ts, 4) }
}
/// fast-forwarding: h is the disallowed operator
const EXPL: [&str; 4] = ["(f ?a) ==> (h ?a ?a 1)", "(k ?a) ==> (h 1 ?a ?a)", "(g ?a ?b) ==> (h ?a ?b ?b)", "(g ?a ?a) ==> (h 1 ?a ?a)"];
const PRIOR: [&str; 4] = ["(h ?a ?b ?c) ==> (h ?c ?b ?a)", "(g ?a ?b) ==> (g ?b ?a)", "(f (f ?a)) ==> ?a", "(h ?a ?a ?b) ==> ?b"];
fn ff(lazy: bool) {
    init(); cfg().lazy = lazy; cfg().ff = true; cfg().allowed[3] = false; let sets: [&[&str]; 3] = [&["(f x)", "(k x)", "(f (f x))", "(h x x 1)"], &["(g x y)", "(g y x)", "(g x x)", "(k x)", "(f y)"], &["(g (f x) 1)", "(f (g x 1))", "(k (k x))", "(g 1 (k x))"]]; let ts = sets[choose("terms", 3)];
    let mut ex: Vec<&str> = vec![]; for e in EXPL { if boolv("expl") { ex.push(e) } } cfg().expl = ex.iter().map(|x| x.to_string()).collect(); let mut pr: Vec<&str> = vec![]; for e in PRIOR { if boolv("prior") { pr.push(e) } } if lazy { assume(pr.len() <= 1 && ex.len() >= 1 && ex.len() <= if cfg!(feature = "thorough") { 4 } else { 2 }) }
    let (prior, expl) = (rules(&pr), rules(&ex)); let got = run_fast_forwarding(wk(ts), prior.clone(), BIG, BIG);
    let m = Model::any(&["x", "y"]); let src = and(m.all(&prior), m.all(&expl));
    for r in got.iter() { reach(0); check(valid(&r.lhs.to_string(), &r.rhs.to_string()), "only rules the validator accepts are returned"); check(!prior.contains(r), "prior rules are not returned again"); for p in [&r.lhs, &r.rhs] { check(!ops_of(p).contains(&"h".to_string()), "no disallowed operator is returned") } check(or(not(src), m.holds(&r.lhs, &r.rhs)), "a rule found by fast-forwarding follows from the prior and exploratory rules") }
    if lazy { return }
    // what all rules together equate is equated by the prior and learned rules
    let allowed: Vec<&str> = pr.iter().filter(|r| !r.contains("(h")).cloned().collect(); let e0 = wk(ts).to_egraph::<Toy>(); let e1 = Scheduler::Compress(BIG).run(&e0, &rules(&allowed)); let e2 = Scheduler::Simple(BIG).run(&e1, &expl); let e3 = Scheduler::Compress(BIG).run(&e2, &prior.union(&expl));
    let ok = and(m.all(&prior), m.all(&got)); let tt: Vec<&&str> = ts.iter().filter(|t| !t.contains("(h")).collect();
    for i in 0..tt.len() { for j in 0..i { let (a, b) = (e3.lookup_expr(&term(tt[i])), e3.lookup_expr(&term(tt[j]))); let mut out = vec![]; pair_rules(tt[i], tt[j], &mut out); if a.is_some() && a == b && !out.is_empty() { reach(1); check(or(not(ok), m.value(&term(tt[i])) == m.value(&term(tt[j]))), "what all rules equate is equated by the prior and learned rules") } } }
}
#[no_mangle] pub extern "C" fn h_forward() { ff(false) }
#[no_mangle] pub extern "C" fn h_forward_verdicts() { ff(true) }
