//! P21: candidates from merges.
use crate::{sym::*, toy::*}; use ruler::{SynthAnalysis, SynthLanguage, enumo::*};
fn run(pool: &[&str], pre: &[(usize, usize)], k: u8, ops: &[usize]) {
    for i in ops { cfg().allowed[*i] = boolv("allowed") }
    let mut a: EG = Default::default(); let ids: Vec<_> = pool.iter().map(|t| a.add_expr(&term(t))).collect(); if boolv("pre") { for (i, j) in pre { a.union(ids[*i], ids[*j]); } } a.rebuild();
    let mut b = a.clone(); let n = choose("unions", k + 1); for _ in 0..n { let i = choose("i", pool.len() as u8); let j = choose("j", pool.len() as u8); assume(i < j); b.union(ids[i], ids[j]); } b.rebuild();
    if boolv("grow") { b.add_expr(&term("(f (f (f y)))")); b.rebuild(); }
    // reference: the smallest allowed term of each class of the first e-graph
    let cls: Vec<_> = a.classes().map(|c| c.id).collect(); let mut best: Vec<Option<(usize, String)>> = vec![None; cls.len()]; let ix = |id: egg::Id| cls.iter().position(|c| *c == a.find(id)).unwrap();
    for _ in 0..=cls.len() { for (i, c) in cls.iter().enumerate() { for nd in &a[*c].nodes { if !cfg().allowed[opix(nd)] { continue } let mut s = 1usize; let mut t = nd.to_string(); let mut ok = true; egg::Language::for_each(nd, |ch| match &best[ix(ch)] { Some((n, x)) => { s += n; t.push(' '); t.push_str(x) } None => ok = false }); if !ok { continue } if s > 1 { t = format!("({})", t) } if best[i].as_ref().map_or(true, |x| s < x.0) { best[i] = Some((s, t)) } } } }
    let mut want = vec![]; for i in 0..cls.len() { for j in 0..i { if b.find(cls[i]) == b.find(cls[j]) { if let (Some(x), Some(y)) = (&best[i], &best[j]) { pair_rules(&x.1, &y.1, &mut want) } } } }
    let got = RS::extract_candidates(&a, &b); let g = canon_all(&got);
    check(g.iter().all(|x| want.contains(x)), "only newly merged pairs of smallest allowed terms are proposed"); check(want.iter().all(|x| g.contains(x)), "every newly merged pair is proposed in each legal direction"); if want.is_empty() { reach(0) } else { reach(1) } observe(1, want.len() as u64);
    for r in got.iter() { for p in [&r.lhs, &r.rhs] { for n in p.ast.as_ref() { if let egg::ENodeOrVar::ENode(n) = n { check(cfg().allowed[opix(n)], "no disallowed operator is proposed") } } } }
}
#[no_mangle] pub extern "C" fn h_small() { run(&["x", "1", "(f x)", "(k x)", "(g x y)", "(g y x)"], &[(2, 5)], if cfg!(feature = "thorough") { 3 } else { 2 }, &[0, 1, 2, 4]) }
#[no_mangle] pub extern "C" fn h_deep() { run(&["x", "(f (k x))", "(g (k x) y)", "(k (k (k x)))", "(f (g x y))", "1", "(f y)"], &[(1, 6), (2, 0)], if cfg!(feature = "thorough") { 2 } else { 2 }, &[0, 1, 2]) }
