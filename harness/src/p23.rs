//! P23: derivability.
use crate::{sym::*, toy::*}; use ruler::{DeriveType, Limits, SynthAnalysis, SynthLanguage, enumo::*};
const POOL: [&str; 9] = ["(f ?a) ==> (k ?a)", "(f (f ?a)) ==> ?a", "(g ?a ?b) ==> (g ?b ?a)", "(g ?a 1) ==> ?a", "?a ==> (g ?a 1)", "(g (f ?a) ?b) ==> (f (g ?a ?b))", "(h ?a ?b ?c) ==> (g (g ?a ?b) ?c)", "(k ?a) ==> (g ?a ?a)", "(g ?a ?a) ==> 1"];
const TARGETS: [&str; 16] = ["(f ?a) ==> (k ?a)", "(k ?x) ==> (f ?x)", "(f (f ?b)) ==> ?b", "(g ?b ?a) ==> (g ?a ?b)", "(g 1 ?a) ==> ?a", "(k (f ?a)) ==> ?a", "(g ?b (f ?a)) ==> (f (g ?a ?b))", "(h ?a ?b 1) ==> (g ?a ?b)", "?a ==> (g 1 ?a)", "(f ?a) ==> (g ?a ?a)", "(k ?a) ==> 1", "(f ?a) ==> ?a", "(g ?a ?b) ==> (g ?a ?c)", "(g ?a ?b) ==> ?a", "(h ?a ?a ?b) ==> (h ?a ?b ?a)", "(g (g ?a 1) ?b) ==> (g ?b ?a)"];
fn some(k: u8) -> Vec<usize> { let n = choose("rules", k + 1); let mut ix: Vec<usize> = vec![]; for _ in 0..n { let i = choose("r", 9); if let Some(l) = ix.last() { assume(*l < i) } ix.push(i) } ix }
fn alpha(l: &str) -> String { let (a, b) = l.split_once(" ==> ").unwrap(); canon_rule(a, b) }
fn targets() -> Vec<&'static str> { TARGETS.iter().filter(|t| t.split_once(" ==> ").map_or(false, |(l, r)| pvars(r).iter().all(|v| pvars(l).contains(v)))).cloned().collect() }
#[no_mangle] pub extern "C" fn h_derive() {
    init(); let ix = some(if cfg!(feature = "thorough") { 3 } else { 2 }); let rs = RS::new(ix.iter().map(|i| POOL[*i])); let ts = targets(); let t = ts[choose("target", ts.len() as u8)]; let r = rule(t);
    let l = [Limits { iter: 2, node: 10000, match_: 10000 }, Limits { iter: 1, node: 10000, match_: 10000 }, Limits { iter: 3, node: 10, match_: 10000 }, Limits { iter: 2, node: 10000, match_: 1 }][choose("limits", 4)];
    let both = rs.can_derive(DeriveType::LhsAndRhs, &r, l); let left = rs.can_derive(DeriveType::Lhs, &r, l);
    let m = Model::any(&[]); let ok = m.all(&rs); let h = m.holds(&r.lhs, &r.rhs); if both { reach(0); check(or(not(ok), h), "a derivable rule holds in every model of the ruleset") } if left { reach(1); check(or(not(ok), h), "a rule derivable from its left side holds in every model of the ruleset") }
    if l.node > 1000 && l.match_ > 1 { check(both || !left, "deriving from the left side alone succeeds only where both sides do"); if ix.iter().any(|i| alpha(POOL[*i]) == alpha(t)) { reach(2); check(both && left, "a rule of the ruleset is derivable") } }
    if !both { reach(3) } observe(1, l.iter as u64);
}
/// splitting a ruleset
#[no_mangle] pub extern "C" fn h_split() {
    init(); let ix = some(2); let rs = RS::new(ix.iter().map(|i| POOL[*i])); let ts = targets(); let k = ts.len() as u8; let n = choose("targets", if cfg!(feature = "thorough") { 4 } else { 3 }); let mut at: Vec<&str> = vec![]; for _ in 0..n { at.push(ts[choose("t", k)]) } for w in 1..n { assume(at[w - 1] != at[w]) }
    let against = rules(&at); let l = Limits { iter: 2, node: 10000, match_: 10000 }; let lhs = boolv("lhs"); let d = || if lhs { DeriveType::Lhs } else { DeriveType::LhsAndRhs }; let (can, cannot) = rs.derive(d(), &against, l);
    check(can.len() + cannot.len() == against.len(), "nothing is lost or duplicated"); for r in against.iter() { let y = rs.can_derive(d(), r, l); check(can.contains(r) == y && cannot.contains(r) == !y, "the split is by derivability") } for r in can.iter().chain(cannot.iter()) { check(against.contains(r), "nothing is invented") } observe(1, can.len() as u64); if can.is_empty() { reach(0) } else { reach(1) }
}
