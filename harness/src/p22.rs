//! P22: minimisation.
use crate::{sym::*, toy::*}; use ruler::{Limits, SynthAnalysis, SynthLanguage, enumo::*};
const POOLS: [[&str; 6]; 3] = [
    ["(f ?a) ==> (k ?a)", "(k ?a) ==> (f ?a)", "(f (f ?a)) ==> (k (k ?a))", "(f (k ?a)) ==> (k (f ?a))", "(f (f ?a)) ==> ?a", "(k (k ?a)) ==> ?a"],
    ["(g ?a ?b) ==> (g ?b ?a)", "(g ?a 1) ==> ?a", "(g 1 ?a) ==> ?a", "?a ==> (g ?a 1)", "(g ?a ?a) ==> (f ?a)", "(f ?a) ==> (g ?a ?a)"],
    ["(g (f ?a) ?b) ==> (f (g ?a ?b))", "(f (g ?a ?b)) ==> (g (f ?a) ?b)", "(g ?b (f ?a)) ==> (f (g ?a ?b))", "(g ?a ?b) ==> (g ?b ?a)", "(h ?a ?b ?c) ==> (g ?a ?b)", "(h ?a ?b ?b) ==> (g ?a ?b)"]];
const PRIOR: [&[&str]; 4] = [&[], &["(f ?a) ==> (k ?a)", "(g ?a ?b) ==> (g ?b ?a)"], &["(k ?a) ==> (f ?a)", "(g ?a 1) ==> ?a", "(f (g ?a ?b)) ==> (g (f ?a) ?b)"], &["(f (f ?a)) ==> ?a", "(h ?a ?b ?c) ==> (g ?a ?b)"]];
fn sched() -> Scheduler { let l = [Limits { iter: 2, node: 10000, match_: 10000 }, Limits { iter: 1, node: 10000, match_: 2 }][choose("limits", 2)]; [Scheduler::Compress(l), Scheduler::Simple(l), Scheduler::Saturating(l)][choose("scheduler", 3)] }
fn run(max: usize, lazy: bool) {
    init(); cfg().lazy = lazy; let pool = POOLS[choose("pool", 3)]; let mut cand: Vec<&str> = vec![]; for p in pool { if boolv("candidate") { cand.push(p) } } assume(!cand.is_empty() && cand.len() <= max); let prior = rules(PRIOR[choose("prior", 4)]);
    let mut cs = rules(&cand); let s = sched(); let (chosen, invalid) = cs.minimize(prior.clone(), s); check(cs.is_empty(), "no candidate is left undecided");
    let (cn, inn) = (names(&chosen), names(&invalid)); let ok = |n: &str| { let (l, r) = n.split_once(" ==> ").unwrap(); valid(l, r) };
    for n in &cn { check(cand.contains(&n.as_str()), "only candidates are chosen"); check(ok(n), "only rules the validator accepts are chosen"); check(!prior.contains(&rule(n)), "prior rules are not chosen again") }
    for n in &inn { check(cand.contains(&n.as_str()), "only candidates are reported invalid"); check(!ok(n), "no rule the validator accepts is reported invalid") }
    // whatever is not returned follows from the prior and chosen rules
    let m = Model::any(&[]); let all = and(m.all(&prior), m.all(&chosen));
    for n in &cand { if !cn.iter().any(|x| x == n) && !inn.iter().any(|x| x == n) { reach(0); let r = rule(n); check(or(not(all), m.holds(&r.lhs, &r.rhs)), "a dropped candidate follows from the prior and chosen rules") } }
    if !cn.is_empty() { reach(1) } if !inn.is_empty() { reach(2) } observe(1, cand.len() as u64);
}
/// any verdict for every rule
#[no_mangle] pub extern "C" fn h_verdicts() { run(if cfg!(feature = "thorough") { 5 } else { 4 }, true) }
/// everything valid: more candidates
#[no_mangle] pub extern "C" fn h_valid() { run(6, false) }
