//! P12: rulesets as ordered sets.
use crate::{h::*, sym::*, toy::*}; use ruler::enumo::*;
const POOL: [&str; 6] = ["(f ?a) ==> ?a", "?a ==> (f ?a)", "(g ?a ?b) ==> (g ?b ?a)", "(g ?b ?a) ==> (g ?a ?b)", "(k ?a) ==> 0", "(f ?b) ==> ?b"];
const REV: [Option<usize>; 6] = [Some(1), Some(0), Some(3), Some(2), None, None];
fn any(n: &str, max: u8) -> Vec<usize> { let k = choose("len", max + 1); (0..k).map(|_| choose(n, 6)).collect() }
fn dedup(v: &[usize]) -> Vec<usize> { let mut o: Vec<usize> = vec![]; for x in v { if !o.contains(x) { o.push(*x) } } o }
fn mk(v: &[usize]) -> RS { RS::new(v.iter().map(|i| POOL[*i])) }
fn is(rs: &RS, want: &[usize], msg: &str) { check(rs.len() == want.len() && rs.is_empty() == want.is_empty(), msg); check(want.iter().all(|i| rs.contains(&rule(POOL[*i]))), msg); check(rs.iter().all(|r| want.iter().any(|i| POOL[*i] == &*r.name)), msg); for (k, r) in &rs.0 { check(**k == *r.name && r.to_string() == &*r.name, "every rule is kept under its own text") } }
fn ordered(rs: &RS, want: &[usize], msg: &str) { is(rs, want, msg); for (r, i) in rs.iter().zip(want) { check(POOL[*i] == &*r.name, msg) } }
#[no_mangle] pub extern "C" fn h_ops() {
    init(); let m = if cfg!(feature = "thorough") { 4 } else { 3 };
    let (a, b) = (any("a", m), any("b", 3)); let (da, db) = (dedup(&a), dedup(&b)); let (ra, rb) = (mk(&a), mk(&b));
    ordered(&ra, &da, "a ruleset lists its rules once, in order");
    let mut un = da.clone(); un.extend(db.iter().filter(|x| !da.contains(x))); let mi: Vec<usize> = da.iter().filter(|x| !db.contains(x)).cloned().collect();
    match choose("op", 6) {
        0 => { ordered(&ra.union(&rb), &un, "union"); ordered(&ra, &da, "union leaves its argument alone") }
        1 => { let mut x = ra.clone(); x.extend(rb.clone()); ordered(&x, &un, "extend") }
        2 => { let mut x = ra.clone(); x.add_all(rb.iter().collect()); ordered(&x, &un, "add_all") }
        3 => { let mut x = ra.clone(); x.remove_all(rb.clone()); is(&x, &mi, "remove_all removes exactly the named rules"); let mut y = x.clone(); y.extend(rb.clone()); let mut w = mi.clone(); w.extend(&db); is(&y, &w, "adding back after removal") }
        4 => { check((ra == rb) == (da == db), "equality is equality of the lists of rules"); check(ra == ra.clone(), "equality is reflexive") }
        _ => { let mut x = ra.clone(); for i in &b { x.add(rule(POOL[*i])) } ordered(&x, &un, "add") ; for i in 0..6 { check(x.contains(&rule(POOL[i])) == un.contains(&i), "contains") } }
    }
    observe(1, un.len() as u64);
}
#[no_mangle] pub extern "C" fn h_partition() {
    init(); let a = any("a", 4); let da = dedup(&a); let ra = mk(&a); let p: Vec<bool> = (0..6).map(|_| u8v("p") & 1 == 1).collect();
    let (y, n) = ra.partition(|r| p[POOL.iter().position(|x| *x == &*r.name).unwrap()]);
    let wy: Vec<usize> = da.iter().filter(|i| p[**i]).cloned().collect(); let wn: Vec<usize> = da.iter().filter(|i| !p[**i]).cloned().collect();
    is(&y, &wy, "the first part is the rules satisfying the predicate"); is(&n, &wn, "the second part is the others"); ordered(&ra, &da, "partition leaves the ruleset alone"); observe(1, wy.len() as u64);
}
#[no_mangle] pub extern "C" fn h_bidir() {
    let a = any("a", 5); let da = dedup(&a); let ra = mk(&a); let pairs = da.iter().filter(|i| REV[**i].map_or(false, |j| da.contains(&j) && **i < j)).count();
    check(ra.bidir_len() == da.len() - pairs, "a rule and its reverse count once"); observe(1, pairs as u64); if pairs > 0 { reach(0) } else { reach(1) }
}
