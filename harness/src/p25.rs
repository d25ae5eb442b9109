//! P25: the result log.
use crate::{sym::*, toy::*}; use ruler::{enumo::*, logger::*, *}; use serde_json::{json, Value}; use std::time::Duration;
const FILE: &str = "nightly/data/output.json";
const POOL: [&str; 5] = ["(f ?a) ==> (k ?a)", "(f (f ?a)) ==> ?a", "(g ?a ?b) ==> (g ?b ?a)", "(g ?a 1) ==> ?a", "(k ?a) ==> (f ?a)"];
fn rows() -> Vec<Value> { let s = std::fs::read_to_string(FILE).unwrap(); match serde_json::from_str(&s) { Ok(v) => v, Err(_) => { fail("the log is a JSON array"); vec![] } } }
/// an earlier log: missing, empty, or up to three rows of any of these kinds
fn earlier() -> Vec<Value> {
    let n = choose("rows", if cfg!(feature = "thorough") { 6 } else { 5 }); if n == 0 { return vec![] } std::fs::create_dir_all("nightly/data").unwrap(); if n == 1 { std::fs::write(FILE, "").unwrap(); return vec![] }
    let mut v = vec![]; let mut sym = true; for _ in 2..n { v.push(match choose("row", 5) { 0 => json!({"TYPE": "bv", "rules": ["a \"quoted\" ==> \\ b\n"], "time": 1.5}), 1 => json!({}), 2 => json!({"n": 300, "deep": {"er": [[], {"x": null}]}}), 3 => json!({"TYPE": "baseline", "zz": 1, "aa": false, "s": if sym { sym = false; ["a", "\"", "\\", "\n", "\u{1}"][choose("s", 5)].to_string() } else { "c".to_string() }}), _ => json!({"time": -0.25, "big": 123456789012345u64}) }) }
    std::fs::write(FILE, if boolv("pretty") { serde_json::to_string_pretty(&v).unwrap() } else { serde_json::to_string(&v).unwrap() }).unwrap(); v
}
fn some(n: &str) -> RS { few(n, 5) }
fn few(n: &str, k: usize) -> RS { let mut v = vec![]; for p in &POOL[..k] { if boolv(n) { v.push(*p) } } rules(&v) }
fn strs(v: &Value) -> Vec<String> { match v.as_array() { Some(a) => a.iter().map(|x| x.as_str().unwrap_or("?").to_string()).collect(), None => vec!["missing".into()] } }
fn split(v: &Value, by: &RS, on: &RS, d: DeriveType, msg: &str) { let (c, n) = by.derive(d, on, Limits::deriving()); check(same_list(&strs(&v["can"]), &names(&c)) && same_list(&strs(&v["cannot"]), &names(&n)), msg); check(v["time"].is_number(), "a time is logged") }
fn same_list(a: &[String], b: &[String]) -> bool { a.len() == b.len() && same_set(a, b) }
fn appended(old: &[Value]) -> Value { let new = rows(); check(new.len() == old.len() + 1, "exactly one row is appended"); for (a, b) in old.iter().zip(&new) { check(a == b, "earlier rows are kept unchanged and in order") } new.last().cloned().unwrap_or(Value::Null) }
fn ff(a: &RS, b: &RS, t: u64) { let l = Limits { iter: 1, node: 10, match_: 10 }; write_ff_phase(Phase { rules: a.clone(), rules_name: "first".into(), scheduler: Scheduler::Simple(l) }, Phase { rules: b.clone(), rules_name: "second rules".into(), scheduler: Scheduler::Saturating(l) }, Phase { rules: a.clone(), rules_name: "3".into(), scheduler: Scheduler::Compress(l) }, Duration::from_millis(t), b) }
fn check_ff(r: &Value, b: &RS, t: f64) { check(r["TYPE"] == "ff_phases" && r["phase1"] == "eqsat (first)" && r["phase2"] == "sat (second rules)" && r["phase3"] == "compress (3)", "the row names its phases"); check(strs(&r["rules"]) == names(b), "the row lists the rules it was given"); check(r["time"].as_f64() == Some(t), "the row has the time it was given") }
#[no_mangle] pub extern "C" fn h_append() {
    init(); let old = earlier(); let (a, b) = (rules(&POOL[..1]), some("b")); ff(&a, &b, 1500); let r = appended(&old); check_ff(&r, &b, 1.5);
    let old = rows(); ff(&b, &a, 250); let r = appended(&old); check_ff(&r, &a, 0.25); observe(1, old.len() as u64);
}
#[no_mangle] pub extern "C" fn h_bv() {
    init(); cfg().lazy = true; cfg().two = !cfg!(feature = "thorough"); let old = earlier_small(); let (gen, ported) = (few("gen", if cfg!(feature = "thorough") { 5 } else { 3 }), some("ported")); write_bv_derivability("bv8", gen.clone(), Duration::from_secs(3), ported.clone()); let r = appended(&old);
    let mut ok: Vec<&str> = vec![]; for p in POOL { if ported.contains(&rule(p)) { let (l, q) = p.split_once(" ==> ").unwrap(); if valid(l, q) { ok.push(p) } } } let sound = rules(&ok);
    check(r["TYPE"] == "bv" && r["domain"] == "bv8", "the row names its domain"); check(strs(&r["direct_gen"]["rules"]) == names(&gen) && r["direct_gen"]["time"].as_f64() == Some(3.0), "the generated rules are listed"); check(same_list(&strs(&r["from_bv4"]["rules"]), &names(&sound)), "the ported rules listed are those the validator accepts");
    split(&r["derivability"]["lhs"], &sound, &gen, DeriveType::Lhs, "left-side derivability of the generated rules from the sound ported rules"); split(&r["derivability"]["lhs_rhs"], &sound, &gen, DeriveType::LhsAndRhs, "two-sided derivability of the generated rules from the sound ported rules"); observe(1, gen.len() as u64); if sound.len() > 0 { reach(0) }
}
fn earlier_small() -> Vec<Value> { if boolv("old") { std::fs::create_dir_all("nightly/data").unwrap(); let v = vec![json!({"TYPE": "bv", "time": 0.5}), json!({"x": ["y"]})]; std::fs::write(FILE, serde_json::to_string(&v).unwrap()).unwrap(); v } else { vec![] } }
#[no_mangle] pub extern "C" fn h_baseline() {
    init(); let old = earlier_small(); let (a, b) = (some("a"), few("b", if cfg!(feature = "thorough") { 5 } else { 4 })); let (n, m) = [("spec", "base"), ("herbie", "rational_best"), ("rational_replicate", "herbie"), ("herbie", "herbie"), ("rational_best", "rational_replicate")][choose("names", 5)];
    write_baseline(&a, n, &b, m, Duration::from_millis(125)); let r = appended(&old);
    check(r["TYPE"] == "baseline" && r["spec_name"] == n && r["baseline_name"] == m, "the row has its names"); check(strs(&r["rules"]) == names(&a), "the row lists the rules it was given"); check(r["time"].as_f64() == Some(0.125), "the row has the time it was given");
    let skip = |x: &str, y: &str| x == "herbie" && (y == "rational_best" || y == "rational_replicate"); let d = &r["derivability"]; let (e, f) = (&d["enumo_derives_baseline"], &d["baseline_derives_enumo"]);
    if skip(n, m) { reach(0); check(*e == json!({}), "skipped pairs have no derivability") } else { reach(1); split(&e["lhs"], &a, &b, DeriveType::Lhs, "the rules against the baseline, left side"); split(&e["lhs_rhs"], &a, &b, DeriveType::LhsAndRhs, "the rules against the baseline, both sides") }
    if skip(m, n) { check(*f == json!({}), "skipped pairs have no derivability") } else { split(&f["lhs"], &b, &a, DeriveType::Lhs, "the baseline against the rules, left side"); split(&f["lhs_rhs"], &b, &a, DeriveType::LhsAndRhs, "the baseline against the rules, both sides") }
    observe(1, a.len() as u64);
}
