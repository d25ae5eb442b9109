//! P13: generalisation.
use crate::{h::*, sym::*, toy::*}; use ruler::{SynthLanguage, enumo::*};
fn tm(left: &mut usize, vars: &[&str]) -> String {
    let k = choose("shape", 2 + (*left).min(3) as u8);
    if k == 0 { return vars[choose("v", vars.len() as u8)].to_string() } if k == 1 { return str1("n", b"0123456789") }
    let n = k - 1; *left -= n; let mut s = format!("({}", ["f", "g", "h"][n - 1]); for _ in 0..n { s.push(' '); s.push_str(&tm(left, vars)) } s.push(')'); s
}
fn toks(s: &str) -> Vec<String> { s.replace('(', " ( ").replace(')', " ) ").split_whitespace().map(|x| x.to_string()).collect() }
fn isv(t: &str, vars: &[&str]) -> bool { vars.contains(&t) }
#[no_mangle] pub extern "C" fn h_pair() {
    // names that look like the ones generalisation invents, and others
    let sets: [[&str; 4]; 3] = [["a", "b", "c", "d"], ["d", "c", "b", "a"], ["x", "b", "foo", "a"]]; let vars = sets[choose("names", 3)]; let n = if cfg!(feature = "thorough") { 4 } else { 3 };
    let (l, r) = (tm(&mut { n }, &vars), tm(&mut { n }, &vars)); let (le, re) = (term(&l), term(&r));
    let mut map = ruler::HashMap::default(); let lp = Toy::generalize(&le, &mut map); let rp = Toy::generalize(&re, &mut map);
    let (a, b) = (toks(&format!("{} {}", l, r)), toks(&format!("{} {}", lp, rp))); check(a.len() == b.len(), "structure is unchanged"); if a.len() != b.len() { return }
    let mut seen: Vec<(String, String)> = vec![];
    for (x, y) in a.iter().zip(&b) {
        if isv(x, &vars) { check(y.starts_with('?'), "a variable becomes a pattern variable"); match seen.iter().find(|p| p.0 == *x) { Some(p) => check(p.1 == *y, "one variable, one pattern variable, on both sides"), None => { check(seen.iter().all(|p| p.1 != *y), "distinct variables stay distinct"); seen.push((x.clone(), y.clone())) } } }
        else { check(x == y, "everything else is unchanged") }
    }
    for (x, y) in &seen { check(map.get(&egg::Symbol::from(x.as_str())).map_or(false, |v| v.to_string() == *y), "the map records the renaming") } check(map.len() == seen.len(), "the map records nothing else");
    // instantiating gives the term back up to the renaming
    for (p, t) in [(&lp, &l), (&rp, &r)] { let i = toks(&Toy::instantiate(p).to_string()); let o = toks(t); check(i.len() == o.len() && i.iter().zip(&o).all(|(x, y)| match seen.iter().find(|p| p.0 == *y) { Some(q) if isv(y, &vars) => q.1[1..] == **x, _ => x == y }), "instantiating a pattern gives the term back up to the renaming") }
    observe(1, seen.len() as u64);
}
/// many variables at once
#[no_mangle] pub extern "C" fn h_many() {
    let n = 1 + choose("n", 26); let names: Vec<String> = (0..n).map(|i| format!("v{}", (i * 7) % 26)).collect(); let mut s = names[0].clone(); for v in &names[1..] { s = format!("(g {} {})", s, v) }
    let e = term(&s); let mut map = ruler::HashMap::default(); let p = Toy::generalize(&e, &mut map); check(map.len() == n && p.vars().len() == n, "as many pattern variables as variables"); 
    let mut seen: Vec<String> = map.values().map(|v| v.to_string()).collect(); seen.sort(); seen.dedup(); check(seen.len() == n, "all distinct"); observe(1, n as u64);
}
