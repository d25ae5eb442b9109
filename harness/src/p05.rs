//! P05: s-expressions and workloads survive text and files.
use crate::{h::*, sym::*}; use ruler::enumo::*;
// any printable character except space, parentheses and the quote, which start other syntax
fn token(max: u8) -> String { let n = 1 + choose("toklen", max); let mut s = vec![]; for i in 0..n { let b = u8v("t"); assume(and(and(b > 32, b < 127), and(b != b'(', b != b')'))); if i == 0 { assume(b != b'"') } s.push(b) } unsafe { String::from_utf8_unchecked(s) } }
fn term(left: &mut usize, maxlen: usize) -> Sexp { let m = (*left).min(maxlen); let k = choose("shape", 2 + m as u8); if k == 0 { return Sexp::Atom(token(2)) } *left -= k - 1; Sexp::List((1..k).map(|_| term(left, maxlen)).collect()) }
#[no_mangle] pub extern "C" fn h_text() {
    let t = term(&mut if cfg!(feature = "thorough") { 5 } else { 4 }, 3);
    let s = t.to_string(); observe_bytes(1, s.as_bytes());
    match s.parse::<Sexp>() { Ok(u) => check(seq(&t, &u), "parsing a printed term gives it back"), Err(_) => fail("a printed term does not parse") }
    check(t == t.clone(), "equality is reflexive");
    let w = Workload::new([&s]).force(); check(w.len() == 1 && seq(&w[0], &t), "a workload made from text holds the term");
}
/// spacing does not matter
#[no_mangle] pub extern "C" fn h_space() {
    let sp = |n: &str| -> String { " ".repeat(choose(n, 3)) };
    let (a, b, c) = (str1("a", b"+xyz01"), str1("b", b"+xyz01"), str1("c", b"+xyz01"));
    let s = format!("{}({}{} {}{}({}{}{}){})", sp("s0"), sp("s1"), a, sp("s2"), b, sp("s3"), c, sp("s4"), sp("s5"));
    let want = Sexp::List(vec![Sexp::Atom(a), Sexp::Atom(b), Sexp::List(vec![Sexp::Atom(c)])]);
    check(seq(&s.parse::<Sexp>().unwrap(), &want), "spacing is insignificant");
    check(s.parse::<Pattern>().unwrap() == Pattern::List(vec![lit(&want, 0), lit(&want, 1), Pattern::List(vec![lit2(&want)])]), "patterns parse like terms");
}
fn lit(t: &Sexp, i: usize) -> Pattern { match t { Sexp::List(l) => match &l[i] { Sexp::Atom(a) => Pattern::Lit(a.clone()), Sexp::List(l) => match &l[0] { Sexp::Atom(a) => Pattern::Lit(a.clone()), _ => unreachable!() } }, _ => unreachable!() } }
fn lit2(t: &Sexp) -> Pattern { lit(t, 2) }
/// patterns: "*" is the wildcard, "?.." a variable, anything else a literal
#[no_mangle] pub extern "C" fn h_pattern() {
    let x = token(2); let y = token(1); let s = format!("({} ({} {}))", x, y, x);
    let w = |t: &String| if t == "*" { Pattern::Wild } else if t.as_bytes()[0] == b'?' { Pattern::Var(t.clone()) } else { Pattern::Lit(t.clone()) };
    let want = Pattern::List(vec![w(&x), Pattern::List(vec![w(&y), w(&x)])]);
    check(s.parse::<Pattern>().unwrap() == want, "pattern syntax");
}
#[no_mangle] pub extern "C" fn h_file() {
    let n = choose("terms", 4); let ts: Vec<Sexp> = (0..n).map(|_| term(&mut (if cfg!(feature = "thorough") { 4 } else { 2 }), 2)).collect();
    let w = Workload::Set(ts.clone()); let w = match choose("form", 3) { 0 => w, 1 => Workload::Append(vec![w, Workload::new(["q"])]), _ => w.filter(Filter::MetricLt(Metric::Atoms, 3)) };
    let want = w.force(); w.to_file("w.terms"); 
    let r = Workload::from_file("w.terms").force();
    check(r.len() == want.len(), "a file keeps every term once"); for i in 0..r.len() { check(seq(&r[i], &want[i]), "a file keeps the terms in order") }
    // an older, longer file is replaced
    Workload::new(["z"]).to_file("w.terms"); let r = Workload::from_file("w.terms").force(); check(r.len() == 1 && r[0].to_string() == "z", "writing a file replaces it");
    observe(1, want.len() as u64);
}
