//! P11: rules and rulesets as text.
use crate::{h::*, sym::*, toy::*}; use ruler::enumo::*;
/// text of any pattern over the language, at most `left` further nodes
fn pt(left: &mut usize, out: &mut String, sp: bool) {
    let k = choose("shape", 3 + (*left).min(3) as u8);
    match k { 0 => { out.push('?'); out.push_str(&str1("v", b"xyz")) } 1 => out.push_str(&str1("n", b"0123456789")), 2 => out.push_str(&str1("c", b"ab")), k => { let n = k - 2; *left -= n; let op = if n == 1 { ["f", "k"][choose("uop", 2)] } else if n == 2 { "g" } else { "h" }; out.push('('); out.push_str(op); for _ in 0..n { out.push_str(if sp { "  " } else { " " }); pt(left, out, sp) } out.push(')') } }
}
fn side(n: usize) -> String { let mut s = String::new(); pt(&mut { n }, &mut s, false); s }
fn closed(l: &str, r: &str) -> bool { let v = pvars(l); pvars(r).iter().all(|x| v.contains(x)) }
/// applied to its own left side (variables taken as themselves) a rule yields its right side
fn applies(x: &RL, l: &str, r: &str) {
    let (l, r) = (l.replace('?', ""), r.replace('?', "")); let mut eg: EG = Default::default(); let id = eg.add_expr(&term(&l)); eg.rebuild(); let ms = x.rewrite.search(&eg); x.rewrite.apply(&mut eg, &ms); eg.rebuild();
    check(eg.lookup_expr(&term(&r)) == Some(eg.find(id)), "the rewrite of a rule takes its left side to its right side");
}
/// any rule and arrow
#[no_mangle] pub extern "C" fn h_rule() {
    let n = if cfg!(feature = "thorough") { 4 } else { 3 };
    let (l, r) = (side(n), side(n)); let arrow = ["=>", "==>", "<=>"][choose("arrow", 3)]; 
    if !closed(&l, &r) || (arrow == "<=>" && !closed(&r, &l)) { assume(false) }
    let pad = ["", " "][choose("pad", 2)];
    match RL::from_string(&format!("{}{} {} {}{}", pad, l, arrow, r, pad)) {
        Err(_) => fail("a well-formed rule is refused"),
        Ok((f, b)) => {
            check(f.lhs.to_string() == l && f.rhs.to_string() == r, "the sides are the two terms written"); check(f.name.to_string() == format!("{} ==> {}", l, r), "the name is lhs ==> rhs"); check(f.to_string() == format!("{} ==> {}", l, r), "a rule prints as lhs ==> rhs");
            check(f.rewrite.name.to_string() == f.name.to_string(), "the rewrite carries the same name"); applies(&f, &l, &r); check(f.lhs == pat(&l) && f.rhs == pat(&r), "sides as patterns");
            check(b.is_some() == (arrow == "<=>"), "a reverse rule exactly for the bidirectional arrow");
            if let Some(b) = b { check(b.lhs.to_string() == r && b.rhs.to_string() == l && b.name.to_string() == format!("{} ==> {}", r, l), "the reverse swaps the sides"); check(b.rewrite.name.to_string() == b.name.to_string(), "the rewrite of the reverse carries its name"); applies(&b, &r, &l) }
            let g = RL::from_string(&f.name).unwrap().0; check(g.lhs == f.lhs && g.rhs == f.rhs && g.name == f.name, "the name of a rule parses to the rule");
            let n = RL::new(&f.lhs, &f.rhs).unwrap(); check(n.name == f.name && n.lhs == f.lhs && n.rhs == f.rhs, "building a rule from its sides gives the same rule"); applies(&n, &l, &r);
        }
    }
}
/// building a rule is refused exactly when the right side has a variable the left lacks
#[no_mangle] pub extern "C" fn h_new() {
    let (l, r) = (side(3), side(3)); let got = RL::new(&pat(&l), &pat(&r)); check(got.is_some() == closed(&l, &r), "a rule exists iff its right side has no new variables"); if got.is_some() { reach(0) } else { reach(1) }
}
/// strings without an arrow are errors
#[no_mangle] pub extern "C" fn h_bad() {
    let n = choose("len", if cfg!(feature = "thorough") { 7 } else { 5 }); let s: Vec<u8> = (0..n).map(|_| byte("c", b"a?=>( ")).collect();
    for i in 1..n { if !or(s[i - 1] != b'=', s[i] != b'>') { assume(false) } }
    let t = unsafe { std::str::from_utf8_unchecked(&s) }; check(RL::from_string(t).is_err(), "a string without an arrow is not a rule"); check(RS::new([t]).is_empty(), "a ruleset skips it");
}
/// rulesets keep the order and drop repetitions; files give them back
#[no_mangle] pub extern "C" fn h_file() {
    let n = choose("rules", 4); let mut want: Vec<String> = vec![]; let mut texts = vec![];
    for _ in 0..n {
        let v = str1("v", b"xyz"); let d = str1("d", b"0123456789");
        let (l, r) = match choose("rule", 5) { 0 => (format!("(f ?{})", v), format!("?{}", v)), 1 => (format!("(g ?{} ?w)", v), format!("(g ?w ?{})", v)), 2 => (format!("(g ?{} {})", v, d), format!("(h ?{} {} a)", v, d)), 3 => ("a".to_string(), d.clone()), _ => (format!("(g ?{} (k ?{}))", v, v), format!("(k ?{})", v)) };
        let bi = boolv("bi"); texts.push(format!("{} {} {}", l, if bi { "<=>" } else { "==>" }, r));
        for x in [Some(format!("{} ==> {}", l, r)), if bi { Some(format!("{} ==> {}", r, l)) } else { None }].into_iter().flatten() { if !want.iter().any(|y| *y == x) { want.push(x) } }
    }
    let rs = RS::new(&texts); check(names(&rs) == want, "a ruleset lists its rules in the order given, once each"); check(rs.to_str_vec() == want, "the text form lists the names");
    rs.to_file("r.rules"); let back = RS::from_file("r.rules"); check(back == rs, "a ruleset read back equals the one written"); check(names(&back) == want, "rule for rule and in order");
    for (x, y) in rs.iter().zip(back.iter()) { check(x.lhs == y.lhs && x.rhs == y.rhs, "sides survive") }
    for (k, r) in &rs { check(**k == *r.name, "keys are names") }
    RS::new(["(f ?q) ==> ?q"]).to_file("r.rules"); check(RS::from_file("r.rules").len() == 1, "writing a file replaces it");
    observe(1, want.len() as u64);
}
