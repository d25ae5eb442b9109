//! P14: scores and the saturating classification.
use crate::{h::*, sym::*, toy::*}; use ruler::{*, enumo::*};
fn pt(left: &mut usize) -> String {
    let k = choose("shape", 2 + (*left).min(3) as u8);
    if k == 0 { return ["?a", "?b", "?c"][choose("v", 3)].to_string() } if k == 1 { return ["0", "1"][choose("n", 2)].to_string() }
    let n = k - 1; *left -= n; let mut s = format!("({}", if n == 1 { ["f", "k"][choose("u", 2)] } else { ["g", "h"][n - 2] }); for _ in 0..n { s.push(' '); s.push_str(&pt(left)) } s.push(')'); s
}
fn tk(s: &str) -> Vec<String> { s.replace('(', " ( ").replace(')', " ) ").split_whitespace().map(|x| x.to_string()).collect() }
fn size(s: &str) -> i32 { tk(s).iter().filter(|x| *x != "(" && *x != ")").count() as i32 }
fn rank(l: &str, r: &str) -> (i32, i32, i32, i32, i32) {
    let t: Vec<String> = tk(&format!("{} {}", l, r)); let mut vars: Vec<&String> = t.iter().filter(|x| x.starts_with('?')).collect(); vars.sort(); vars.dedup();
    let consts: i32 = [l, r].iter().map(|s| { let mut c: Vec<String> = tk(s).into_iter().filter(|x| x.as_bytes()[0].is_ascii_digit()).collect(); c.sort(); c.dedup(); c.len() as i32 }).sum(); let mut ops: Vec<&String> = t.iter().filter(|x| x.as_bytes()[0].is_ascii_lowercase()).collect(); ops.sort(); ops.dedup();
    (vars.len() as i32, -consts, -size(l).max(size(r)), -(size(l) + size(r)), -(ops.len() as i32))
}
#[no_mangle] pub extern "C" fn h_score() {
    let (n, m) = if cfg!(feature = "thorough") { (4, 3) } else { (3, 2) }; let l = pt(&mut { n }); let r = pt(&mut { m }); let (lp, rp) = (pat(&l), pat(&r)); let s = Toy::score(&lp, &rp); let w = rank(&l, &r);
    // against rules of every rank around it
    for (bl, br) in [("(g ?a ?b)", "(g ?b ?a)"), ("(f ?a)", "?a"), ("(g ?a 0)", "?a"), ("(g ?a 0)", "0"), ("(f (f ?a))", "(k ?a)"), ("(f (f ?a))", "(f ?a)"), ("(h ?a ?b ?c)", "(g ?a (g ?b ?c))"), ("(g (f ?a) (f ?a))", "(f ?a)"), ("(h ?a ?a 0)", "(g ?a 0)")] {
        let t = Toy::score(&pat(bl), &pat(br)); check(s.cmp(&t) == w.cmp(&rank(bl, br)), "rules are ordered by variables, constants, larger side, total size, operators");
        if let (Some(a), Some(b)) = (RL::new(&lp, &rp), RL::new(&pat(bl), &pat(br))) { check(format!("{:?}", a.score()) == format!("{:?}", s) && format!("{:?}", b.score()) == format!("{:?}", t), "a rule has the score of its sides") }
    }
    observe(1, (w.0 + 100) as u64); observe(2, (w.2 + 100) as u64);
}
#[no_mangle] pub extern "C" fn h_sat() {
    let (n, m) = if cfg!(feature = "thorough") { (4, 4) } else { (3, 3) }; let l = pt(&mut { n }); let r = pt(&mut { m });
    let rl = match RL::new(&pat(&l), &pat(&r)) { Some(x) => x, None => { assume(false); return } };
    // no new class: every proper subterm of the right side already occurs in the left (operators are not terms)
    fn terms(s: &Sexp, out: &mut Vec<String>) { out.push(s.to_string()); if let Sexp::List(l) = s { for x in &l[1..] { terms(x, out) } } }
    let (mut lt, mut rt) = (vec![], vec![]); terms(&l.parse().unwrap(), &mut lt); terms(&r.parse().unwrap(), &mut rt);
    let want = rt[1..].iter().all(|x| lt.contains(x)); check(rl.is_saturating() == want, "saturating iff the right side adds no subterm except itself"); observe(1, want as u64); if want { reach(0) } else { reach(1) }
}
