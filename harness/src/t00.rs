use crate::sym::*;
use ruler::enumo::*;
#[no_mangle] pub extern "C" fn h_t00() {
    init();
    let n = 3; let mut bytes = vec![];
    for _ in 0..n { let b = u8v("c"); assume(or(or(b == b'a', b == b'('), or(b == b')', b == b' '))); bytes.push(b); }
    let s = String::from_utf8(bytes).unwrap();
    let l = [Sexp::Atom(s.clone())];
    let w = Workload::Set(l.to_vec()).filter(Filter::Contains("aaa".parse().unwrap()));
    let f = w.force();
    check((f.len() == 1) == (s == "aaa"), "contains literal");
    observe(1, f.len() as u64);
}
// rayon + e-graph smoke test: two sets of four atoms, symbolic choice of rules
pub mod b8 { ruler::impl_bv!(8); }
#[no_mangle] pub extern "C" fn h_t01() {
    init();
    use b8::Bv;
    use ruler::Limits;
    let k = choose("k", 3);
    let rules = ["(+ ?a ?b) ==> (+ ?b ?a)", "(+ ?a ?b) ==> (+ ?a ?a)", "(* ?a ?b) ==> (* ?b ?a)"];
    let w = Workload::new(["(+ a b)", "(* a b)", "(* b a)", "(+ b a)"]);
    let rs: Ruleset<Bv> = Ruleset::new([rules[k]]);
    let e = w.to_egraph::<Bv>();
    let n0 = e.number_of_classes();
    let out = Scheduler::Compress(Limits { iter: 2, node: 100, match_: 100 }).run(&e, &rs);
    observe(2, n0 as u64); observe(3, out.number_of_classes() as u64);
    check(out.number_of_classes() <= n0, "no growth");
    let cands: Ruleset<Bv> = Ruleset::cvec_match(&e);
    observe(4, cands.len() as u64);
    check(cands.len() == 2, "two");
}
