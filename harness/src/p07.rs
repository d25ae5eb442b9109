//! P07: canonical-form filter.
use crate::{h::*, sym::*}; use ruler::enumo::*;
#[no_mangle] pub extern "C" fn h_canon() {
    let t = cfg!(feature = "thorough");
    let n = choose("nsyms", if t { 5 } else { 4 }); let syms: Vec<String> = (0..n).map(|_| str1("sym", b"abcd")).collect();
    for i in 0..n { for j in 0..i { assume(syms[i] != syms[j]) } }
    let e = any_term(if t { 8 } else { 7 }, 3, b"abcdx");
    let got = Workload::Set(vec![e.clone()]).filter(Filter::Canon(syms.clone())).force();
    let want = canonical(&syms, &e);
    check((got.len() == 1) == want, "a term passes iff its symbols first occur in list order"); if want { reach(0) } else { reach(1) }
    if got.len() == 1 { check(seq(&got[0], &e), "a kept term is unchanged") }
    observe(1, want as u64);
}
