//! P19: candidates by value-vector matching.
use crate::{sym::*, toy::*}; use ruler::{SynthAnalysis, SynthLanguage, CVec, enumo::*};
fn run(k: usize, n: usize, hi: u8) {
    let (eg, ts, cvs) = classes(k, n, hi); let mut want = vec![];
    for i in 0..k { for j in i + 1..k { let (mut agree, mut both) = (true, false); for p in 0..n { if let (Some(a), Some(b)) = (cvs[i][p], cvs[j][p]) { both = true; agree = and(agree, a == b) } } if agree && both { pair_rules(ts[i], ts[j], &mut want) } } }
    compare(&RS::cvec_match(&eg), &want);
}
#[no_mangle] pub extern "C" fn h_three() { let n = choose("n", if cfg!(feature = "thorough") { 6 } else { 5 }); run(3, n, 255) }
#[no_mangle] pub extern "C" fn h_five() { let n = 1 + choose("n", if cfg!(feature = "thorough") { 3 } else { 2 }); run(if n == 1 { 6 } else if n == 2 { 5 } else { 4 }, n, 3) }
#[no_mangle] pub extern "C" fn h_four() { run(4, if cfg!(feature = "thorough") { 4 } else { 3 }, 2) }
