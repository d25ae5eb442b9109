//! P20: candidates by identical value vectors.
use crate::{sym::*, toy::*}; use ruler::{SynthAnalysis, SynthLanguage, CVec, enumo::*};
fn run(k: usize, n: usize, hi: u8) {
    let (eg, ts, cvs) = classes(k, n, hi); let mut want = vec![];
    for i in 0..k { for j in i + 1..k {
        let mut same = true; let mut def = n == 0; for p in 0..n { match (cvs[i][p], cvs[j][p]) { (Some(a), Some(b)) => { def = true; same = and(same, a == b) } (None, None) => (), _ => same = false } }
        if same && def { pair_rules(ts[i], ts[j], &mut want) } } }
    if n == 0 && k >= 3 { for t in &ts { pair_rules(t, "y", &mut want) } }
    compare(&RS::fast_cvec_match(&eg), &want);
}
#[no_mangle] pub extern "C" fn h_three() { let n = choose("n", if cfg!(feature = "thorough") { 6 } else { 5 }); run(3, n, 255) }
#[no_mangle] pub extern "C" fn h_five() { let n = 1 + choose("n", if cfg!(feature = "thorough") { 3 } else { 2 }); run(if n == 1 { 6 } else if n == 2 { 5 } else { 4 }, n, 3) }
#[no_mangle] pub extern "C" fn h_four() { run(4, if cfg!(feature = "thorough") { 4 } else { 3 }, 2) }
