//! P06: metrics.
use crate::{h::*, sym::*}; use ruler::enumo::*;
#[no_mangle] pub extern "C" fn h_metric() {
    let t = any_term(if cfg!(feature = "thorough") { 11 } else { 9 }, 4, b"ab"); let m = any_metric(); let n = usizev("n"); let k = size(&t, m);
    let lt = Workload::Set(vec![t.clone()]).filter(Filter::MetricLt(m, n)).force().len();
    let eq = Workload::Set(vec![t.clone()]).filter(Filter::MetricEq(m, n)).force().len();
    check((lt == 1) == (k < n), "the less-than filter accepts exactly the terms measuring less"); check((eq == 1) == (k == n), "the equality filter accepts exactly the terms of that measure");
    check(lt <= 1 && eq <= 1, "a filter does not duplicate terms");
    if t == Sexp::List(vec![]) { reach(1) } observe(1, k as u64); observe(2, lt as u64); observe(3, eq as u64); reach(0);
}
