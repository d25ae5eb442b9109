//! Native side of the harness API: replays one concrete assignment of the inputs
//! (a solver model) against the really compiled code.
//! usage: replay ENTRY VALUES   (lines "name#k value")
//! exit: 0 path completed, 10 assertion failed, 11 panic, 12 assumption not met, 13 usage
use std::collections::HashMap;
use std::sync::Mutex;
#[derive(Default)] struct St { vals: HashMap<String, u128>, names: HashMap<String, u32>, expect: bool }
static mut ST: Option<Mutex<St>> = None;
fn st() -> std::sync::MutexGuard<'static, St> { unsafe { (*std::ptr::addr_of!(ST)).as_ref().unwrap().lock().unwrap_or_else(|e| e.into_inner()) } }
unsafe fn s(p: *const u8, n: usize) -> String { String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).to_string() }
fn quit(code: i32) -> ! { use std::io::Write; let _ = std::io::stdout().flush(); std::process::exit(code) }
#[no_mangle] pub unsafe extern "C" fn symx_make(p: *mut u8, n: usize, name: *const u8, len: usize) {
    let mut g = st(); let nm = s(name, len); let k = g.names.entry(nm.clone()).or_insert(0); let key = format!("{}#{}", nm, *k); *k += 1;
    let v = g.vals.get(&key).copied().unwrap_or(0); std::ptr::copy_nonoverlapping(v.to_le_bytes().as_ptr(), p, n);
}
#[no_mangle] pub extern "C" fn symx_assume(c: u8) { if c == 0 { println!("REPLAY-ASSUME"); quit(12) } }
#[no_mangle] pub unsafe extern "C" fn symx_assert(c: u8, m: *const u8, n: usize) { if c == 0 { println!("REPLAY-VIOLATION {}", s(m, n)); quit(10) } }
#[no_mangle] pub unsafe extern "C" fn symx_fail(m: *const u8, n: usize) { println!("REPLAY-VIOLATION {}", s(m, n)); quit(10) }
#[no_mangle] pub extern "C" fn symx_reach(_k: u64) {}
#[no_mangle] pub extern "C" fn symx_observe(t: u64, v: u64) { println!("OBS {} {}", t, v) }
#[no_mangle] pub extern "C" fn symx_concretize(v: u64) -> u64 { v }
#[no_mangle] pub extern "C" fn symx_expect_panic(on: u64) { st().expect = on != 0 }
#[no_mangle] pub extern "C" fn symx_native() -> u64 { 1 }
#[no_mangle] pub extern "C" fn symx_end() { println!("REPLAY-OK"); quit(0) }
#[no_mangle] pub extern "C" fn symx_z3_bind(_n: *const u8, _l: usize, _b: u64, _lo: u64, _hi: u64) {}
#[no_mangle] pub extern "C" fn symx_z3_result(_v: i32) {}
#[no_mangle] pub extern "C" fn symx_z3_formula() -> u8 { 1 }
#[no_mangle] pub extern "C" fn symx_z3_checks() -> u64 { 0 }
pub fn run(entries: &[(&str, extern "C" fn())]) {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 { quit(13) }
    let mut t = St::default();
    for l in std::fs::read_to_string(&a[2]).unwrap().lines() { let mut w = l.split_whitespace(); if let (Some(k), Some(v)) = (w.next(), w.next()) { t.vals.insert(k.to_string(), v.parse().unwrap()); } }
    unsafe { ST = Some(Mutex::new(t)); }
    std::panic::set_hook(Box::new(|i| { let e = st().expect; println!("{} {}", if e { "REPLAY-PANIC-EXPECTED" } else { "REPLAY-PANIC" }, i.to_string().replace('\n', " ")); quit(if e { 0 } else { 11 }) }));
    match entries.iter().find(|e| e.0 == a[1]) { Some(e) => e.1(), None => { println!("no entry {}", a[1]); quit(13) } }
    println!("REPLAY-OK"); quit(0)
}
