//! P02: bit-vector literals.
use crate::{h::*, sym::*}; use ruler::BV;
fn digits(s: &[u8], radix: u128) -> Option<u128> { if s.is_empty() { return None } let mut v = 0u128; for b in s { let d = b.wrapping_sub(b'0') as u128; if d >= radix { return None } v = v * radix + d } Some(v) }
/// any byte string of length <= 3 (4): decimal numerals parse to their value mod 2^N, everything else is refused
fn dec<const N: u128>() {
    let n = choose("len", if cfg!(feature = "thorough") { 6 } else { 5 }); let s: Vec<u8> = (0..n).map(|_| { let b = u8v("c"); assume(b >= 32 && b < 127); b }).collect();
    let t = unsafe { std::str::from_utf8_unchecked(&s) };
    if n >= 2 { assume(or(s[0] != b'#', s[1] != b'b')) }
    let got = t.parse::<BV<N>>();
    // an explicit plus sign is part of Rust's numeral syntax
    let want = if n > 1 && s[0] == b'+' { digits(&s[1..], 10) } else { digits(&s, 10) };
    match (got, want) { (Ok(g), Some(w)) => { reach(0); check(g == BV::<N>::new(w), "value of a decimal literal"); observe(1, g.0 as u64) } (Err(_), None) => { reach(1); check(true, "refused"); observe(2, 0) } (Ok(_), None) => fail("a string that is not a numeral was read as a value"), (Err(_), Some(_)) => fail("a numeral was refused") }
}
fn bin<const N: u128>() {
    let n = choose("len", if cfg!(feature = "thorough") { 15 } else { 10 }); let mut s: Vec<u8> = b"#b".to_vec(); for _ in 0..n { s.push(byte("c", b"01")) }
    // one arbitrary byte somewhere: must be refused unless it is a binary digit
    if n > 0 { let k = choose("at", n as u8); let b = u8v("odd"); assume(b > 32 && b < 127); s[2 + k] = b; assume(or(k > 0, b != b'+')) }
    let t = unsafe { std::str::from_utf8_unchecked(&s) };
    match (t.parse::<BV<N>>(), digits(&s[2..], 2)) { (Ok(g), Some(w)) => { reach(0); check(g == BV::<N>::new(w), "value of a binary literal"); observe(1, g.0 as u64) } (Err(_), None) => { reach(1); check(true, "refused") } (Ok(_), None) => fail("a string that is not a binary numeral was read as a value"), (Err(_), Some(_)) => fail("a binary numeral was refused") }
}
/// full-width binary literals: 128 symbolic digits would be one path per digit check, so the digits come from one symbolic value
fn wide<const N: u128>() {
    let d = choose("digits", 3) * 63 + 2; let hi = byte("hi", b"01"); let lo = byte("lo", b"01"); let mid = byte("mid", b"01");
    let mut s = b"#b".to_vec(); let mut w = 0u128; for i in 0..d { let c = if i == 0 { hi } else if i == d - 1 { lo } else { mid }; s.push(c); w = (w << 1) | (c & 1) as u128 }
    let g = unsafe { std::str::from_utf8_unchecked(&s) }.parse::<BV<N>>();
    match g { Ok(g) => check(g == BV::<N>::new(w), "value of a long binary literal"), Err(_) => fail("a binary numeral was refused") }
}
fn print<const N: u128>() {
    let sh = choose("shift", 5) as u32; let v = (u8v("v") as u128) << (sh * 30); let b = BV::<N>::new(v);
    let v = conc128(b.0); let b = BV::<N>::new(v);
    let s = format!("{}", b); let d = format!("{:?}", b);
    match s.parse::<BV<N>>() { Ok(g) => check(g == b, "parsing a printed value gives it back"), Err(_) => fail("a printed value does not parse") }
    match d.parse::<BV<N>>() { Ok(g) => check(g == b, "parsing a debug-printed value gives it back"), Err(_) => fail("a debug-printed value does not parse") }
    observe_bytes(1, s.as_bytes());
}
fn conc128(v: u128) -> u128 { (conc(v as u64 as usize) as u128) | ((conc((v >> 64) as u64 as usize) as u128) << 64) }
macro_rules! widths { ($f:ident) => { match choose("w", 4) { 0 => $f::<4>(), 1 => $f::<8>(), 2 => $f::<64>(), _ => $f::<128>() } } }
#[no_mangle] pub extern "C" fn h_dec() { widths!(dec) }
#[no_mangle] pub extern "C" fn h_bin() { widths!(bin) }
#[no_mangle] pub extern "C" fn h_wide() { widths!(wide) }
#[no_mangle] pub extern "C" fn h_print() { widths!(print) }
// literals inside terms of the language
pub mod b8 { ruler::impl_bv!(8); }
#[no_mangle] pub extern "C" fn h_term() {
    use b8::Bv; use egg::RecExpr;
    let d = [byte("d", b"0123456789"), byte("d", b"0123456789")]; let lit = unsafe { std::str::from_utf8_unchecked(&d) };
    let ops = ["+", "--", "*", "-", "~", "<<", ">>", "&", "|", "^"]; let k = choose("op", 10);
    let un = k == 3 || k == 4; let txt = if un { format!("({} {})", ops[k], lit) } else { format!("({} {} x)", ops[k], lit) };
    let e: RecExpr<Bv> = txt.parse().unwrap(); let n = e.as_ref();
    check(n.len() == if un { 2 } else { 3 }, "one node per subterm");
    let want = ((d[0] - b'0') as u128) * 10 + (d[1] - b'0') as u128;
    match &n[0] { Bv::Lit(c) => check(c.0 == want, "a numeral in a term is the literal of its value"), _ => fail("a numeral in a term is not a literal") }
    let ok = match (k, n.last().unwrap()) { (0, Bv::Add(_)) | (1, Bv::Sub(_)) | (2, Bv::Mul(_)) | (3, Bv::Neg(_)) | (4, Bv::Not(_)) | (5, Bv::Shl(_)) | (6, Bv::Shr(_)) | (7, Bv::And(_)) | (8, Bv::Or(_)) | (9, Bv::Xor(_)) => true, _ => false };
    check(ok, "operator syntax");
    if !un { check(matches!(&n[1], Bv::Var(s) if s.as_str() == "x"), "an identifier is a variable") }
}
