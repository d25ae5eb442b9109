#[path = "lib.rs"] mod harness;
mod native;
#[allow(unused_imports)] use harness::*;
fn main() { native::run(harness::ENTRIES) }
