//! Verification harnesses for ruler: one module per property (cargo feature = property id).
#![allow(dead_code, unused_imports)]
pub mod sym;
pub mod h;
#[cfg(feature = "toy")] pub mod toy;
include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../src/mods.rs"));
