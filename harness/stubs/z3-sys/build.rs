fn main(){ println!("cargo:rustc-link-lib=dylib=z3"); }
