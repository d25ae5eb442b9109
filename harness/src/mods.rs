#[cfg(feature = "t00")] #[path = "t00.rs"] pub mod t00;
#[cfg(feature = "t00")] pub const ENTRIES: &[(&str, extern "C" fn())] = &[("h_t00", t00::h_t00), ("h_t01", t00::h_t01), ];
#[cfg(feature = "p01")] #[path = "p01.rs"] pub mod p01;
#[cfg(feature = "p01")] pub const ENTRIES: &[(&str, extern "C" fn())] = &[("h_ops", p01::h_ops), ("h_mul", p01::h_mul), ("h_shift", p01::h_shift), ("h_make", p01::h_make), ("h_interp", p01::h_interp), ];
#[cfg(feature = "p02")] #[path = "p02.rs"] pub mod p02;
#[cfg(feature = "p02")] pub const ENTRIES: &[(&str, extern "C" fn())] = &[("h_dec", p02::h_dec), ("h_bin", p02::h_bin), ("h_wide", p02::h_wide), ("h_print", p02::h_print), ("h_term", p02::h_term), ];
#[cfg(feature = "p03")] #[path = "p03.rs"] pub mod p03;
#[cfg(feature = "p03")] pub const ENTRIES: &[(&str, extern "C" fn())] = &[("h_one", p03::h_one), ("h_two", p03::h_two), ("h_verdict", p03::h_verdict), ];
#[cfg(feature = "p04")] #[path = "p04.rs"] pub mod p04;
#[cfg(feature = "p04")] pub const ENTRIES: &[(&str, extern "C" fn())] = &[("h_product", p04::h_product), ("h_init", p04::h_init), ("h_egraph", p04::h_egraph), ];
#[cfg(feature = "p05")] #[path = "p05.rs"] pub mod p05;
#[cfg(feature = "p05")] pub const ENTRIES: &[(&str, extern "C" fn())] = &[("h_text", p05::h_text), ("h_space", p05::h_space), ("h_pattern", p05::h_pattern), ("h_file", p05::h_file), ];
#[cfg(feature = "p06")] #[path = "p06.rs"] pub mod p06;
#[cfg(feature = "p06")] pub const ENTRIES: &[(&str, extern "C" fn())] = &[("h_metric", p06::h_metric), ];
#[cfg(feature = "p07")] #[path = "p07.rs"] pub mod p07;
#[cfg(feature = "p07")] pub const ENTRIES: &[(&str, extern "C" fn())] = &[("h_canon", p07::h_canon), ];
#[cfg(feature = "p08")] #[path = "p08.rs"] pub mod p08;
#[cfg(feature = "p08")] pub const ENTRIES: &[(&str, extern "C" fn())] = &[("h_pattern", p08::h_pattern), ("h_nonlinear", p08::h_nonlinear), ("h_bool", p08::h_bool), ("h_chain", p08::h_chain), ];
#[cfg(feature = "p09")] #[path = "p09.rs"] pub mod p09;
#[cfg(feature = "p09")] pub const ENTRIES: &[(&str, extern "C" fn())] = &[("h_plug", p09::h_plug), ("h_name", p09::h_name), ("h_push", p09::h_push), ("h_push2", p09::h_push2), ("h_replug", p09::h_replug), ("h_append", p09::h_append), ];
#[cfg(feature = "p10")] #[path = "p10.rs"] pub mod p10;
#[cfg(feature = "p10")] pub const ENTRIES: &[(&str, extern "C" fn())] = &[("h_iter", p10::h_iter), ("h_base", p10::h_base), ("h_subst", p10::h_subst), ];
#[cfg(feature = "p11")] #[path = "p11.rs"] pub mod p11;
#[cfg(feature = "p11")] pub const ENTRIES: &[(&str, extern "C" fn())] = &[("h_rule", p11::h_rule), ("h_new", p11::h_new), ("h_bad", p11::h_bad), ("h_file", p11::h_file), ];
#[cfg(feature = "p12")] #[path = "p12.rs"] pub mod p12;
#[cfg(feature = "p12")] pub const ENTRIES: &[(&str, extern "C" fn())] = &[("h_ops", p12::h_ops), ("h_partition", p12::h_partition), ("h_bidir", p12::h_bidir), ];
#[cfg(feature = "p13")] #[path = "p13.rs"] pub mod p13;
#[cfg(feature = "p13")] pub const ENTRIES: &[(&str, extern "C" fn())] = &[("h_pair", p13::h_pair), ("h_many", p13::h_many), ];
#[cfg(feature = "p14")] #[path = "p14.rs"] pub mod p14;
#[cfg(feature = "p14")] pub const ENTRIES: &[(&str, extern "C" fn())] = &[("h_score", p14::h_score), ("h_sat", p14::h_sat), ];
#[cfg(feature = "p15")] #[path = "p15.rs"] pub mod p15;
#[cfg(feature = "p15")] pub const ENTRIES: &[(&str, extern "C" fn())] = &[("h_cost", p15::h_cost), ("h_extract", p15::h_extract), ];
#[cfg(feature = "p16")] #[path = "p16.rs"] pub mod p16;
#[cfg(feature = "p16")] pub const ENTRIES: &[(&str, extern "C" fn())] = &[("h_values", p16::h_values), ("h_interval", p16::h_interval), ("h_simplest", p16::h_simplest), ("h_egraph", p16::h_egraph), ("h_modify", p16::h_modify), ];
#[cfg(feature = "p17")] #[path = "p17.rs"] pub mod p17;
#[cfg(feature = "p17")] pub const ENTRIES: &[(&str, extern "C" fn())] = &[("h_apply", p17::h_apply), ("h_sound", p17::h_sound), ];
#[cfg(feature = "p18")] #[path = "p18.rs"] pub mod p18;
#[cfg(feature = "p18")] pub const ENTRIES: &[(&str, extern "C" fn())] = &[("h_sound", p18::h_sound), ("h_compress", p18::h_compress), ("h_saturate", p18::h_saturate), ];
#[cfg(feature = "p19")] #[path = "p19.rs"] pub mod p19;
#[cfg(feature = "p19")] pub const ENTRIES: &[(&str, extern "C" fn())] = &[("h_three", p19::h_three), ("h_five", p19::h_five), ("h_four", p19::h_four), ];
#[cfg(feature = "p20")] #[path = "p20.rs"] pub mod p20;
#[cfg(feature = "p20")] pub const ENTRIES: &[(&str, extern "C" fn())] = &[("h_three", p20::h_three), ("h_five", p20::h_five), ("h_four", p20::h_four), ];
#[cfg(feature = "p21")] #[path = "p21.rs"] pub mod p21;
#[cfg(feature = "p21")] pub const ENTRIES: &[(&str, extern "C" fn())] = &[("h_small", p21::h_small), ("h_deep", p21::h_deep), ];
#[cfg(feature = "p22")] #[path = "p22.rs"] pub mod p22;
#[cfg(feature = "p22")] pub const ENTRIES: &[(&str, extern "C" fn())] = &[("h_verdicts", p22::h_verdicts), ("h_valid", p22::h_valid), ];
#[cfg(feature = "p23")] #[path = "p23.rs"] pub mod p23;
#[cfg(feature = "p23")] pub const ENTRIES: &[(&str, extern "C" fn())] = &[("h_derive", p23::h_derive), ("h_split", p23::h_split), ];
#[cfg(feature = "p24")] #[path = "p24.rs"] pub mod p24;
#[cfg(feature = "p24")] pub const ENTRIES: &[(&str, extern "C" fn())] = &[("h_verdicts", p24::h_verdicts), ("h_complete", p24::h_complete), ("h_recursive", p24::h_recursive), ("h_forward", p24::h_forward), ("h_forward_verdicts", p24::h_forward_verdicts), ];
#[cfg(feature = "p25")] #[path = "p25.rs"] pub mod p25;
#[cfg(feature = "p25")] pub const ENTRIES: &[(&str, extern "C" fn())] = &[("h_append", p25::h_append), ("h_bv", p25::h_bv), ("h_baseline", p25::h_baseline), ];
