/* automatically generated by rust-bindgen */

#[repr(u32)]
#[derive(Debug, Copy, Clone, PartialEq, Eq, Hash)]
pub enum Z3_symbol_kind {
    Z3_INT_SYMBOL = 0,
    Z3_STRING_SYMBOL = 1,
}
