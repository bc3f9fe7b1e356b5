//! Stand-in: `debug_handler` only improves error messages.
#[proc_macro_attribute]
pub fn debug_handler(_a: proc_macro::TokenStream, item: proc_macro::TokenStream) -> proc_macro::TokenStream { item }
