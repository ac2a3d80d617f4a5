//! Stand-in for the attribute macros of pyo3: the function stays as it is.
extern crate proc_macro;
use proc_macro::TokenStream;

#[proc_macro_attribute]
pub fn pyfunction(_a: TokenStream, item: TokenStream) -> TokenStream { item }

#[proc_macro_attribute]
pub fn pymodule(_a: TokenStream, item: TokenStream) -> TokenStream { item }
