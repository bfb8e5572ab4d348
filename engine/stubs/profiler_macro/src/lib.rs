//! Stand-in for the profiling attribute: the item is returned unchanged, so that the analysis sees
//! the function the repository wrote. It is only type-checked, never run.
use proc_macro::TokenStream;
#[proc_macro_attribute]
pub fn time_profiler(_a: TokenStream, item: TokenStream) -> TokenStream {
    item
}
