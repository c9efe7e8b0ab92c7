//! Stand-in for swc's `#[plugin_transform]`: the function stays an ordinary one.
use proc_macro::TokenStream;

#[proc_macro_attribute]
pub fn plugin_transform(_: TokenStream, item: TokenStream) -> TokenStream {
    item
}
