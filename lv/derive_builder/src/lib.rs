//! Stands in for the crate of this name: generates the builder type, without setters.
use proc_macro::{TokenStream, TokenTree};

#[proc_macro_derive(Builder, attributes(builder))]
pub fn builder(item: TokenStream) -> TokenStream {
    let mut t = item.into_iter();
    while let Some(x) = t.next() {
        if matches!(&x, TokenTree::Ident(i) if i.to_string() == "struct") { break; }
    }
    let name = match t.next() { Some(TokenTree::Ident(i)) => i.to_string(), _ => panic!("a struct was expected") };
    format!("#[derive(Clone, Default)] pub struct {name}Builder {{}}").parse().unwrap()
}
