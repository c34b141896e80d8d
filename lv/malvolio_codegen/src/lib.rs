//! Stands in for the crate of this name: `into_pub_fields` gives a copy of a struct whose fields
//! are public.
use proc_macro::{Delimiter, TokenStream, TokenTree};

#[proc_macro_derive(FieldsAccessibleVariant)]
pub fn fields(item: TokenStream) -> TokenStream {
    let mut t = item.into_iter();
    while let Some(x) = t.next() {
        if matches!(&x, TokenTree::Ident(i) if i.to_string() == "struct") { break; }
    }
    let name = match t.next() { Some(TokenTree::Ident(i)) => i.to_string(), _ => panic!("a struct was expected") };
    // name: type, between top-level commas
    let (mut defs, mut moves) = (String::new(), String::new());
    if let Some(TokenTree::Group(g)) = t.next() {
        if g.delimiter() == Delimiter::Brace {
            let (mut depth, mut field, mut ty, mut colon) = (0, None::<String>, String::new(), false);
            let mut skip = false;
            let mut all: Vec<TokenTree> = g.stream().into_iter().collect();
            all.push(",".parse::<TokenStream>().unwrap().into_iter().next().unwrap());
            let mut prev_dash = false;
            for x in all {
                match &x {
                    TokenTree::Punct(p) if p.as_char() == '#' && !colon => { skip = true; continue }
                    TokenTree::Group(_) if skip => { skip = false; continue }
                    TokenTree::Punct(p) if p.as_char() == ',' && depth == 0 => {
                        if let Some(f) = field.take() {
                            defs += &format!("pub {f}: {ty},\n");
                            moves += &format!("{f}: self.{f},\n");
                        }
                        ty.clear();
                        colon = false;
                        continue;
                    }
                    TokenTree::Punct(p) if p.as_char() == ':' && !colon => { colon = true; continue }
                    TokenTree::Punct(p) if p.as_char() == '<' => depth += 1,
                    TokenTree::Punct(p) if p.as_char() == '>' && !prev_dash => depth -= 1,
                    TokenTree::Ident(i) if !colon => { if i.to_string() != "pub" { field = Some(i.to_string()); } continue }
                    _ if !colon => continue,
                    _ => {}
                }
                prev_dash = matches!(&x, TokenTree::Punct(p) if p.as_char() == '-');
                // a lifetime is an apostrophe and a name
                ty += &x.to_string();
                if !matches!(&x, TokenTree::Punct(p) if p.as_char() == '\'') { ty += " "; }
            }
        }
    }
    format!(
        "#[allow(missing_docs)] #[derive(Debug)] pub struct {name}PubFields {{ {defs} }}
         impl {name} {{ #[allow(missing_docs)] pub fn into_pub_fields(self) -> {name}PubFields {{ {name}PubFields {{ {moves} }} }} }}"
    ).parse().unwrap()
}
