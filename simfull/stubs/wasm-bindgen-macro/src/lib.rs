//! `#[wasm_bindgen]` as the identity on the item, minus nested `#[wasm_bindgen(...)]` attributes.
use proc_macro::{Delimiter, Group, TokenStream, TokenTree};
fn strip(t: TokenStream) -> TokenStream {
    let v: Vec<TokenTree> = t.into_iter().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < v.len() {
        if let (TokenTree::Punct(p), Some(TokenTree::Group(g))) = (&v[i], v.get(i + 1)) {
            if p.as_char() == '#' && g.delimiter() == Delimiter::Bracket {
                if let Some(TokenTree::Ident(id)) = g.stream().into_iter().next() {
                    if id.to_string() == "wasm_bindgen" {
                        i += 2;
                        continue;
                    }
                }
            }
        }
        out.push(match &v[i] {
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), strip(g.stream()));
                n.set_span(g.span());
                TokenTree::Group(n)
            }
            o => o.clone(),
        });
        i += 1;
    }
    out.into_iter().collect()
}
#[proc_macro_attribute]
pub fn wasm_bindgen(_a: TokenStream, item: TokenStream) -> TokenStream {
    strip(item)
}
