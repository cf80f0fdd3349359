//! stand-in for the attributes of pyo3: they leave the item as it is, without the attributes that only pyo3 knows
extern crate proc_macro;
use proc_macro::{Delimiter, Group, TokenStream, TokenTree};
fn strip(ts: TokenStream) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let (mut out, mut i) = (Vec::new(), 0);
    while i < v.len() {
        if let (TokenTree::Punct(p), Some(TokenTree::Group(g))) = (&v[i], v.get(i + 1)) {
            if p.as_char() == '#' && g.delimiter() == Delimiter::Bracket {
                if let Some(TokenTree::Ident(id)) = g.stream().into_iter().next() {
                    if ["pyo3", "new", "staticmethod", "getter", "setter", "classattr"].contains(&id.to_string().as_str()) { i += 2; continue; }
                }
            }
        }
        match &v[i] {
            TokenTree::Group(g) => { let mut n = Group::new(g.delimiter(), strip(g.stream())); n.set_span(g.span()); out.push(TokenTree::Group(n)) }
            t => out.push(t.clone()),
        }
        i += 1;
    }
    out.into_iter().collect()
}
#[proc_macro_attribute] pub fn pymethods(_a: TokenStream, item: TokenStream) -> TokenStream { strip(item) }
#[proc_macro_attribute] pub fn pyfunction(_a: TokenStream, item: TokenStream) -> TokenStream { strip(item) }
#[proc_macro_attribute] pub fn pymodule(_a: TokenStream, item: TokenStream) -> TokenStream { strip(item) }
#[proc_macro_attribute] pub fn pyclass(_a: TokenStream, item: TokenStream) -> TokenStream {
    let item = strip(item);
    let (mut name, mut next) = (String::new(), false);
    for t in item.clone() {
        if let TokenTree::Ident(i) = t {
            if next { name = i.to_string(); break; }
            next = i.to_string() == "struct";
        }
    }
    let mut out = item;
    out.extend(format!("impl ::pyo3::PyClassName for {name} {{ const NAME: &'static str = \"{name}\"; }}").parse::<TokenStream>().unwrap());
    out
}
