extern crate proc_macro;
use proc_macro::{Delimiter, Group, Ident, Span, TokenStream, TokenTree};

const STRIP: [&str; 8] = ["pyo3", "new", "getter", "setter", "pymodule_export", "staticmethod", "classmethod", "classattr"];

fn first_ident(g: &Group) -> Option<String> {
    match g.stream().into_iter().next() {
        Some(TokenTree::Ident(i)) => Some(i.to_string()),
        _ => None,
    }
}

// Drop pyo3 helper attributes; with `publish`, make inherent methods pub.
fn clean(ts: TokenStream, publish: bool, depth: usize) -> TokenStream {
    let toks: Vec<TokenTree> = ts.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    while i < toks.len() {
        if let TokenTree::Punct(p) = &toks[i] {
            if p.as_char() == '#' {
                if let Some(TokenTree::Group(g)) = toks.get(i + 1) {
                    if g.delimiter() == Delimiter::Bracket
                        && first_ident(g).is_some_and(|s| STRIP.contains(&s.as_str()))
                    {
                        i += 2;
                        continue;
                    }
                }
            }
        }
        if let TokenTree::Ident(id) = &toks[i] {
            let s = id.to_string();
            if publish && depth == 1 && (s == "fn" || (s == "const" && matches!(toks.get(i+1), Some(TokenTree::Ident(f)) if f.to_string() == "fn"))) {
                let prev_pub = match out.last() {
                    Some(TokenTree::Ident(p)) => { let p = p.to_string(); p == "pub" || p == "const" || p == "unsafe" }
                    Some(TokenTree::Group(g)) => g.delimiter() == Delimiter::Parenthesis,
                    _ => false,
                };
                if !prev_pub {
                    out.push(TokenTree::Ident(Ident::new("pub", Span::call_site())));
                }
            }
        }
        match &toks[i] {
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), clean(g.stream(), publish, if g.delimiter() == Delimiter::Brace { depth + 1 } else { depth + 10 }));
                n.set_span(g.span());
                out.push(TokenTree::Group(n));
            }
            t => out.push(t.clone()),
        }
        i += 1;
    }
    out.into_iter().collect()
}

#[proc_macro_attribute]
pub fn pyfunction(_a: TokenStream, i: TokenStream) -> TokenStream { clean(i, false, 0) }
#[proc_macro_attribute]
pub fn pyclass(_a: TokenStream, i: TokenStream) -> TokenStream { clean(i, false, 0) }
#[proc_macro_attribute]
pub fn pymethods(_a: TokenStream, i: TokenStream) -> TokenStream { clean(i, true, 0) }
// The module's exports become `pub(crate)`, so that the driver can name exactly
// what Python would see.
#[proc_macro_attribute]
pub fn pymodule(_a: TokenStream, i: TokenStream) -> TokenStream { export(clean(i, false, 0)) }

fn export(ts: TokenStream) -> TokenStream {
    ts.into_iter()
        .map(|t| match t {
            TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => {
                let mut out: Vec<TokenTree> = vec![];
                for t in g.stream() {
                    if matches!(&t, TokenTree::Ident(i) if i.to_string() == "use")
                        && !matches!(out.last(), Some(TokenTree::Ident(_)))
                    {
                        out.extend("pub(crate)".parse::<TokenStream>().unwrap());
                    }
                    out.push(t);
                }
                TokenTree::Group(Group::new(Delimiter::Brace, out.into_iter().collect()))
            }
            t => t,
        })
        .collect()
}
