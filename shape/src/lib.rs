//! `#[derive(Shape)]` records the item it is applied to, token by token, as `pub const SHAPE: &str`.
use proc_macro::{Delimiter, TokenStream, TokenTree};

fn flat(ts: TokenStream, out: &mut Vec<String>) {
    let ts: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < ts.len() {
        // Silencing a lint is not a change of the item.
        if let (TokenTree::Punct(p), Some(TokenTree::Group(g))) = (&ts[i], ts.get(i + 1)) {
            if p.as_char() == '#' && g.delimiter() == Delimiter::Bracket && g.stream().into_iter().next().map(|t| t.to_string()).as_deref() == Some("allow") {
                i += 2;
                continue;
            }
        }
        match &ts[i] {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                if !a.is_empty() {
                    out.push(a.into());
                }
                flat(g.stream(), out);
                if !b.is_empty() {
                    // A trailing comma says nothing, except in a one-tuple, which none of the items uses.
                    if out.last().map(String::as_str) == Some(",") {
                        out.pop();
                    }
                    out.push(b.into());
                }
            }
            t => out.push(t.to_string()),
        }
        i += 1;
    }
}

#[proc_macro_derive(Shape, attributes(helper))]
pub fn shape(item: TokenStream) -> TokenStream {
    let mut out = Vec::new();
    flat(item.clone(), &mut out);
    let mut it = item.into_iter();
    let name = loop {
        match it.next() {
            Some(TokenTree::Ident(i)) if i.to_string() == "struct" || i.to_string() == "enum" => break it.next().unwrap().to_string(),
            Some(_) => {}
            None => panic!("no item"),
        }
    };
    format!("impl {name} {{ pub const SHAPE: &'static str = {:?}; }}", out.join(" ")).parse().unwrap()
}
