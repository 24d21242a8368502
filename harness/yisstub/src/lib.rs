//! `#[derive(Parser)]` for the argument structure of a command-line program that runs without a
//! command line: every field has its default value.
use proc_macro::{Delimiter, TokenStream, TokenTree};

#[proc_macro_derive(Parser, attributes(arg, command))]
pub fn parser(input: TokenStream) -> TokenStream {
    let mut name = String::new();
    let mut fields = vec![];
    let mut it = input.into_iter();
    while let Some(t) = it.next() {
        match t {
            TokenTree::Ident(i) if i.to_string() == "struct" => {
                if let Some(TokenTree::Ident(n)) = it.next() {
                    name = n.to_string();
                }
            }
            TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => {
                // name ':' type ',' with nested angle brackets
                let mut depth = 0;
                let mut last: Option<String> = None;
                let mut seen = false;
                for t in g.stream() {
                    match t {
                        TokenTree::Punct(p) => match p.as_char() {
                            '<' => depth += 1,
                            '>' => depth -= 1,
                            ',' if depth == 0 => seen = false,
                            ':' if depth == 0 && !seen => {
                                seen = true;
                                fields.extend(last.take());
                            }
                            _ => {}
                        },
                        TokenTree::Ident(i) if !seen => last = Some(i.to_string()),
                        _ => {}
                    }
                }
            }
            _ => {}
        }
    }
    let init: String = fields.iter().map(|f| format!("{f}: ::core::default::Default::default(),")).collect();
    format!("impl {name} {{ #[allow(unused)] pub fn parse() -> Self {{ {name} {{ {init} }} }} }}").parse().unwrap()
}
