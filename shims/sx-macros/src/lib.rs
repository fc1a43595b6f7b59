//! What the modelled world needs in place of `#[tokio::main]` and `#[derive(StructOpt)]`.
use proc_macro::{Delimiter, TokenStream, TokenTree};

/// Leaves the function as it is, for the harness to call: a future.
#[proc_macro_attribute]
pub fn main(_: TokenStream, item: TokenStream) -> TokenStream {
    let is_pub = item.to_string().trim_start().starts_with("pub");
    let mut out: TokenStream = if is_pub { TokenStream::new() } else { "pub ".parse().unwrap() };
    out.extend(item);
    out
}

/// The text of `key = "text"` in an attribute's arguments; `Some("")` for a bare `key`.
fn setting(args: &[TokenTree], key: &str) -> Option<String> {
    for (i, t) in args.iter().enumerate() {
        if t.to_string() != key {
            continue;
        }
        if i > 0 && args[i - 1].to_string() != "," {
            continue;
        }
        return match (args.get(i + 1).map(|t| t.to_string()).as_deref(), args.get(i + 2)) {
            (Some("="), Some(t)) => Some(t.to_string().trim_matches('"').to_string()),
            _ => Some(String::new()),
        };
    }
    None
}

/// Takes the fields from the command line the harness has laid out.
#[proc_macro_derive(StructOpt, attributes(structopt))]
pub fn structopt(item: TokenStream) -> TokenStream {
    let all: Vec<TokenTree> = item.into_iter().collect();
    let at = all.iter().position(|t| t.to_string() == "struct").expect("a struct");
    let name = all[at + 1].to_string();
    let body = all.iter().rev().find_map(|t| match t {
        TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => Some(g.stream()),
        _ => None,
    });
    let body: Vec<TokenTree> = body.expect("named fields").into_iter().collect();
    let mut out = format!("impl ::structopt::StructOpt for {name} {{ fn from_args() -> Self {{ Self {{\n");
    let mut args: Vec<TokenTree> = Vec::new();
    let mut i = 0;
    while i < body.len() {
        match &body[i] {
            TokenTree::Punct(p) if p.as_char() == '#' => {
                if let Some(TokenTree::Group(g)) = body.get(i + 1) {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    if inner.first().map(|t| t.to_string()).as_deref() == Some("structopt") {
                        if let Some(TokenTree::Group(g)) = inner.get(1) {
                            if !args.is_empty() {
                                args.push(TokenTree::Punct(proc_macro::Punct::new(',', proc_macro::Spacing::Alone)));
                            }
                            args.extend(g.stream());
                        }
                    }
                }
                i += 2;
            }
            TokenTree::Ident(id) if id.to_string() == "pub" => {
                i += 1;
                if matches!(&body.get(i), Some(TokenTree::Group(_))) {
                    i += 1;
                }
            }
            TokenTree::Ident(id) => {
                let field = id.to_string();
                // name : type ,
                let mut depth = 0;
                let mut j = i + 2;
                let optional = body.get(j).map(|t| t.to_string()).as_deref() == Some("Option");
                while j < body.len() {
                    match body[j].to_string().as_str() {
                        "<" => depth += 1,
                        ">" => depth -= 1,
                        "," if depth == 0 => break,
                        _ => {}
                    }
                    j += 1;
                }
                let own = field.replace('_', "-");
                let option = match setting(&args, "long") {
                    Some(l) if l.is_empty() => format!("--{own}"),
                    Some(l) => format!("--{l}"),
                    None if setting(&args, "short").is_some() => format!("--{own}"),
                    None => String::new(),
                };
                let default = match setting(&args, "default_value") {
                    Some(d) => format!("Some({d:?})"),
                    None => "None".into(),
                };
                let how = if optional { "optional" } else { "value" };
                out += &format!("{field}: ::structopt::{how}({option:?}, {default}),\n");
                args.clear();
                i = j + 1;
            }
            _ => i += 1,
        }
    }
    out += "} } }";
    out.parse().expect("an implementation")
}
