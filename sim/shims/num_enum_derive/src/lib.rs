//! Stand-in for num_enum's derives: explicit or implicit discriminants, `#[repr(uN)]`, `#[num_enum(default)]`.
use proc_macro::{Delimiter, TokenStream, TokenTree};

struct Info { name: String, repr: String, variants: Vec<String>, default: Option<String> }

fn parse(input: TokenStream) -> Info {
    let toks: Vec<TokenTree> = input.into_iter().collect();
    let mut repr = "u8".to_string();
    let mut name = String::new();
    let mut variants = vec![];
    let mut default = None;
    let mut i = 0;
    while i < toks.len() {
        match &toks[i] {
            TokenTree::Punct(p) if p.as_char() == '#' => {
                let s = toks[i + 1].to_string().replace(' ', "");
                if let Some(r) = s.strip_prefix("[repr(") { repr = r.trim_end_matches(")]").to_string(); }
                i += 1;
            }
            TokenTree::Ident(id) if id.to_string() == "enum" => { name = toks[i + 1].to_string(); i += 1; }
            TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => {
                let mut start = true;
                let mut is_def = false;
                let b: Vec<TokenTree> = g.stream().into_iter().collect();
                let mut j = 0;
                while j < b.len() {
                    match &b[j] {
                        TokenTree::Punct(p) if p.as_char() == '#' => {
                            let s = b[j + 1].to_string().replace(' ', "");
                            if s.contains("num_enum(default)") { is_def = true; }
                            j += 1;
                        }
                        TokenTree::Punct(p) if p.as_char() == ',' => { start = true; }
                        TokenTree::Ident(id) if start => {
                            variants.push(id.to_string());
                            if is_def { default = Some(id.to_string()); is_def = false; }
                            start = false;
                        }
                        _ => {}
                    }
                    j += 1;
                }
            }
            _ => {}
        }
        i += 1;
    }
    Info { name, repr, variants, default }
}

#[proc_macro_derive(FromPrimitive, attributes(num_enum))]
pub fn from_primitive(input: TokenStream) -> TokenStream {
    let Info { name, repr, variants, default } = parse(input);
    let d = default.expect("no default variant");
    let arms: String = variants.iter().filter(|v| **v != d)
        .map(|v| format!("if v == ({name}::{v} as {repr}) {{ return {name}::{v}; }}")).collect();
    format!("impl ::num_enum::FromPrimitive for {name} {{ type Primitive = {repr};
        fn from_primitive(v: {repr}) -> Self {{ {arms} {name}::{d} }} }}
        impl ::core::convert::From<{repr}> for {name} {{ fn from(v: {repr}) -> Self {{ <Self as ::num_enum::FromPrimitive>::from_primitive(v) }} }}
    ").parse().unwrap()
}

#[proc_macro_derive(IntoPrimitive, attributes(num_enum))]
pub fn into_primitive(input: TokenStream) -> TokenStream {
    let Info { name, repr, .. } = parse(input);
    format!("impl ::core::convert::From<{name}> for {repr} {{ fn from(v: {name}) -> Self {{ v as {repr} }} }}").parse().unwrap()
}
