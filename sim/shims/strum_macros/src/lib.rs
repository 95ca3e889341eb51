//! Stand-in for strum's IntoStaticStr / AsRefStr / Display derives (no attributes).
use proc_macro::*;
fn parse(input: TokenStream) -> (String, Vec<(String, char)>) {
    let mut it = input.into_iter().peekable();
    let mut name = String::new();
    let mut vars = vec![];
    while let Some(t) = it.next() {
        match t {
            TokenTree::Ident(i) if i.to_string() == "enum" => { name = it.next().unwrap().to_string(); }
            TokenTree::Group(g) if g.delimiter() == Delimiter::Brace && !name.is_empty() => {
                let mut b = g.stream().into_iter().peekable();
                while let Some(t) = b.next() {
                    match t {
                        TokenTree::Punct(p) if p.as_char() == '#' => { b.next(); }
                        TokenTree::Ident(i) => {
                            let kind = match b.peek() { Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Parenthesis => 't', Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Brace => 's', _ => 'u' };
                            vars.push((i.to_string(), kind));
                            for t in b.by_ref() { if matches!(&t, TokenTree::Punct(p) if p.as_char() == ',') { break; } }
                        }
                        _ => {}
                    }
                }
            }
            _ => {}
        }
    }
    (name, vars)
}
fn arms(name: &str, vars: &[(String, char)]) -> String { vars.iter().map(|(v, k)| format!("{name}::{v}{} => \"{v}\",", match k { 't' => "(..)", 's' => "{..}", _ => "" })).collect() }
#[proc_macro_derive(IntoStaticStr, attributes(strum))]
pub fn into_static_str(input: TokenStream) -> TokenStream { let (n, v) = parse(input); let a = arms(&n, &v);
    format!("impl ::core::convert::From<&{n}> for &'static str {{ fn from(x: &{n}) -> &'static str {{ match x {{ {a} }} }} }} impl ::core::convert::From<{n}> for &'static str {{ fn from(x: {n}) -> &'static str {{ (&x).into() }} }}").parse().unwrap() }
#[proc_macro_derive(AsRefStr, attributes(strum))]
pub fn as_ref_str(input: TokenStream) -> TokenStream { let (n, v) = parse(input); let a = arms(&n, &v);
    format!("impl ::core::convert::AsRef<str> for {n} {{ fn as_ref(&self) -> &str {{ match self {{ {a} }} }} }}").parse().unwrap() }
#[proc_macro_derive(Display, attributes(strum))]
pub fn display(input: TokenStream) -> TokenStream { let (n, v) = parse(input); let a = arms(&n, &v);
    format!("impl ::core::fmt::Display for {n} {{ fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result {{ f.pad(match self {{ {a} }}) }} }}").parse().unwrap() }
#[proc_macro_derive(EnumIter, attributes(strum))]
pub fn enum_iter(input: TokenStream) -> TokenStream { let (n, v) = parse(input); let a: String = v.iter().filter(|x| x.1 == 'u').map(|(v, _)| format!("{n}::{v},")).collect();
    format!("impl ::strum::IntoEnumIterator for {n} {{ type Iterator = ::std::vec::IntoIter<{n}>; fn iter() -> Self::Iterator {{ vec![{a}].into_iter() }} }}").parse().unwrap() }
#[proc_macro_derive(EnumString, attributes(strum))]
pub fn enum_string(input: TokenStream) -> TokenStream { let (n, v) = parse(input); let a: String = v.iter().filter(|x| x.1 == 'u').map(|(v, _)| format!("\"{v}\" => Ok({n}::{v}),")).collect();
    format!("impl ::core::str::FromStr for {n} {{ type Err = ::strum::ParseError; fn from_str(s: &str) -> Result<Self, ::strum::ParseError> {{ match s {{ {a} _ => Err(::strum::ParseError::VariantNotFound) }} }} }}").parse().unwrap() }
