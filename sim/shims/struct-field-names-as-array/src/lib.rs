//! Stand-in for struct-field-names-as-array: derives `const FIELD_NAMES_AS_ARRAY: [&'static str; N]`.
use proc_macro::*;
#[proc_macro_derive(FieldNamesAsArray, attributes(field_names_as_array))]
pub fn derive(input: TokenStream) -> TokenStream {
    let mut it = input.into_iter();
    let (mut name, mut fields) = (String::new(), vec![]);
    while let Some(t) = it.next() {
        match t {
            TokenTree::Ident(i) if i.to_string() == "struct" => name = it.next().unwrap().to_string(),
            TokenTree::Group(g) if g.delimiter() == Delimiter::Brace && !name.is_empty() => {
                // field = last ident before a ':' that is not part of '::', at angle depth 0, once per comma
                let mut last = String::new();
                let (mut have, mut depth, mut joint) = (false, 0i32, false);
                for t in g.stream() {
                    match &t {
                        TokenTree::Ident(i) => { if !have { last = i.to_string(); } joint = false; }
                        TokenTree::Punct(p) => { match p.as_char() {
                            ':' if !have && !joint && p.spacing() == Spacing::Alone => { fields.push(last.clone()); have = true; }
                            '<' => depth += 1, '>' => depth -= 1,
                            ',' if depth == 0 => have = false, _ => {} }
                            joint = p.spacing() == Spacing::Joint; }
                        _ => joint = false,
                    }
                }
            }
            _ => {}
        }
    }
    let list: Vec<String> = fields.iter().map(|f| format!("\"{}\"", f.trim_start_matches("r#"))).collect();
    format!("impl {name} {{ pub const FIELD_NAMES_AS_ARRAY: [&'static str; {}] = [{}]; }}", list.len(), list.join(", ")).parse().unwrap()
}
