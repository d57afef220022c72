//! Stand-in for the num_enum crate: `#[derive(TryFromPrimitive)]` for enums without fields, with `#[repr(..)]`.
use proc_macro::{Delimiter, TokenStream, TokenTree};

#[proc_macro_derive(TryFromPrimitive, attributes(num_enum))]
pub fn try_from_primitive(input: TokenStream) -> TokenStream {
    let mut repr = String::from("isize");
    let mut name = None;
    let mut body = None;
    let mut it = input.into_iter().peekable();
    while let Some(t) = it.next() {
        match t {
            TokenTree::Punct(p) if p.as_char() == '#' => {
                if let Some(TokenTree::Group(g)) = it.next() {
                    let mut a = g.stream().into_iter();
                    if matches!(a.next(), Some(TokenTree::Ident(i)) if i.to_string() == "repr") {
                        if let Some(TokenTree::Group(r)) = a.next() {
                            repr = r.stream().to_string();
                        }
                    }
                }
            }
            TokenTree::Ident(i) if i.to_string() == "enum" => {
                if let Some(TokenTree::Ident(n)) = it.next() {
                    name = Some(n.to_string());
                }
                if let Some(TokenTree::Group(g)) = it.next() {
                    assert!(g.delimiter() == Delimiter::Brace, "enum with generics");
                    body = Some(g.stream());
                }
            }
            _ => {}
        }
    }
    let name = name.expect("derive(TryFromPrimitive) needs an enum");
    let mut arms = String::new();
    let mut fresh = true;
    let mut skip = false;
    for t in body.expect("an enum body") {
        match t {
            TokenTree::Punct(p) if p.as_char() == ',' => fresh = true,
            TokenTree::Punct(p) if p.as_char() == '#' => skip = true,
            TokenTree::Group(_) if skip => skip = false,
            TokenTree::Group(_) => panic!("variant with fields"),
            TokenTree::Ident(i) if fresh => {
                arms += &format!("x if x == {name}::{i} as {repr} => Ok({name}::{i}),\n");
                fresh = false;
            }
            _ => {}
        }
    }
    format!(
        "impl ::core::convert::TryFrom<{repr}> for {name} {{
            type Error = ::std::string::String;
            fn try_from(n: {repr}) -> ::core::result::Result<Self, ::std::string::String> {{
                match n {{ {arms} _ => ::core::result::Result::Err(::std::format!(\"no variant {{}}\", n)) }}
            }}
        }}"
    )
    .replace("Ok(", "::core::result::Result::Ok(")
    .parse()
    .unwrap()
}
