//! `#[bitflags]` for a `#[repr(u8)]` enum with explicit one-bit discriminants.
use proc_macro::{Delimiter, TokenStream, TokenTree};

#[proc_macro_attribute]
pub fn bitflags(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let mut name = None;
    let mut variants = vec![];
    let mut it = item.clone().into_iter().peekable();
    while let Some(t) = it.next() {
        match t {
            TokenTree::Ident(i) if i.to_string() == "enum" => {
                if let Some(TokenTree::Ident(n)) = it.next() { name = Some(n.to_string()); }
            }
            TokenTree::Group(g) if name.is_some() && g.delimiter() == Delimiter::Brace => {
                let mut start = true;
                for t in g.stream() {
                    match t {
                        TokenTree::Ident(i) if start => { variants.push(i.to_string()); start = false; }
                        TokenTree::Punct(p) if p.as_char() == ',' => start = true,
                        _ => {}
                    }
                }
            }
            _ => {}
        }
    }
    let name = name.expect("an enum");
    let all = variants.iter().map(|v| format!("({name}::{v} as u8)")).collect::<Vec<_>>().join(" | ");
    let extra = format!(
        "impl ::enumflags2::Flag for {name} {{ const ALL_BITS: u8 = {all}; fn bit(self) -> u8 {{ self as u8 }} }}
         impl ::core::ops::BitOr for {name} {{
             type Output = ::enumflags2::BitFlags<{name}>;
             fn bitor(self, r: Self) -> Self::Output {{ ::enumflags2::BitFlags::from(self) | r }}
         }}
         impl ::core::ops::BitOr<::enumflags2::BitFlags<{name}>> for {name} {{
             type Output = ::enumflags2::BitFlags<{name}>;
             fn bitor(self, r: ::enumflags2::BitFlags<{name}>) -> Self::Output {{ r | self }}
         }}"
    );
    let mut out = item;
    out.extend(extra.parse::<TokenStream>().expect("generated code"));
    out
}
