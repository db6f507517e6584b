// Stand-ins for the derive macros of SCALE and Substrate: a plain struct of integers gets a working
// little-endian encoding, everything else gets nothing.
extern crate proc_macro;
use proc_macro::{Delimiter, TokenStream, TokenTree};
fn plain(input: TokenStream) -> Option<(String, Vec<String>)> {
    let v: Vec<TokenTree> = input.into_iter().collect();
    let k = v.iter().position(|t| t.to_string() == "struct")?;
    let name = v.get(k + 1)?.to_string();
    match v.get(k + 2)? {
        TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => {
            let b: Vec<TokenTree> = g.stream().into_iter().collect();
            let (mut fs, mut depth) = (vec![], 0i32);
            for i in 0..b.len() {
                match b[i].to_string().as_str() {
                    "<" => depth += 1,
                    ">" => depth -= 1,
                    ":" if depth == 0 && i > 0 && !matches!(b.get(i + 1).map(|x| x.to_string()).as_deref(), Some(":")) && b[i - 1].to_string() != ":" => {
                        if !matches!(b.get(i + 1)?.to_string().as_str(), "u8" | "u16" | "u32" | "u64" | "u128") { return None }
                        if let TokenTree::Ident(n) = &b[i - 1] { fs.push(n.to_string()) }
                    },
                    _ => {},
                }
            }
            Some((name, fs))
        },
        _ => None,
    }
}
#[proc_macro_derive(Encode, attributes(codec))]
pub fn encode(i: TokenStream) -> TokenStream {
    match plain(i) {
        Some((n, f)) => format!("impl ::parity_scale_codec::Encode for {n} {{ fn encode(&self) -> Vec<u8> {{ let mut o = Vec::new(); {} o }} }}", f.iter().map(|x| format!("o.extend(::parity_scale_codec::Encode::encode(&self.{x}));")).collect::<String>()).parse().unwrap(),
        None => TokenStream::new(),
    }
}
#[proc_macro_derive(Decode, attributes(codec))]
pub fn decode(i: TokenStream) -> TokenStream {
    match plain(i) {
        Some((n, f)) => format!("impl ::parity_scale_codec::Decode for {n} {{ fn decode(i: &mut &[u8]) -> Result<Self, ()> {{ Ok(Self {{ {} }}) }} }}", f.iter().map(|x| format!("{x}: ::parity_scale_codec::Decode::decode(i)?,")).collect::<String>()).parse().unwrap(),
        None => TokenStream::new(),
    }
}
macro_rules! nothing { ($($n:ident $f:ident $($a:ident)*;)*) => { $(#[proc_macro_derive($n, attributes($($a),*))] pub fn $f(_: TokenStream) -> TokenStream { TokenStream::new() })* } }
nothing! { MaxEncodedLen max_encoded_len codec; TypeInfo type_info scale_info; RuntimeDebug runtime_debug; RuntimeDebugNoBound runtime_debug_nb; PartialEqNoBound partial_eq_nb; EqNoBound eq_nb; Serialize serialize serde; Deserialize deserialize serde; }
