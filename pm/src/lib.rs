//! The parser (json_parse) and the quoting macro only work while a procedural macro is expanded:
//! there is no token stream outside. So their properties are checked in there; `run!()` does the
//! work described by the environment (see inside.rs) and expands to nothing.

extern crate proc_macro;

mod broken;
mod inside;
mod item;
mod meta;
mod part;
mod tokens;

use proc_macro::TokenStream;

#[proc_macro]
pub fn run(_: TokenStream) -> TokenStream {
    inside::main(&[
        pbt::Suite { name: "attributes", kind: pbt::Kind::Random { quick: 0, thorough: 0, f: meta::attributes } },
        pbt::Suite { name: "literals", kind: pbt::Kind::Random { quick: 0, thorough: 0, f: meta::literals } },
        pbt::Suite { name: "items", kind: pbt::Kind::Random { quick: 0, thorough: 0, f: item::items } },
        pbt::Suite { name: "parts", kind: pbt::Kind::Random { quick: 0, thorough: 0, f: part::parts } },
        pbt::Suite { name: "helpers", kind: pbt::Kind::Random { quick: 0, thorough: 0, f: part::helpers } },
        pbt::Suite { name: "broken", kind: pbt::Kind::Random { quick: 0, thorough: 0, f: broken::broken } },
    ]);
    TokenStream::new()
}
