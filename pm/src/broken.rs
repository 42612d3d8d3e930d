//! Token streams that are no items: an error, but neither a panic nor a loop.

use crate::{item, meta, tokens};
use json_parse::enum_value::{EnumValueItem, EnumValues};
use json_parse::field::{Fields, StructFieldItem, TupleFieldItem};
use json_parse::generic::{GenericItem, Generics, WhereClause};
use json_parse::meta::{Lit, Meta, MetaItem, NestedMeta};
use json_parse::name::{Name, Type};
use json_parse::param::{ParamItem, Params};
use json_parse::{EnumItem, FnItem, Item, Parse, StructItem};
use pbt::{Cx, Src, Verdict};
use proc_macro::{Delimiter, Group, TokenStream, TokenTree};

const SCRAPS: &[&str] = &[
    "#", "#!", "#[a]", "#[]", "[]", "()", "{}", "<", ">", "<>", "<<", ">>", "->", "=>", "-", "=", "==", ":", "::", ",", ";", ".", "..", "...", "&", "&&", "+", "*", "!", "?", "|", "'a", "pub", "pub(crate)", "struct", "enum", "fn",
    "where", "const", "async", "unsafe", "extern", "extern \"C\"", "mut", "ref", "dyn", "impl", "for", "for<'a>", "as", "crate", "self", "Self", "super", "A", "T", "r#fn", "_", "1", "-1", "0x", "1.5", "1e400", "340282366920938463463374607431768211456", "\"s\"", "b\"s\"",
    "'c'", "b'c'", "c\"s\"", "r#\"s\"#", "true", "x(y)", "x = 1", "x = -1", "x == 1", "x: T", "(,)", "[,]", "{,}", "T: ", "T: 'a +", "T = u8", "'a: 'b", "const N: u8", "@", "$", "%", "~",
];

/// The group at a place of its own choosing, or the stream itself.
fn inside(s: &mut Src, v: Vec<TokenTree>, f: &mut dyn FnMut(&mut Src, Vec<TokenTree>) -> Vec<TokenTree>) -> Vec<TokenTree> {
    let groups: Vec<usize> = (0..v.len()).filter(|i| matches!(v[*i], TokenTree::Group(_))).collect();
    if groups.is_empty() || s.chance(2, 3) {
        return f(s, v);
    }
    let k = *s.pick(&groups);
    v.into_iter()
        .enumerate()
        .map(|(i, t)| match t {
            TokenTree::Group(g) if i == k => Group::new(g.delimiter(), inside(s, g.stream().into_iter().collect(), f).into_iter().collect()).into(),
            t => t,
        })
        .collect()
}

fn damage(s: &mut Src, mut v: Vec<TokenTree>) -> Vec<TokenTree> {
    let n = v.len() as u64;
    let at = if n > 0 { s.below(n) as usize } else { 0 };
    match s.below(9) {
        0 if n > 0 => {
            v.remove(at);
        }
        1 if n > 0 => {
            let t = v[at].clone();
            v.insert(at, t);
        }
        2 if n > 1 => v.swap(at, (at + 1) % n as usize),
        3 => v.truncate(at),
        4 => {
            v.drain(..at);
        }
        5 if n > 0 => {
            if let TokenTree::Group(g) = &v[at] {
                let d = *s.pick(&[Delimiter::Parenthesis, Delimiter::Bracket, Delimiter::Brace, Delimiter::None]);
                v[at] = Group::new(d, g.stream()).into();
            }
        }
        6 if n > 0 => {
            if let TokenTree::Group(g) = v[at].clone() {
                v.remove(at);
                for (i, t) in g.stream().into_iter().enumerate() {
                    v.insert(at + i, t);
                }
            }
        }
        7 if n > 0 => v[at] = Group::new(*s.pick(&[Delimiter::None, Delimiter::Parenthesis, Delimiter::Bracket]), v[at].clone().into()).into(),
        _ => {
            let scrap: Vec<TokenTree> = tokens::lex(*s.pick(SCRAPS)).into_iter().flatten().collect();
            let drop = n > 0 && s.flag();
            if drop {
                v.remove(at);
            }
            for (i, t) in scrap.into_iter().enumerate() {
                v.insert(at + i, t);
            }
        }
    }
    v
}

fn target<T: Parse + ToString>(ts: TokenStream) -> Result<String, String> {
    match json_parse::parse::<T>(ts) {
        Ok(t) => Ok(t.to_string()),
        Err(e) => Err(format!("{:?}", e)),
    }
}

type Target = (&'static str, fn(TokenStream) -> Result<String, String>);

const TARGETS: &[Target] = &[
    ("Item", target::<Item>),
    ("StructItem", target::<StructItem>),
    ("EnumItem", target::<EnumItem>),
    ("FnItem", target::<FnItem>),
    ("Meta", target::<Meta>),
    ("NestedMeta", target::<NestedMeta>),
    ("MetaItem", target::<MetaItem>),
    ("Lit", target::<Lit>),
    ("Generics", target::<Generics>),
    ("GenericItem", target::<GenericItem>),
    ("WhereClause", target::<WhereClause>),
    ("Fields", target::<Fields>),
    ("TupleFieldItem", target::<TupleFieldItem>),
    ("StructFieldItem", target::<StructFieldItem>),
    ("EnumValues", target::<EnumValues>),
    ("EnumValueItem", target::<EnumValueItem>),
    ("Params", target::<Params>),
    ("ParamItem", target::<ParamItem>),
    ("Name", target::<Name>),
    ("Type", target::<Type>),
];

fn tries(name: &str, f: fn(TokenStream) -> Result<String, String>, ts: TokenStream, cx: &mut Cx) -> Verdict {
    match pbt::no_panic(|| f(ts)) {
        Err(e) => Err(format!("parsing it as {} panics: {}", name, e)),
        Ok(Err(_)) => Ok(()),
        Ok(Ok(_)) => {
            cx.label("read all the same");
            Ok(())
        }
    }
}

/// Any of the parsers, given something damaged.
pub fn broken(s: &mut Src, cx: &mut Cx) -> Verdict {
    let text = match s.weighted(&[8, 3, 2]) {
        0 => item::text(s),
        1 => meta::text(s),
        _ => s.vec(5, 12, |s| s.pick(SCRAPS).to_string()).join(" "),
    };
    // the unmatched quotes and the like among the scraps
    let ts = match tokens::lex(&text) {
        Ok(t) => t,
        Err(_) => return Ok(()),
    };
    let mut v: Vec<TokenTree> = ts.into_iter().collect();
    for _ in 0..s.range(1, 3) {
        v = inside(s, v, &mut damage);
    }
    let ts: TokenStream = v.into_iter().collect();
    cx.case(!ts.is_empty(), || ts.to_string());
    if s.chance(2, 3) {
        tries("Item", target::<Item>, ts.clone(), cx)?;
        return tries("Meta", target::<Meta>, ts, cx);
    }
    for (name, f) in TARGETS {
        tries(name, *f, ts.clone(), cx)?;
    }
    cx.label("given to every parser");
    // a part of it, as what it is
    for t in ts {
        if let TokenTree::Group(g) = t {
            for (name, f) in TARGETS {
                tries(name, *f, g.stream(), cx)?;
                tries(name, *f, TokenTree::from(g.clone()).into(), cx)?;
            }
        }
    }
    Ok(())
}
