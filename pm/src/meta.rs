//! Attribute contents against a model of them.

use crate::tokens;
use json_parse::meta::{Lit, Meta, MetaItem};
use pbt::{text, Cx, Src, Verdict};
use proc_macro::{Delimiter, Group, Ident, Span, TokenStream, TokenTree};

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Bytes(Vec<u8>),
    Str(String),
    Int(i32),
    Float(f64),
    Bool(bool),
}

#[derive(Clone, Debug)]
pub struct MLit {
    pub val: Val,
    /// its tokens as spelled, without the sign
    pub text: String,
    pub neg: bool,
    /// a doc comment: how its text is spelled is up to the compiler
    pub doc: bool,
}

#[derive(Clone, Debug)]
pub enum MItem {
    Ident(String),
    Lit(MLit),
    Pair(String, char, MLit),
    Group(String, Vec<MItem>),
}

// ---------------------------------------------------------------------------------------------
// generators

const IDENTS: &[&str] = &[
    "a", "b", "key", "ignore", "name", "doc", "derive", "serde", "x1", "_x", "snake_case", "CamelCase", "type", "ref", "self", "crate", "r#fn", "r#in", "é", "名", "cfg_attr", "u8", "b1", "br", "r",
    "f32", "e5",
];

fn ident(s: &mut Src) -> String {
    s.pick(IDENTS).to_string()
}

fn path(s: &mut Src) -> String {
    let mut p = String::new();
    let n = s.weighted(&[12, 2, 1, 1]);
    if n == 3 {
        p.push_str("::");
    }
    for _ in 0..n {
        p.push_str(&ident(s));
        p.push_str("::");
    }
    p + &ident(s)
}

fn bytes(s: &mut Src) -> (Val, String) {
    // b'x'
    if s.chance(1, 4) {
        let c = s.below(256) as u8;
        let t = byte(s, c, b'\'');
        return (Val::Bytes(vec![c]), format!("b'{}'", t));
    }
    if s.chance(1, 3) {
        let mut v: String = s.vec(4, 16, |s| (b' ' + s.below(95) as u8) as char).into_iter().collect();
        if s.chance(1, 4) {
            v.insert_str(0, s.pick(&["\"", "\"#", "\"##", "a\"###b"]));
        }
        let mut n = s.below(3) as usize;
        while v.contains(&format!("\"{}", "#".repeat(n))) {
            n += 1;
        }
        return (Val::Bytes(v.clone().into_bytes()), format!("br{0}\"{1}\"{0}", "#".repeat(n), v));
    }
    let v = s.vec(4, 16, |s| if s.flag() { (b' ' + s.below(95) as u8) as u8 } else { s.below(256) as u8 });
    let mut t = String::new();
    for c in &v {
        if s.chance(1, 40) {
            t.push_str(s.pick(&["\\\n   ", "\\\n", "\\\n\t", "\\\n \t \n\t  "]));
            t.push_str(&format!("\\x{:02x}", c));
        } else {
            t.push_str(&byte(s, *c, b'"'));
        }
    }
    (Val::Bytes(v), format!("b\"{}\"", t))
}

fn byte(s: &mut Src, c: u8, quote: u8) -> String {
    let plain = (b' '..0x7f).contains(&c) && c != quote && c != b'\\';
    if plain && !s.chance(1, 5) {
        return (c as char).to_string();
    }
    let short = match c {
        b'\n' => "\\n",
        b'\r' => "\\r",
        b'\t' => "\\t",
        b'\\' => "\\\\",
        0 => "\\0",
        b'\'' => "\\'",
        b'"' => "\\\"",
        _ => "",
    };
    if !short.is_empty() && !s.chance(1, 4) {
        return short.into();
    }
    if s.flag() {
        format!("\\x{:02x}", c)
    } else {
        format!("\\x{:02X}", c)
    }
}

/// Underscores where they may stand: after a digit.
fn underscores(s: &mut Src, digits: &str) -> String {
    let mut o = String::new();
    for c in digits.chars() {
        o.push(c);
        if c.is_ascii_hexdigit() && s.chance(1, 6) {
            o.push_str(if s.chance(1, 4) { "__" } else { "_" });
        }
    }
    o
}

fn int(s: &mut Src) -> (Val, String, bool) {
    let v: i32 = match s.below(4) {
        0 => s.below(20) as i32 - 10,
        1 => *s.pick(&[0, 1, -1, 255, 256, 65535, 0x1f32, 0x1f64, 0xbe5, 0x0e1, i32::MAX, i32::MIN, i32::MAX - 1, i32::MIN + 1, 1_000_000]),
        2 => 1i32.wrapping_shl(s.below(32) as u32),
        _ => s.bits() as u32 as i32,
    };
    let neg = v < 0;
    let m = (v as i64).unsigned_abs();
    let base = s.weighted(&[6, 2, 1, 1]);
    let mut digits = match base {
        0 => m.to_string(),
        1 if s.flag() => format!("{:x}", m),
        1 => format!("{:X}", m),
        2 => format!("{:o}", m),
        _ => format!("{:b}", m),
    };
    if s.chance(1, 8) {
        digits.insert_str(0, "00");
    }
    if s.chance(1, 3) {
        digits = underscores(s, &digits);
    }
    if base > 0 && s.chance(1, 8) {
        digits.insert(0, '_');
    }
    let suffix = if s.chance(1, 3) {
        *s.pick(&["i32", "u8", "i64", "u128", "usize", "isize", "u16", "i8", "i128", "u32", "u64", "i16"])
    } else {
        ""
    };
    let pre = ["", "0x", "0o", "0b"][base];
    (Val::Int(v), format!("{}{}{}", pre, digits, suffix), neg)
}

fn float(s: &mut Src) -> (Val, String, bool) {
    let neg = s.chance(1, 3);
    // whole part
    let mut t = match s.below(3) {
        0 => s.below(10).to_string(),
        1 => s.below(1_000_000_000_000).to_string(),
        _ => format!("{}{}", s.below(1000), "0".repeat(s.below(20) as usize)),
    };
    if s.chance(1, 4) {
        t = underscores(s, &t);
    }
    let fraction = s.weighted(&[6, 1, 2]);
    match fraction {
        0 => {
            let d = s.range(1, 18);
            let mut f: String = (0..d).map(|_| (b'0' + s.below(10) as u8) as char).collect();
            if s.chance(1, 4) {
                f = underscores(s, &f);
            }
            t.push('.');
            t.push_str(&f);
        }
        1 => {
            t.push('.');
            return (Val::Float(value(&t, neg)), t, neg);
        }
        _ => (),
    }
    let exp = fraction == 2 || s.chance(1, 3);
    if exp {
        t.push(if s.flag() { 'e' } else { 'E' });
        t.push_str(*s.pick(&["", "+", "-"]));
        let e = s.below(30).to_string();
        t.push_str(&e);
        if s.chance(1, 8) {
            t.push('_');
        }
    }
    let v = value(&t, neg);
    if s.chance(1, 3) {
        t.push_str(if s.flag() { "f64" } else { "f32" });
    } else if fraction == 2 && !exp {
        t.push_str("f64");
    }
    (Val::Float(v), t, neg)
}

fn value(t: &str, neg: bool) -> f64 {
    let v: f64 = t.replace('_', "").parse().expect("float");
    if neg {
        -v
    } else {
        v
    }
}

pub fn lit(s: &mut Src) -> MLit {
    let (val, text, neg) = match s.weighted(&[3, 3, 1, 3, 3]) {
        0 => int(s),
        1 => {
            let mut v = text::string(s);
            if s.chance(1, 8) {
                v.push_str(s.pick(&["\"", "\"#", "\"##", "a\"###b"]));
            }
            let t = text::rust_string(s, &v);
            (Val::Str(v), t, false)
        }
        2 => {
            let b = s.flag();
            (Val::Bool(b), b.to_string(), false)
        }
        3 => {
            let (v, t) = bytes(s);
            (v, t, false)
        }
        _ => float(s),
    };
    MLit { val, text, neg, doc: false }
}

pub fn item(s: &mut Src, depth: u32) -> MItem {
    match s.weighted(&[3, 3, 5, if depth > 0 { 4 } else { 0 }]) {
        0 => MItem::Ident(path(s)),
        1 => MItem::Lit(lit(s)),
        2 => MItem::Pair(path(s), if s.chance(1, 3) { ':' } else { '=' }, lit(s)),
        _ => MItem::Group(path(s), s.vec(3, 6, |s| item(s, depth - 1))),
    }
}

fn doc(s: &mut Src) -> (MItem, String) {
    let v: String = s
        .vec(4, 12, |s| match s.below(4) {
            0 => ' ',
            1 => *s.pick(&['"', '\\', '#', '/', '\'', '*', '[', ']', '=', 'é', '💖']),
            _ => (b'a' + s.below(26) as u8) as char,
        })
        .into_iter()
        .collect();
    let block = s.flag();
    let (v, t) = if block {
        let v = format!(" {} ", v.replace('*', "+").replace('/', "|"));
        (v.clone(), format!("/**{}*/", v))
    } else {
        let v = if v.starts_with('/') { format!(" {}", v) } else { v };
        (v.clone(), format!("///{}\n", v))
    };
    (MItem::Pair("doc".into(), '=', MLit { val: Val::Str(v), text: String::new(), neg: false, doc: true }), t)
}

// ---------------------------------------------------------------------------------------------
// writing

/// White space or a comment or, mostly, nothing.
pub fn gap(s: &mut Src) -> &'static str {
    match s.weighted(&[8, 3, 1, 1, 1]) {
        0 => "",
        1 => " ",
        2 => "\n    ",
        3 => "/* x, ] */",
        _ => "// y )\n",
    }
}

fn write_path(s: &mut Src, p: &str, o: &mut String) {
    let mut first = true;
    for seg in p.split("::") {
        if !first {
            o.push_str("::");
            o.push_str(gap(s));
        }
        first = false;
        o.push_str(seg);
        if !seg.is_empty() {
            o.push_str(gap(s));
        }
    }
}

fn write_lit(s: &mut Src, l: &MLit, o: &mut String) {
    if l.neg {
        o.push('-');
        o.push_str(gap(s));
    }
    o.push_str(&l.text);
}

pub fn write(s: &mut Src, m: &MItem, o: &mut String) {
    o.push_str(gap(s));
    match m {
        MItem::Ident(p) => write_path(s, p, o),
        MItem::Lit(l) => write_lit(s, l, o),
        MItem::Pair(k, eq, l) => {
            write_path(s, k, o);
            o.push_str(gap(s));
            o.push(*eq);
            o.push_str(gap(s));
            write_lit(s, l, o);
        }
        MItem::Group(k, items) => {
            write_path(s, k, o);
            o.push('(');
            o.push_str(gap(s));
            for (i, x) in items.iter().enumerate() {
                write(s, x, o);
                if i + 1 < items.len() || s.chance(1, 4) {
                    o.push(',');
                }
            }
            o.push(')');
        }
    }
    o.push_str(gap(s));
}

/// Attributes and how they are written, each ending where another token may begin.
pub fn attrs(s: &mut Src, avg: u64, depth: u32) -> (Vec<MItem>, String) {
    let mut items = Vec::new();
    let mut o = String::new();
    let (avg, max) = s.long(avg, 8);
    while s.more(items.len(), avg, max) {
        if s.chance(1, 6) {
            let (m, t) = doc(s);
            items.push(m);
            o.push_str(&t);
        } else {
            let m = item(s, depth);
            o.push('#');
            o.push_str(gap(s));
            o.push('[');
            write(s, &m, &mut o);
            o.push(']');
            o.push_str(gap(s));
            items.push(m);
        }
    }
    (items, o)
}

/// Some literals in an invisible group of their own, as `$x:literal` and `$x:expr` come.
pub fn wrap(s: &mut Src, ts: TokenStream) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut o: Vec<TokenTree> = Vec::new();
    for t in v {
        match t {
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), wrap(s, g.stream()));
                n.set_span(g.span());
                o.push(n.into());
            }
            TokenTree::Literal(l) if s.chance(1, 2) => {
                let mut inner: Vec<TokenTree> = Vec::new();
                if let Some(TokenTree::Punct(p)) = o.last() {
                    if p.as_char() == '-' && s.flag() {
                        inner.push(o.pop().unwrap());
                    }
                }
                inner.push(l.into());
                o.push(Group::new(Delimiter::None, inner.into_iter().collect()).into());
            }
            other => o.push(other),
        }
    }
    o.into_iter().collect()
}

// ---------------------------------------------------------------------------------------------
// comparing

pub fn same_lit(m: &MLit, l: &Lit) -> Verdict {
    let ok = match (&m.val, l) {
        (Val::Bytes(a), Lit::Bytes { bytes, .. }) => a == bytes,
        (Val::Str(a), Lit::String { string, .. }) => a == string,
        (Val::Int(a), Lit::Integer { integer, .. }) => a == integer,
        (Val::Float(a), Lit::Float { float, .. }) => {
            a.to_bits() == float.to_bits() || (m.text.ends_with("f32") && (*a as f32) == (*float as f32))
        }
        (Val::Bool(a), Lit::Boolean { boolean, .. }) => a == boolean,
        _ => false,
    };
    if !ok {
        return Err(format!("the literal {}{} has the value {:?}, read as {:?}", if m.neg { "-" } else { "" }, m.text, m.val, l));
    }
    let acc = [
        (matches!(m.val, Val::Bytes(_)), l.bytes().is_some(), "bytes"),
        (matches!(m.val, Val::Str(_)), l.string().is_some(), "string"),
        (matches!(m.val, Val::Int(_)), l.integer().is_some(), "integer"),
        (matches!(m.val, Val::Float(_)), l.float().is_some(), "float"),
        (matches!(m.val, Val::Bool(_)), l.boolean().is_some(), "boolean"),
    ];
    for (want, got, name) in acc {
        if want != got {
            return Err(format!("Lit::{}() of {:?} is_some() = {}", name, l, got));
        }
    }
    let value = match l {
        Lit::Bytes { bytes, .. } => l.bytes() == Some(&bytes[..]),
        Lit::String { string, .. } => l.string() == Some(&string[..]),
        Lit::Integer { integer, .. } => l.integer() == Some(*integer),
        Lit::Float { float, .. } => l.float().map(|x| x.to_bits()) == Some(float.to_bits()),
        Lit::Boolean { boolean, .. } => l.boolean() == Some(*boolean),
    };
    if !value {
        return Err(format!("the accessor of {:?} gives another value", l));
    }
    // printed, it is the same token
    if !m.doc {
        let want = format!("{}{}", if m.neg { "-" } else { "" }, m.text);
        if tokens::norm(&l.to_string())? != tokens::norm(&want)? {
            return Err(format!("the literal {} prints as {}", want, l.to_string()));
        }
    }
    Ok(())
}

pub fn same_item(m: &MItem, i: &MetaItem) -> Verdict {
    let acc = [i.ident().is_some(), i.literal().is_some(), i.pair().is_some(), i.group().is_some()];
    let want = [matches!(m, MItem::Ident(_)), matches!(m, MItem::Lit(_)), matches!(m, MItem::Pair(..)), matches!(m, MItem::Group(..))];
    if acc != want {
        return Err(format!("{:?} is read as {:?}, with accessors {:?}", m, i, acc));
    }
    match m {
        MItem::Ident(p) => eq("ident", i.ident(), Some(p.as_str())),
        MItem::Lit(l) => same_lit(l, i.literal().unwrap()),
        MItem::Pair(k, e, l) => {
            let (key, lit) = i.pair().unwrap();
            eq("key", key, k.as_str())?;
            if let MetaItem::Pair { eq: c, .. } = i {
                eq("eq", c, e)?;
            }
            same_lit(l, lit)
        }
        MItem::Group(k, inner) => {
            let (name, meta) = i.group().unwrap();
            eq("group name", name, k.as_str())?;
            same_items(inner, &meta.items)?;
            access(inner, meta)
        }
    }
}

pub fn same_items(ms: &[MItem], is: &[MetaItem]) -> Verdict {
    if ms.len() != is.len() {
        return Err(format!("{} items are read as {}: {:?} as {:?}", ms.len(), is.len(), ms, is));
    }
    for (m, i) in ms.iter().zip(is) {
        same_item(m, i)?;
    }
    Ok(())
}

pub fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Verdict {
    if got == want {
        Ok(())
    } else {
        Err(format!("{}: {:?}, expected {:?}", what, got, want))
    }
}

const STRANGERS: &[&str] = &["", "stranger", "doc ", "a:: b", "A", "0"];

/// Every accessor of a meta against the model.
pub fn access(ms: &[MItem], meta: &Meta) -> Verdict {
    // by position
    let positional: Vec<&MItem> = ms.iter().filter(|m| matches!(m, MItem::Ident(_) | MItem::Lit(_))).collect();
    for n in 0..positional.len() + 2 {
        for got in [meta.get(n), meta.get(&n)] {
            match (positional.get(n), got) {
                (None, None) => (),
                (Some(m), Some(i)) => same_item(m, i).map_err(|e| format!("get({}): {}", n, e))?,
                (m, i) => return Err(format!("get({}) = {:?}, expected {:?}", n, i, m)),
            }
        }
    }
    // collected
    let idents: Vec<&str> = ms.iter().filter_map(|m| if let MItem::Ident(p) = m { Some(p.as_str()) } else { None }).collect();
    eq("idents()", meta.idents(), idents)?;
    let lits: Vec<&MLit> = ms.iter().filter_map(|m| if let MItem::Lit(l) = m { Some(l) } else { None }).collect();
    let got = meta.literals();
    eq("literals().len()", got.len(), lits.len())?;
    for (m, l) in lits.iter().zip(got) {
        same_lit(m, l)?;
    }
    // by name
    let pairs: Vec<(&str, &MLit)> = ms.iter().filter_map(|m| if let MItem::Pair(k, _, l) = m { Some((k.as_str(), l)) } else { None }).collect();
    let groups: Vec<(&str, &Vec<MItem>)> = ms.iter().filter_map(|m| if let MItem::Group(k, g) = m { Some((k.as_str(), g)) } else { None }).collect();
    let mut names: Vec<&str> = ms
        .iter()
        .filter_map(|m| match m {
            MItem::Ident(k) | MItem::Pair(k, ..) | MItem::Group(k, _) => Some(k.as_str()),
            MItem::Lit(_) => None,
        })
        .collect();
    names.extend(STRANGERS);
    names.sort();
    names.dedup();
    let (gp, gg) = (meta.pairs(), meta.groups());
    for name in names.iter().copied() {
        let first = pairs.iter().find(|p| p.0 == name);
        match (first, meta.get(name)) {
            (None, None) => (),
            (Some(m), Some(l)) => same_lit(m.1, l).map_err(|e| format!("get({:?}): {}", name, e))?,
            (m, l) => return Err(format!("get({:?}) = {:?}, expected {:?}", name, l, m)),
        }
        match (first, gp.get(name)) {
            (None, None) => (),
            (Some(_), Some(l)) => {
                if !pairs.iter().any(|p| p.0 == name && same_lit(p.1, l).is_ok()) {
                    return Err(format!("pairs()[{:?}] = {:?} is none of the pairs so named: {:?}", name, l, pairs));
                }
            }
            (m, l) => return Err(format!("pairs()[{:?}] = {:?}, expected {:?}", name, l, m)),
        }
        let first = groups.iter().find(|p| p.0 == name);
        match (first, meta.get((name, ()))) {
            (None, None) => (),
            (Some(m), Some(g)) => {
                same_items(m.1, &g.items).map_err(|e| format!("get(({:?}, ())): {}", name, e))?;
                nested(name, m.1, meta)?;
            }
            (m, g) => return Err(format!("get(({:?}, ())) = {:?}, expected {:?}", name, g, m)),
        }
        match (first, gg.get(name)) {
            (None, None) => (),
            (Some(_), Some(g)) => {
                if !groups.iter().any(|p| p.0 == name && same_items(p.1, &g.items).is_ok()) {
                    return Err(format!("groups()[{:?}] is none of the groups so named", name));
                }
            }
            (m, g) => return Err(format!("groups()[{:?}] = {:?}, expected {:?}", name, g, m)),
        }
        if first.is_none() {
            if meta.get((name, 0usize)).is_some() || meta.get((name, "a")).is_some() || meta.get((name, ("a", ()))).is_some() {
                return Err(format!("there is no group {:?}, and yet get finds something in it", name));
            }
        }
    }
    eq("pairs().len()", gp.len(), count(pairs.iter().map(|p| p.0)))?;
    eq("groups().len()", gg.len(), count(groups.iter().map(|p| p.0)))
}

fn count<'a>(i: impl Iterator<Item = &'a str>) -> usize {
    i.collect::<std::collections::HashSet<_>>().len()
}

/// The accessors that go through a group.
fn nested(name: &str, inner: &[MItem], meta: &Meta) -> Verdict {
    let positional: Vec<&MItem> = inner.iter().filter(|m| matches!(m, MItem::Ident(_) | MItem::Lit(_))).collect();
    for n in 0..positional.len() + 2 {
        match (positional.get(n), meta.get((name, n))) {
            (None, None) => (),
            (Some(m), Some(i)) => same_item(m, i).map_err(|e| format!("get(({:?}, {})): {}", name, n, e))?,
            (m, i) => return Err(format!("get(({:?}, {})) = {:?}, expected {:?}", name, n, i, m)),
        }
    }
    let mut names: Vec<&str> = inner
        .iter()
        .filter_map(|m| match m {
            MItem::Ident(k) | MItem::Pair(k, ..) | MItem::Group(k, _) => Some(k.as_str()),
            MItem::Lit(_) => None,
        })
        .collect();
    names.extend(STRANGERS);
    for k in names {
        let pair = inner.iter().find_map(|m| match m {
            MItem::Pair(n, _, l) if n == k => Some(l),
            _ => None,
        });
        match (pair, meta.get((name, k))) {
            (None, None) => (),
            (Some(m), Some(l)) => same_lit(m, l).map_err(|e| format!("get(({:?}, {:?})): {}", name, k, e))?,
            (m, l) => return Err(format!("get(({:?}, {:?})) = {:?}, expected {:?}", name, k, l, m)),
        }
        let group = inner.iter().find_map(|m| match m {
            MItem::Group(n, g) if n == k => Some(g),
            _ => None,
        });
        match (group, meta.get((name, (k, ())))) {
            (None, None) => (),
            (Some(m), Some(g)) => {
                same_items(m, &g.items).map_err(|e| format!("get(({:?}, ({:?}, ()))): {}", name, k, e))?;
                // one level further down
                let first = m.iter().find(|m| matches!(m, MItem::Ident(_) | MItem::Lit(_)));
                match (first, meta.get((name, (k, 0usize)))) {
                    (None, None) => (),
                    (Some(m), Some(i)) => same_item(m, i)?,
                    (m, i) => return Err(format!("get(({:?}, ({:?}, 0))) = {:?}, expected {:?}", name, k, i, m)),
                }
                for x in m {
                    if let MItem::Pair(n, ..) = x {
                        let first = m
                            .iter()
                            .find_map(|y| match y {
                                MItem::Pair(o, _, l) if o == n => Some(l),
                                _ => None,
                            })
                            .unwrap();
                        match meta.get((name, (k, n.as_str()))) {
                            Some(l) => same_lit(first, l)?,
                            None => return Err(format!("get(({:?}, ({:?}, {:?}))) is None", name, k, n)),
                        }
                    }
                }
            }
            (m, g) => return Err(format!("get(({:?}, ({:?}, ()))) = {:?}, expected {:?}", name, k, g, m)),
        }
    }
    Ok(())
}

/// Has it anything but plain identifiers?
pub fn rich(ms: &[MItem]) -> bool {
    ms.len() > 1 && ms.iter().any(|m| !matches!(m, MItem::Ident(_)))
}

fn labels(ms: &[MItem], cx: &mut Cx) {
    for m in ms {
        match m {
            MItem::Ident(p) => {
                cx.label("identifier");
                cx.label_if(p.contains("::"), "path");
            }
            MItem::Lit(l) => lit_label(l, cx),
            MItem::Pair(_, e, l) => {
                cx.label(if *e == '=' { "pair with =" } else { "pair with :" });
                cx.label_if(l.doc, "doc comment");
                lit_label(l, cx);
            }
            MItem::Group(_, g) => {
                cx.label(if g.is_empty() { "empty group" } else { "group" });
                cx.label_if(g.iter().any(|x| matches!(x, MItem::Group(..))), "nested group");
                labels(g, cx);
            }
        }
    }
}

fn lit_label(l: &MLit, cx: &mut Cx) {
    cx.label_if(l.neg, "negative number");
    cx.label(match l.val {
        Val::Bytes(_) => "byte string",
        Val::Str(_) if l.text.starts_with('r') => "raw string",
        Val::Str(_) => "string",
        Val::Int(_) if l.text.starts_with("0x") => "hexadecimal integer",
        Val::Int(_) => "integer",
        Val::Float(_) => "float",
        Val::Bool(_) => "boolean",
    });
}

// ---------------------------------------------------------------------------------------------
// suites

const AFTER: &[&str] = &[
    "struct S;",
    "",
    "pub struct S { #[inner(x)] a: i32 }",
    "enum E { #[a] A, B }",
    "fn f(a: i32) -> i32 { a }",
    "pub(crate) x: Vec<u8>",
    "A = 1",
    "T: Clone",
];

fn parse(ts: TokenStream) -> Result<Meta, String> {
    match pbt::no_panic(|| json_parse::parse::<Meta>(ts)) {
        Ok(Ok(m)) => Ok(m),
        Ok(Err(e)) => Err(format!("not read: {:?}", e)),
        Err(e) => Err(format!("parsing panics: {}", e)),
    }
}

/// The text of some attributes.
pub fn text(s: &mut Src) -> String {
    let (_, mut t) = attrs(s, 3, 3);
    t.push_str(*s.pick(AFTER));
    t
}

/// Attributes in front of something.
pub fn attributes(s: &mut Src, cx: &mut Cx) -> Verdict {
    let (ms, mut t) = attrs(s, 3, 3);
    let mut after = *s.pick(AFTER);
    if ms.is_empty() && after.is_empty() {
        after = AFTER[0];
    }
    t.push_str(after);
    labels(&ms, cx);
    let wrapped = s.chance(1, 5);
    cx.case(rich(&ms), || if wrapped { format!("{} (literals in invisible groups)", t) } else { t.clone() });
    let mut ts = tokens::lex(&t)?;
    if wrapped {
        cx.label("invisible groups");
        ts = wrap(s, ts);
    }
    let meta = parse(ts)?;
    same_items(&ms, &meta.items)?;
    access(&ms, &meta)?;
    // printed and read again
    let p = meta.to_string();
    if ms.is_empty() {
        return eq("the printed text of no attributes", tokens::norm(&p)?, String::new());
    }
    let again = parse(tokens::lex(&p)?).map_err(|e| format!("printed as {:?}: {}", p, e))?;
    same_items(&ms, &again.items).map_err(|e| format!("printed as {:?} and read again: {}", p, e))
}

/// One literal, one item by itself.
pub fn literals(s: &mut Src, cx: &mut Cx) -> Verdict {
    let l = lit(s);
    lit_label(&l, cx);
    let t = if l.neg { format!("-{}", l.text) } else { l.text.clone() };
    cx.case(true, || t.clone());
    if !l.neg {
        let got = match pbt::no_panic(|| json_parse::parse::<Lit>(tokens::lex(&t)?).map_err(|e| format!("{:?}", e))) {
            Ok(r) => r.map_err(|e| format!("not read: {}", e))?,
            Err(e) => return Err(format!("parsing panics: {}", e)),
        };
        same_lit(&l, &got)?;
        let again = json_parse::parse::<Lit>(tokens::lex(&got.to_string())?).map_err(|e| format!("printed as {}: {:?}", got.to_string(), e))?;
        same_lit(&l, &again)?;
    }
    let m = MItem::Lit(l.clone());
    let got = match pbt::no_panic(|| json_parse::parse::<MetaItem>(tokens::lex(&t)?).map_err(|e| format!("{:?}", e))) {
        Ok(r) => r.map_err(|e| format!("not read: {}", e))?,
        Err(e) => return Err(format!("parsing panics: {}", e)),
    };
    same_item(&m, &got)?;
    // an identifier is no literal
    let i = TokenStream::from(TokenTree::Ident(Ident::new("x", Span::call_site())));
    match json_parse::parse::<Lit>(i) {
        Err(_) => Ok(()),
        Ok(l) => Err(format!("the identifier x is read as the literal {:?}", l)),
    }
}
