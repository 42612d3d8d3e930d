//! The parts of an item given to their own parsers, and the helpers parsers are built of.

use crate::item::*;
use crate::tokens::{self, norm};
use json_parse::enum_value::{EnumValueItem, EnumValues};
use json_parse::field::{Fields, StructFieldItem, TupleFieldItem};
use json_parse::generic::{GenericItem, Generics, WhereClause};
use json_parse::name::{Name, Type};
use json_parse::param::{ParamItem, Params};
use json_parse::{utils, EnumItem, FnItem, Item, Parse, StructItem};
use pbt::{Cx, Src, Verdict};
use proc_macro::{Delimiter, Group, TokenStream, TokenTree};
use std::convert::TryFrom;
use std::fmt::Debug;

fn parse<T: Parse>(what: &str, ts: TokenStream) -> Result<T, String> {
    match pbt::no_panic(|| json_parse::parse::<T>(ts)) {
        Ok(Ok(m)) => Ok(m),
        Ok(Err(e)) => Err(format!("not read as {}: {:?}", what, e)),
        Err(e) => Err(format!("parsing it as {} panics: {}", what, e)),
    }
}

/// Read, compared, printed, read and compared again.
fn both<T: Parse + ToString>(what: &str, ts: TokenStream, same: &dyn Fn(&T) -> Verdict) -> Verdict {
    let t: T = parse(what, ts)?;
    same(&t).map_err(|e| format!("as {}: {}", what, e))?;
    let p = t.to_string();
    if p.is_empty() {
        return Ok(());
    }
    let of = |e: String| format!("as {}: printed as {:?}: {}", what, p, e);
    let again: T = parse(what, tokens::lex(&p).map_err(of)?).map_err(of)?;
    same(&again).map_err(|e| format!("as {}: printed as {:?} and read again: {}", what, p, e))
}

/// The same between other brackets is not what it was.
fn others<T: Parse + ToString>(what: &str, ts: &TokenStream, not: &[Delimiter]) -> Verdict {
    for d in not {
        let other: TokenStream = ts
            .clone()
            .into_iter()
            .map(|t| match t {
                TokenTree::Group(g) => Group::new(*d, g.stream()).into(),
                t => t,
            })
            .collect();
        match pbt::no_panic(|| json_parse::parse::<T>(other.clone())) {
            Ok(Err(_)) => (),
            Ok(Ok(t)) => return Err(format!("{:?} is read as {}: {}", other.to_string(), what, t.to_string())),
            Err(e) => return Err(format!("parsing {:?} as {} panics: {}", other.to_string(), what, e)),
        }
    }
    Ok(())
}

pub fn parts(s: &mut Src, cx: &mut Cx) -> Verdict {
    let all = Cxt { plus: true, braces: true, objects: true, colons: true };
    let frag = s.chance(1, 4);
    let text: String;
    let made = |s: &mut Src, cx: &mut Cx, t: &str| -> Result<TokenStream, String> {
        let t = spaced(s, t, frag);
        cx.label_if(frag && t.contains(OPEN), "invisible groups");
        cx.case_ref(t.len() > 8, &t);
        let ts = tokens::lex(&t)?;
        Ok(if frag { fragments(ts) } else { ts })
    };
    match s.below(14) {
        0 => {
            cx.label("type");
            let m = ty(s, 4, all);
            let ts = made(s, cx, &m.text)?;
            both::<Type>("a type", ts, &|t| same_type("type", &m, t))
        }
        1 => {
            cx.label("argument");
            let m = arg(s, 4, all);
            let ts = made(s, cx, &m.text)?;
            both::<Type>("an argument", ts, &|t| same_type("argument", &m, t))
        }
        2 => {
            cx.label("name");
            let m = match s.below(4) {
                0 => plain(*s.pick(LIVES)),
                1 => path(s, 3, TYPES, all),
                2 => bound(s, 3, all),
                _ => path(s, 3, TRAITS, all),
            };
            let ts = made(s, cx, &m.text)?;
            both::<Name>("a name", ts, &|t| same_name("name", &m, t))
        }
        3 => {
            cx.label("parameter of a type");
            let v = loop {
                let v = generics(s, true);
                if !v.is_empty() {
                    break v;
                }
            };
            let g = &v[0];
            text = generic_text(g);
            let ts = made(s, cx, &text)?;
            both::<GenericItem>("a parameter", ts, &|t| same_generic("parameter", g, t))
        }
        4 => {
            cx.label("generics");
            let v = generics(s, true);
            text = generics_text(&v, s);
            let ts = made(s, cx, &text)?;
            let v = Some(v);
            both::<Generics>("generics", ts, &|t| same_generics(&v, Some(t)))
        }
        5 => {
            cx.label("where clause");
            let v = wheres(s);
            let mut t = wheres_text(&v, s);
            t.push_str(*s.pick(&["", "{\u{1}}", ";"]));
            let ts = made(s, cx, &t)?;
            let v = Some(v);
            both::<WhereClause>("a where clause", ts, &|t| same_wheres(&v, Some(t)))
        }
        6 => {
            cx.label("fields");
            let mut t = String::new();
            let kind = s.below(3);
            let in_enum = s.flag();
            let m = fields(s, kind, in_enum, &mut t);
            if kind == 0 {
                t.push(';');
            }
            let ts = made(s, cx, &t)?;
            if kind > 0 && !frag {
                others::<Fields>("fields", &ts, &[Delimiter::Bracket])?;
            }
            both::<Fields>("fields", ts, &|t| same_fields(&m, t))
        }
        7 => {
            cx.label("field");
            let (m, t) = field(s, 2, false);
            let ts = made(s, cx, &t)?;
            both::<StructFieldItem>("a field", ts, &|t| same_named_field(&m, t))
        }
        8 => {
            cx.label("field of a tuple");
            let (m, t) = field(s, 1, false);
            let ts = made(s, cx, &t)?;
            both::<TupleFieldItem>("a field", ts, &|t| same_tuple_field(0, &m, t))
        }
        9 => {
            cx.label("variants");
            let mut t = String::new();
            let m = values(s, &mut t);
            let ts = made(s, cx, &t)?;
            if !frag {
                others::<EnumValues>("variants", &ts, &[Delimiter::Bracket, Delimiter::Parenthesis])?;
            }
            both::<EnumValues>("variants", ts, &|t| same_values(&m, t))
        }
        10 => {
            cx.label("variant");
            let (m, t) = value(s);
            let ts = made(s, cx, &t)?;
            both::<EnumValueItem>("a variant", ts, &|t| same_value(&m, t))
        }
        11 => {
            cx.label("parameters");
            let mut t = String::new();
            let m = params(s, &mut t);
            let ts = made(s, cx, &t)?;
            if !frag {
                others::<Params>("parameters", &ts, &[Delimiter::Bracket, Delimiter::Brace])?;
            }
            both::<Params>("parameters", ts, &|t| same_params(&m, t))
        }
        13 => {
            cx.label("item");
            let m = model(s);
            let ts = made(s, cx, &m.text)?;
            let read = [
                json_parse::parse::<StructItem>(ts.clone()).map(Item::Struct),
                json_parse::parse::<EnumItem>(ts.clone()).map(Item::Enum),
                json_parse::parse::<FnItem>(ts.clone()).map(Item::Fn),
            ];
            let want = match m.kind {
                MKind::Struct(_) => 0,
                MKind::Enum(_) => 1,
                MKind::Fn { .. } => 2,
            };
            for (i, r) in read.iter().enumerate() {
                if let (Ok(r), true) = (r, i != want) {
                    return Err(format!("read as what it is not: {}", r.to_string()));
                }
            }
            match &read[want] {
                Ok(i) => same(&m, i),
                Err(e) => Err(format!("not read as what it is: {:?}", e)),
            }
        }
        _ => {
            cx.label("parameter");
            let (m, t) = if s.chance(1, 4) { receiver(s, all) } else { param(s, all) };
            let ts = made(s, cx, &t)?;
            both::<ParamItem>("a parameter", ts, &|t| same_param(&m, t))
        }
    }
}

// ---------------------------------------------------------------------------------------------
// helpers

fn flat(v: &[TokenStream]) -> Vec<String> {
    v.iter().map(|t| tokens::flat(t.clone()).join(" ")).collect()
}

/// Types between separators: the pieces are the types.
fn splits(s: &mut Src, cx: &mut Cx) -> Verdict {
    let c = Cxt { plus: false, braces: true, objects: true, colons: true };
    let sep = *s.pick(&[",", "+", "=", "::", "=>", ";", "&&", "..=", "-", "->", "|"]);
    let n = s.below(5) as usize;
    let mut v: Vec<String> = Vec::new();
    while v.len() < n {
        let mut t = ty(s, 3, c).text;
        // an operator of its own may not meet the separator, nor stand alone outside of brackets
        if sep == "::" || sep == "&&" || clear(&t).contains(sep) || sep.starts_with('-') {
            t = match s.below(5) {
                0 => "a".into(),
                1 => format!("Vec\u{1}<\u{1}{}\u{1}>", ty(s, 2, c).text),
                2 => format!("(\u{1}{}\u{1})", ty(s, 2, c).text),
                3 => format!("[\u{1}{}\u{1}]", ty(s, 2, c).text),
                _ if sep == "->" => format!("Vec\u{1}<\u{1}Fn\u{1}(\u{1})\u{1}->\u{1}{}\u{1}>", ty(s, 2, c).text),
                _ => format!("Fn\u{1}(\u{1})\u{1}->\u{1}(\u{1}{}\u{1})", ty(s, 2, c).text),
            };
        }
        v.push(t);
    }
    let mut text = v.join(&format!("\u{2}{}\u{2}", sep));
    let trailing = n > 0 && s.chance(1, 4);
    if trailing {
        text.push_str(&format!("\u{2}{}", sep));
    }
    // and some first part of it, which is none
    let part = sep.len() > 1 && sep != "..=" && n > 0 && s.chance(1, 4);
    if part {
        text.push_str(&format!("\u{2}{}", &sep[..1]));
        let last = v.last_mut().filter(|_| !trailing);
        match last {
            Some(l) => l.push_str(&format!("\u{2}{}", &sep[..1])),
            None => v.push(sep[..1].to_string()),
        }
    }
    let text = spaced(s, &text, false);
    cx.label("splitting");
    cx.label_if(part, "part of a separator at the end");
    cx.label_if(trailing, "separator at the end");
    cx.label_if(sep.len() > 1, "separator of several characters");
    cx.case(n > 1, || format!("by {:?}: {}", sep, text));
    let ts = tokens::lex(&text)?;
    let got = pbt::no_panic(|| utils::split_tokens_by(ts, sep)).map_err(|e| format!("split_tokens_by by {:?} panics: {}", sep, e))?;
    let mut want = Vec::new();
    for t in &v {
        want.push(tokens::flat(tokens::lex(&clear(t))?).join(" "));
    }
    if flat(&got) != want {
        return Err(format!("split_tokens_by by {:?}: {:?}, written {:?}", sep, flat(&got), want));
    }
    Ok(())
}

/// A type before what ends it.
fn takes(s: &mut Src, cx: &mut Cx) -> Verdict {
    let c = Cxt { plus: false, braces: true, objects: true, colons: true };
    let t = ty(s, 4, c).text;
    let end = *s.pick(&["{ a }", "where T: A", "{}", ", b", ";"]);
    let text = spaced(s, &format!("{}\u{2}{}", t, end), false);
    cx.label("taking");
    cx.case(t.len() > 8, || text.clone());
    let first = tokens::lex(end)?.into_iter().next().unwrap().to_string();
    // the end by itself may not stand in the type, outside of its brackets
    let outer: Vec<String> = tokens::lex(&clear(&t))?.into_iter().map(|x| x.to_string()).collect();
    if outer.contains(&first) && !first.starts_with('{') {
        return Ok(());
    }
    let is_end = |x: &TokenTree| match x {
        TokenTree::Group(g) => end.starts_with('{') && g.delimiter() == proc_macro::Delimiter::Brace,
        other => other.to_string() == first,
    };
    let ts = tokens::lex(&text)?;
    let got: TokenStream = utils::take_before(ts.into_iter(), is_end).into_iter().collect();
    let want = tokens::lex(&clear(&t))?;
    if tokens::flat(got.clone()) != tokens::flat(want) {
        return Err(format!("take_before: {:?} of {:?}", got.to_string(), text));
    }
    Ok(())
}

fn int<T: TryFrom<i128> + PartialEq + Debug + Copy>(name: &str, sign: &str, raw: &str, want: Option<i128>) -> Verdict {
    let want: Option<T> = want.and_then(|n| T::try_from(n).ok());
    let got = pbt::no_panic(|| utils::parse_int::<T>(sign, raw)).map_err(|e| format!("parse_int::<{}>({:?}, {:?}) panics: {}", name, sign, raw, e))?;
    if got != want {
        return Err(format!("parse_int::<{}>({:?}, {:?}) is {:?}, not {:?}", name, sign, raw, got, want));
    }
    Ok(())
}

fn ints(s: &mut Src, cx: &mut Cx) -> Verdict {
    let sign = if s.chance(1, 3) { "-" } else { "" };
    let bits = *s.pick(&[0u32, 3, 7, 8, 15, 16, 31, 32, 63, 64, 126, 127]);
    let top = (1u128 << bits) - 1;
    let n: u128 = match s.below(4) {
        0 => top,
        1 => (top + 1).min(i128::MAX as u128),
        2 => top.saturating_sub(1),
        _ => ((s.bits() as u128) << 64 | s.bits() as u128) & top,
    };
    let mut digits = match s.below(4) {
        0 => format!("0x{:x}", n),
        1 => format!("0o{:o}", n),
        2 => format!("0b{:b}", n),
        _ => n.to_string(),
    };
    if digits.starts_with("0x") && s.flag() {
        digits = digits.to_uppercase().replace('X', "x");
    }
    // underscores anywhere after the first digit
    if s.flag() {
        let start = if digits.starts_with("0x") || digits.starts_with("0o") || digits.starts_with("0b") { 2 } else { 1 };
        let mut o = digits[..start].to_string();
        for c in digits[start..].chars() {
            if s.chance(1, 4) {
                o.push('_');
            }
            o.push(c);
        }
        if s.chance(1, 4) {
            o.push('_');
        }
        digits = o;
    }
    if s.chance(1, 3) {
        digits.push_str(*s.pick(&["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"]));
    }
    let junk = s.chance(1, 8);
    if junk {
        digits = s.pick(&["", "1.0", "1e3", "\"1\"", "'1'", "0x", "0b2", "0o8", "1f32", "f64", "u8", "é1", "0é", "--1", "1u7", "b'1'"]).to_string();
    }
    cx.label("integer");
    cx.label_if(junk, "no integer");
    cx.case(digits.len() > 2, || format!("{}{}", sign, digits));
    let v = if junk { None } else { Some(if sign == "-" { -(n as i128) } else { n as i128 }) };
    int::<i8>("i8", sign, &digits, v)?;
    int::<u8>("u8", sign, &digits, v)?;
    int::<i16>("i16", sign, &digits, v)?;
    int::<u32>("u32", sign, &digits, v)?;
    int::<i32>("i32", sign, &digits, v)?;
    int::<i64>("i64", sign, &digits, v)?;
    int::<u64>("u64", sign, &digits, v)?;
    int::<isize>("isize", sign, &digits, v)?;
    int::<i128>("i128", sign, &digits, v)
}

fn restrictions(s: &mut Src, cx: &mut Cx) -> Verdict {
    let (t, want) = *s.pick(&[
        ("(crate)", true), ("(self)", true), ("(super)", true), ("(in crate::a)", true), ("(in self)", true), ("(in super::super)", true), ("(in a)", true),
        ("()", false), ("(crate::A)", false), ("(super::A, B)", false), ("(self::A)", false), ("(A)", false), ("(crates)", false), ("(r#in)", false), ("(T,)", false), ("(&crate::A)", false),
        ("[crate]", false), ("{crate}", false), ("(crate,)", false), ("(inn)", false), ("((crate))", false), ("(\"in\" a)", false),
    ]);
    cx.label("restriction");
    cx.case(true, || t.to_string());
    let g = match tokens::lex(t)?.into_iter().next() {
        Some(TokenTree::Group(g)) => g,
        _ => return Ok(()),
    };
    match utils::is_restriction(&g) == want {
        true => Ok(()),
        false => Err(format!("is_restriction({}) is {}", t, !want)),
    }
}

fn puncts(s: &mut Src, cx: &mut Cx) -> Verdict {
    const P: &str = "#!$%&*+,-./:;<=>?@^|~'";
    let c = s.pick(&P.chars().collect::<Vec<_>>()).to_owned();
    let t = *s.pick(&["#", "<", ">", "=", ",", ":", "&", "+", "-", "!", "?", "*", "/", ";", "'a", "a", "1", "\"#\"", "(<)", "'='", "::", "->"]);
    cx.label("punctuation");
    cx.case(true, || format!("{:?} {}", c, t));
    for x in tokens::lex(t)? {
        let want = matches!(&x, TokenTree::Punct(p) if p.to_string() == c.to_string());
        if utils::punct_eq(c)(&x) != want {
            return Err(format!("punct_eq({:?}) of {:?} is {}", c, x.to_string(), !want));
        }
    }
    Ok(())
}

/// used_ty(): the type as one whose functions can be called.
fn used(s: &mut Src, cx: &mut Cx) -> Verdict {
    let m = ty(s, 4, Cxt { plus: true, braces: true, objects: true, colons: true });
    let text = spaced(s, &m.text, false);
    cx.label("used_ty");
    cx.label_if(m.lifetime.is_some(), "used_ty of a reference with a lifetime");
    cx.case(m.text.len() > 8, || text.clone());
    let t: Type = parse("a type", tokens::lex(&text)?)?;
    if m.is_imp {
        return Ok(());
    }
    let mut want = clear(&m.text);
    if let Some(l) = &m.lifetime {
        want = want.replacen(l.as_str(), " ", 1);
    }
    let got = t.used_ty();
    if norm(&got)? != norm(&want)? {
        return Err(format!("used_ty() of {}: {:?}", clear(&m.text), got));
    }
    Ok(())
}

pub fn helpers(s: &mut Src, cx: &mut Cx) -> Verdict {
    match s.weighted(&[6, 4, 4, 1, 1, 4]) {
        0 => splits(s, cx),
        1 => takes(s, cx),
        2 => ints(s, cx),
        3 => restrictions(s, cx),
        4 => puncts(s, cx),
        _ => used(s, cx),
    }
}
