//! Items against a model of them: what was written is what the parser tells, and what it prints.

use crate::inside;
use crate::meta::{self, eq, gap, MItem};
use crate::tokens::{self, norm};
use json_parse::enum_value::{EnumValueItem, EnumValues};
use json_parse::field::{Fields, StructFieldItem, TupleFieldItem};
use json_parse::generic::{GenericItem, Generics};
use json_parse::meta::Meta;
use json_parse::name::{Name, Type};
use json_parse::param::{ParamItem, Params};
use json_parse::Item;
use pbt::{Cx, Src, Verdict};
use proc_macro::{Delimiter, Group, TokenStream, TokenTree};

// In these texts \u{1} is where white space may stand, \u{2} is where it must, and a fragment of a
// macro_rules macro goes from \u{3} to \u{4}.

pub struct MName {
    pub text: String,
    /// prefixes, identifier, arguments: of a plain path
    pub path: Option<(Vec<String>, String, Vec<MType>)>,
}

pub struct MType {
    pub assoc: Option<String>,
    pub is_ref: bool,
    pub lifetime: Option<String>,
    pub is_mut: bool,
    pub is_dyn: bool,
    pub is_imp: bool,
    pub names: Vec<MName>,
    pub text: String,
}

pub struct MGeneric {
    pub ident: String,
    pub constness: bool,
    pub traits: Vec<MName>,
    pub lifetimes: Vec<String>,
    pub sized: bool,
    pub default: Option<MType>,
    /// as declared without the attributes and the default
    pub head: String,
    pub attrs: String,
}

pub struct MField {
    pub meta: Vec<MItem>,
    pub vis: Option<Option<String>>,
    pub ident: String,
    pub ty: MType,
}

pub enum MFields {
    None,
    Tuple(Vec<MField>),
    Named(Vec<MField>),
}

pub struct MValue {
    pub meta: Vec<MItem>,
    pub ident: String,
    pub fields: MFields,
    pub disc: Option<isize>,
}

pub struct MParam {
    pub mutability: bool,
    pub ident: Option<String>,
    pub ty: MType,
}

pub enum MKind {
    Struct(MFields),
    Enum(Vec<MValue>),
    Fn { asyncness: bool, constness: bool, unsafety: bool, abi: Option<String>, params: Vec<MParam>, ret: Option<MType>, body: String },
}

pub struct M {
    pub meta: Vec<MItem>,
    pub vis: Option<Option<String>>,
    pub ident: String,
    pub generics: Option<Vec<MGeneric>>,
    pub wheres: Option<Vec<MGeneric>>,
    pub kind: MKind,
    pub text: String,
}

// ---------------------------------------------------------------------------------------------
// generators

const NAMES: &[&str] = &["A", "b", "Name", "x1", "_x", "r#fn", "r#type", "été", "名", "structure", "wherever", "union", "auto", "default"];
pub const TYPES: &[&str] = &["T", "u8", "String", "Vec", "Option", "i32", "Json", "HashMap", "U", "bool", "usize", "Self", "dynamic", "r#struct"];
pub const TRAITS: &[&str] = &["Clone", "Copy", "Into", "Iterator", "Send", "JsonEncode", "Sizedx", "A", "Sync", "Sized"];
pub const LIVES: &[&str] = &["'a", "'b", "'static", "'_x", "'long_name", "'a", "'r#fn"];
const MODULES: &[&str] = &["std", "a", "crate", "self", "super", "iter", "r#mod"];

pub fn join(v: Vec<String>, sep: &str, s: &mut Src, trailing: bool) -> String {
    let n = v.len();
    let mut o = v.join(&format!("\u{1}{}\u{1}", sep));
    if n > 0 && trailing && s.chance(1, 5) {
        o.push_str("\u{1}");
        o.push_str(sep);
    }
    o
}

#[derive(Clone, Copy)]
pub struct Cxt {
    /// may several bounds stand here without parentheses?
    pub plus: bool,
    /// may an argument be a block here?
    pub braces: bool,
    /// may a type without parentheses end in bounds here?
    pub objects: bool,
    /// may an argument be `Item: Clone`?
    pub colons: bool,
}

pub fn plain(name: &str) -> MName {
    MName { text: name.to_string(), path: Some((Vec::new(), name.to_string(), Vec::new())) }
}

fn verbatim(text: String) -> MName {
    MName { text, path: None }
}

/// `a::b::C<..>`; the last identifier is one of `last`.
pub fn path(s: &mut Src, depth: u32, last: &[&str], c: Cxt) -> MName {
    let mut prefixes = Vec::new();
    match s.weighted(&[6, 3, 1, 1]) {
        0 => (),
        1 => {
            for _ in 0..s.range(1, 3) {
                prefixes.push(s.pick(MODULES).to_string());
            }
        }
        2 => {
            prefixes.push(String::new());
            if !s.chance(1, 3) {
                prefixes.push("std".into());
                if s.flag() {
                    prefixes.push("iter".into());
                }
            }
        }
        _ if depth > 0 && last[0] == TYPES[0] => {
            // <T as A>::B, T::B, Vec<T>::B
            let t = match s.below(3) {
                0 => format!("<\u{1}{}\u{2}as\u{2}{}\u{1}>", ty(s, depth - 1, Cxt { plus: false, ..c }).text, path(s, 0, TRAITS, c).text),
                1 => "T".into(),
                _ => format!("Vec\u{1}<\u{1}{}\u{1}>", ty(s, depth - 1, Cxt { plus: false, ..c }).text),
            };
            prefixes.push(t);
        }
        _ => (),
    }
    let ident = s.pick(last).to_string();
    let mut args = Vec::new();
    if depth > 0 && s.chance(2, 5) {
        args = (0..s.range(1, 3)).map(|_| arg(s, depth - 1, c)).collect();
    }
    let mut text = prefixes.join("\u{1}::\u{1}");
    if !prefixes.is_empty() {
        text.push_str("\u{1}::\u{1}");
    }
    // ": ::a" needs the space
    if prefixes.first().map_or(false, |p| p.is_empty()) {
        text.insert(0, '\u{2}');
    }
    text.push_str(&ident);
    if !args.is_empty() {
        let a = join(args.iter().map(|x| x.text.clone()).collect(), ",", s, true);
        let turbo = if s.chance(1, 6) { "\u{1}::" } else { "" };
        text.push_str(&format!("{}\u{1}<\u{1}{}\u{1}>", turbo, a));
    }
    MName { text, path: Some((prefixes, ident, args)) }
}

/// An argument of a path.
pub fn arg(s: &mut Src, depth: u32, c: Cxt) -> MType {
    match s.weighted(&[8, 2, 2, 1, 2]) {
        0 => ty(s, depth, Cxt { plus: true, objects: true, ..c }),
        1 => named(plain(*s.pick(LIVES))),
        2 => {
            // a constant
            let t = match s.below(7) {
                5 => "-\u{1}1".to_string(),
                0 => s.below(100).to_string(),
                1 => "0xffusize".into(),
                2 => "true".into(),
                3 => "'c'".into(),
                4 if c.braces => "{\u{1}N\u{1}+\u{1}1\u{1}}".into(),
                _ => "1_000".into(),
            };
            named(verbatim(t))
        }
        3 if c.colons => {
            // Item: Clone + 'a, Item<'a>: Clone
            let name = *s.pick(&["Item", "Item\u{1}<\u{1}'a\u{1}>", "r#type"]);
            let mut b = vec![bound(s, depth, c).text];
            while s.more(b.len() - 1, 1, 3) {
                b.push(if s.flag() { bound(s, depth, c).text } else { s.pick(LIVES).to_string() });
            }
            named(verbatim(format!("{}\u{1}:\u{1}{}", name, b.join("\u{1}+\u{1}"))))
        }
        _ => {
            let name = s.pick(&["Item", "Output", "Error", "Item\u{1}<\u{1}'a\u{1}>", "Item\u{1}<\u{1}u8\u{1},\u{1}3\u{1}>"]).to_string();
            let mut t = ty(s, depth, Cxt { plus: true, objects: true, ..c });
            t.text = format!("{}\u{1}=\u{1}{}", name, t.text);
            t.assoc = Some(name);
            t
        }
    }
}

fn named(n: MName) -> MType {
    MType { assoc: None, is_ref: false, lifetime: None, is_mut: false, is_dyn: false, is_imp: false, text: n.text.clone(), names: vec![n] }
}

fn types(s: &mut Src, depth: u32, n: usize) -> Vec<String> {
    (0..n).map(|_| ty(s, depth, Cxt { plus: true, braces: true, objects: true, colons: true }).text).collect()
}

/// `(A, B) -> C` of a function.
fn signature(s: &mut Src, depth: u32, c: Cxt) -> String {
    let n = s.below(3) as usize;
    let a = types(s, depth, n);
    let a = join(a, ",", s, true);
    let mut t = format!("(\u{1}{}\u{1})", a);
    if s.chance(2, 3) {
        t.push_str(&format!("\u{1}->\u{1}{}", ty(s, depth, Cxt { plus: false, objects: false, ..c }).text));
    }
    t
}

pub fn ty(s: &mut Src, depth: u32, c: Cxt) -> MType {
    let mut t = bare(s, depth, c);
    if s.chance(1, 8) {
        t.text = format!("\u{3}{}\u{4}", t.text);
    }
    t
}

fn bare(s: &mut Src, depth: u32, c: Cxt) -> MType {
    if depth == 0 {
        return named(plain(*s.pick(TYPES)));
    }
    let d = depth - 1;
    let inner = Cxt { plus: true, braces: true, objects: true, colons: true };
    match s.weighted(&[3, 8, 4, 3, 2, 1, 2, 1, 2, 2, 1, 1, 1]) {
        0 => named(plain(*s.pick(TYPES))),
        1 => named(path(s, depth, TYPES, c)),
        2 => {
            // a reference
            let mut text = String::from("&\u{1}");
            let lifetime = if s.chance(2, 5) { Some(s.pick(LIVES).to_string()) } else { None };
            if let Some(l) = &lifetime {
                text.push_str(l);
                text.push('\u{2}');
            }
            let is_mut = s.chance(1, 3);
            if is_mut {
                text.push_str("mut\u{2}");
            }
            let t = bare(s, d, Cxt { plus: false, ..c });
            text.push_str(&t.text);
            if t.is_ref {
                // a reference of its own: kept as it is
                let names = vec![verbatim(t.text)];
                return MType { assoc: None, is_ref: true, lifetime, is_mut, is_dyn: false, is_imp: false, names, text };
            }
            MType { is_ref: true, lifetime, is_mut, text, ..t }
        }
        3 => {
            // (A, B), (), (A,), (A)
            let n = s.below(4) as usize;
            let v = types(s, d, n);
            let mut a = v.join("\u{1},\u{1}");
            if n == 1 && s.chance(2, 3) || n > 1 && s.chance(1, 5) {
                a.push_str("\u{1},");
            }
            named(verbatim(format!("(\u{1}{}\u{1})", a)))
        }
        4 => {
            let n = match s.below(4) {
                0 => s.below(20).to_string(),
                1 => "N".into(),
                2 => "{\u{1}N\u{1}+\u{1}1\u{1}}".into(),
                _ => "2\u{1}<<\u{1}3".into(),
            };
            named(verbatim(format!("[\u{1}{}\u{1};\u{1}{}\u{1}]", ty(s, d, inner).text, n)))
        }
        5 => named(verbatim(format!("[\u{1}{}\u{1}]", ty(s, d, inner).text))),
        6 if c.objects => objects(s, d, true, c),
        7 if c.objects => objects(s, d, false, c),
        6 | 7 => named(plain(*s.pick(TYPES))),
        8 => {
            let m = if s.flag() { "const" } else { "mut" };
            named(verbatim(format!("*\u{1}{}\u{2}{}", m, ty(s, d, Cxt { plus: false, ..c }).text)))
        }
        9 => {
            let pre = *s.pick(&["", "unsafe\u{2}", "extern\u{2}\"C\"\u{2}", "unsafe\u{2}extern\u{2}", "for<\u{1}'x\u{1}>\u{1}"]);
            named(verbatim(format!("{}fn\u{1}{}", pre, signature(s, d, c))))
        }
        10 => named(verbatim("!".into())),
        11 => {
            let (o, e) = *s.pick(&[("(", ")"), ("[", "]"), ("{", "}")]);
            let m = *s.pick(&["mac", "a\u{1}::\u{1}mac", "\u{2}::\u{1}a\u{1}::\u{1}mac", "r#mac"]);
            named(verbatim(format!("{}\u{1}!\u{1}{}\u{1}{}\u{1}{}", m, o, types(s, d, 2).join("\u{1},\u{1}"), e)))
        }
        _ => named(verbatim(format!("(\u{1}{}\u{1})", objects(s, d, true, inner).text))),
    }
}

/// `dyn A + B`, `impl A + B`
fn objects(s: &mut Src, depth: u32, is_dyn: bool, c: Cxt) -> MType {
    let mut names = vec![bound(s, depth, c)];
    while c.plus && s.more(names.len() - 1, 1, 3) {
        if s.chance(1, 3) {
            names.push(plain(*s.pick(LIVES)));
        } else {
            names.push(bound(s, depth, c));
        }
    }
    let text = format!("{}\u{2}{}", if is_dyn { "dyn" } else { "impl" }, names.iter().map(|x| x.text.clone()).collect::<Vec<_>>().join("\u{1}+\u{1}"));
    MType { assoc: None, is_ref: false, lifetime: None, is_mut: false, is_dyn, is_imp: !is_dyn, names, text }
}

/// A trait as a bound.
pub fn bound(s: &mut Src, depth: u32, c: Cxt) -> MName {
    match s.weighted(&[8, 3, 2, 1]) {
        1 if depth > 0 => {
            let f = *s.pick(&["Fn", "FnMut", "FnOnce", "std\u{1}::\u{1}ops\u{1}::\u{1}Fn", "AsyncFn", "Func", "Fn\u{1}::", "a\u{1}::\u{1}Fn\u{1}::"]);
            verbatim(format!("{}\u{1}{}", f, signature(s, depth - 1, c)))
        }
        2 if depth > 0 => {
            let what = if s.flag() {
                format!("Fn\u{1}{}", signature(s, depth - 1, c))
            } else {
                path(s, depth - 1, TRAITS, c).text
            };
            verbatim(format!("for\u{1}<\u{1}'x\u{1}>\u{1}{}", what))
        }
        3 => verbatim(format!("(\u{1}{}\u{1})", s.pick(TRAITS))),
        _ => path(s, depth, TRAITS, c),
    }
}

/// What follows the name of a parameter: bounds.
fn bounds(s: &mut Src, depth: u32, c: Cxt, g: &mut MGeneric, always: bool) {
    if !always && s.chance(1, 2) {
        return;
    }
    let mut texts = Vec::new();
    let (avg, max) = s.long(2, 4);
    while s.more(texts.len(), avg, max) {
        match s.weighted(&[6, 2, 1, 1]) {
            0 => {
                let b = bound(s, depth, c);
                texts.push(b.text.clone());
                g.traits.push(b);
            }
            1 => {
                let l = s.pick(LIVES).to_string();
                texts.push(l.clone());
                g.lifetimes.push(l);
            }
            2 if g.sized => {
                let n = *s.pick(&["Sized", "Sized", "core\u{1}::\u{1}marker\u{1}::\u{1}Sized", "\u{2}::\u{1}core\u{1}::\u{1}marker\u{1}::\u{1}Sized"]);
                let t = format!("?\u{1}{}", n);
                if n != "Sized" {
                    g.traits.push(verbatim(t.clone()));
                }
                texts.push(t);
                g.sized = false;
            }
            _ => {
                let b = bound(s, 0, c);
                texts.push(b.text.clone());
                g.traits.push(b);
            }
        }
    }
    let mut t = texts.join("\u{1}+\u{1}");
    if !texts.is_empty() && s.chance(1, 10) {
        t.push_str("\u{1}+");
    }
    g.head.push_str("\u{1}:\u{1}");
    g.head.push_str(&t);
}

/// Attributes of a type parameter, which are left out.
fn param_attrs(s: &mut Src) -> String {
    let mut o = String::new();
    while s.chance(1, 10) {
        o.push_str(*s.pick(&["#\u{1}[\u{1}cfg\u{1}(\u{1}all\u{1}(\u{1})\u{1})\u{1}]\u{1}", "#\u{1}[\u{1}a\u{1}=\u{1}\"<,:=\"\u{1}]\u{1}", "#\u{1}[\u{1}a\u{1}]\u{1}"]));
    }
    o
}

pub fn generics(s: &mut Src, defaults: bool) -> Vec<MGeneric> {
    let c = Cxt { plus: true, braces: true, objects: true, colons: true };
    let mut v = Vec::new();
    let (avg, max) = s.long(2, 4);
    while s.more(v.len(), avg, max) {
        let mut g = MGeneric { ident: String::new(), constness: false, traits: Vec::new(), lifetimes: Vec::new(), sized: true, default: None, head: String::new(), attrs: param_attrs(s) };
        match s.weighted(&[5, 2, 2]) {
            0 => {
                g.ident = s.pick(&["T", "U", "Name", "r#type", "Key"]).to_string();
                g.head = g.ident.clone();
                bounds(s, 2, c, &mut g, false);
                if defaults && s.chance(1, 4) {
                    g.default = Some(ty(s, 2, c));
                }
            }
            1 => {
                g.ident = s.pick(&["'a", "'b", "'_x", "'s", "'statics"]).to_string();
                g.head = g.ident.clone();
                if s.chance(1, 2) {
                    let n = s.below(3);
                    for _ in 0..n {
                        g.lifetimes.push(s.pick(LIVES).to_string());
                    }
                    g.head.push_str("\u{1}:\u{1}");
                    g.head.push_str(&g.lifetimes.join("\u{1}+\u{1}"));
                }
            }
            _ => {
                g.ident = s.pick(&["N", "M", "SIZE"]).to_string();
                g.constness = true;
                let t = path(s, 0, &["usize", "bool", "char", "i32"], c);
                g.head = format!("const\u{2}{}\u{1}:\u{1}{}", g.ident, t.text);
                g.traits.push(t);
                if defaults && s.chance(1, 3) {
                    let d = s.pick(&["3", "true", "'c'", "{\u{1}1\u{1}+\u{1}2\u{1}}", "OTHER", "0x1F", "-\u{1}1"]).to_string();
                    g.default = Some(named(verbatim(d)));
                }
            }
        }
        v.push(g);
    }
    v
}

pub fn generic_text(g: &MGeneric) -> String {
    match &g.default {
        Some(d) => format!("{}{}\u{1}=\u{1}{}", g.attrs, g.head, d.text),
        None => format!("{}{}", g.attrs, g.head),
    }
}

pub fn generics_text(v: &[MGeneric], s: &mut Src) -> String {
    let a = v.iter().map(generic_text).collect();
    format!("<\u{1}{}\u{1}>", join(a, ",", s, true))
}

pub fn wheres(s: &mut Src) -> Vec<MGeneric> {
    let c = Cxt { plus: true, braces: true, objects: true, colons: true };
    let mut v = Vec::new();
    let (avg, max) = s.long(2, 4);
    while s.more(v.len(), avg, max) {
        let mut g = MGeneric { ident: String::new(), constness: false, traits: Vec::new(), lifetimes: Vec::new(), sized: true, default: None, head: String::new(), attrs: String::new() };
        match s.weighted(&[4, 4, 1, 2]) {
            0 => g.ident = s.pick(&["T", "U", "Self"]).to_string(),
            1 => {
                let t = bare(s, 2, Cxt { plus: false, colons: false, ..c }).text;
                g.ident = if t == "!" || t.contains("fn\u{1}") { "T".into() } else { t };
            }
            2 => g.ident = format!("for\u{1}<\u{1}'x\u{1}>\u{1}&\u{1}'x\u{2}{}", path(s, 1, TYPES, Cxt { colons: false, ..c }).text),
            _ => {
                g.ident = s.pick(&["'a", "'b", "'static", "'s"]).to_string();
                g.head = g.ident.clone();
                let n = s.below(3);
                for _ in 0..n {
                    g.lifetimes.push(s.pick(LIVES).to_string());
                }
                g.head.push_str("\u{1}:\u{1}");
                g.head.push_str(&g.lifetimes.join("\u{1}+\u{1}"));
                v.push(g);
                continue;
            }
        }
        g.head = g.ident.clone();
        bounds(s, 2, c, &mut g, true);
        v.push(g);
    }
    v
}

pub fn wheres_text(v: &[MGeneric], s: &mut Src) -> String {
    let a = v.iter().map(|g| g.head.clone()).collect();
    format!("\u{2}where\u{2}{}\u{1}", join(a, ",", s, true))
}

/// Attributes that are ones to the compiler, too.
fn attrs(s: &mut Src) -> (Vec<MItem>, String) {
    if s.chance(1, 2) {
        return (Vec::new(), String::new());
    }
    let (v, _) = meta::attrs(s, 2, 2);
    let mut items = Vec::new();
    let mut o = String::new();
    for m in v {
        let ok = match &m {
            MItem::Ident(p) | MItem::Pair(p, '=', _) | MItem::Group(p, _) => {
                p.split("::").all(|x| !["type", "ref", "self", "crate", "", "derive", "cfg_attr"].contains(&x))
            }
            _ => false,
        };
        if !ok {
            continue;
        }
        match &m {
            MItem::Pair(_, _, l) if l.doc => {
                if let meta::Val::Str(t) = &l.val {
                    if t.starts_with('/') {
                        continue;
                    }
                    o.push_str(&format!("///{}\n", t.replace('\n', " ")));
                    if t.contains('\n') {
                        continue;
                    }
                }
            }
            _ => {
                o.push_str("#\u{1}[");
                meta::write(s, &m, &mut o);
                o.push_str("]\u{1}");
            }
        }
        items.push(m);
    }
    (items, o)
}

fn vis(s: &mut Src) -> (Option<Option<String>>, String) {
    match s.weighted(&[4, 3, 3]) {
        0 => (None, String::new()),
        1 => (Some(None), "\u{3}pub\u{4}\u{2}".into()),
        _ => {
            let p = s.pick(&["crate", "super", "self", "in\u{2}crate\u{1}::\u{1}a", "in\u{2}self", "in\u{2}super\u{1}::\u{1}super"]).to_string();
            let t = format!("\u{3}pub\u{1}(\u{1}{}\u{1})\u{4}\u{1}", p);
            (Some(Some(p)), t)
        }
    }
}

pub fn field(s: &mut Src, kind: u64, in_enum: bool) -> (MField, String) {
    let (meta, mut t) = attrs(s);
    let (vis, vt) = if in_enum { (None, String::new()) } else { vis(s) };
    t.push_str(&vt);
    let mut ident = String::new();
    if kind == 2 {
        ident = s.pick(NAMES).to_string();
        t.push_str(&format!("{}\u{1}:\u{1}", ident));
    }
    let ty = ty(s, 3, Cxt { plus: true, braces: true, objects: true, colons: true });
    t.push_str(&ty.text);
    (MField { meta, vis, ident, ty }, t)
}

pub fn fields(s: &mut Src, kind: u64, in_enum: bool, o: &mut String) -> MFields {
    if kind == 0 {
        return MFields::None;
    }
    let mut v: Vec<MField> = Vec::new();
    let mut texts = Vec::new();
    let (avg, max) = s.long(3, 6);
    while s.more(v.len(), avg, max) {
        let (f, t) = field(s, kind, in_enum);
        texts.push(t);
        v.push(f);
    }
    let t = join(texts, ",", s, true);
    if kind == 1 {
        o.push_str(&format!("(\u{1}{}\u{1})", t));
        MFields::Tuple(v)
    } else {
        o.push_str(&format!("{{\u{1}{}\u{1}}}", t));
        MFields::Named(v)
    }
}

pub fn value(s: &mut Src) -> (MValue, String) {
    let (meta, mut t) = attrs(s);
    let ident = s.pick(NAMES).to_string();
    t.push_str(&ident);
    t.push('\u{1}');
    let kind = s.below(3);
    let fields = fields(s, kind, true, &mut t);
    let disc = if s.chance(1, 4) {
        let (n, spelled): (isize, &str) = match s.below(4) {
            0 => (s.below(10) as isize, ""),
            1 => (-(s.below(1000) as isize), ""),
            2 => (*s.pick(&[isize::MAX, isize::MIN, i32::MAX as isize, i64::MAX as isize - 1]), ""),
            _ => *s.pick(&[(16, "0x10"), (1000, "1_000"), (7, "7isize"), (-255, "-0xff"), (5, "0b101"), (8, "0o10"), (-12, "-12_isize"), (7, "007")]),
        };
        t.push_str("\u{1}=\u{1}");
        let spelled = if spelled.is_empty() { n.to_string() } else { spelled.to_string() };
        t.push_str(&spelled.replace('-', "-\u{1}"));
        Some(n)
    } else {
        None
    };
    (MValue { meta, ident, fields, disc }, t)
}

pub fn values(s: &mut Src, o: &mut String) -> Vec<MValue> {
    let mut v: Vec<MValue> = Vec::new();
    let mut texts = Vec::new();
    let (avg, max) = s.long(3, 6);
    while s.more(v.len(), avg, max) {
        let (x, t) = value(s);
        texts.push(t);
        v.push(x);
    }
    let t = join(texts, ",", s, true);
    o.push_str(&format!("{{\u{1}{}\u{1}}}", t));
    v
}

/// `self` in one of its forms
pub fn receiver(s: &mut Src, c: Cxt) -> (MParam, String) {
    let me = || named(plain("self"));
    let (text, p) = match s.below(6) {
        0 => ("self".to_string(), MParam { mutability: false, ident: None, ty: me() }),
        1 => ("&\u{1}self".into(), MParam { mutability: false, ident: None, ty: MType { is_ref: true, ..me() } }),
        2 => ("&\u{1}mut\u{2}self".into(), MParam { mutability: false, ident: None, ty: MType { is_ref: true, is_mut: true, ..me() } }),
        3 => {
            let l = s.pick(LIVES).to_string();
            (format!("&\u{1}{}\u{2}self", l), MParam { mutability: false, ident: None, ty: MType { is_ref: true, lifetime: Some(l), ..me() } })
        }
        4 => ("mut\u{2}self".into(), MParam { mutability: true, ident: None, ty: me() }),
        _ => {
            let t = path(s, 2, &["Box", "Rc", "Pin"], c);
            let m = s.flag();
            (format!("{}self\u{1}:\u{1}{}", if m { "mut\u{2}" } else { "" }, t.text), MParam { mutability: m, ident: Some("self".into()), ty: named(t) })
        }
    };
    let mut p = p;
    if p.ident.is_none() {
        p.ty.text = text.replace("mut\u{2}self", if p.mutability { "self" } else { "mut\u{2}self" });
    }
    (p, text)
}

pub fn param(s: &mut Src, c: Cxt) -> (MParam, String) {
    let mutability = s.chance(1, 4);
    let ident = if !mutability && s.chance(1, 6) { "_".to_string() } else { s.pick(NAMES).to_string() };
    let ty = ty(s, 3, c);
    let t = format!("{}{}\u{1}:\u{1}{}", if mutability { "mut\u{2}" } else { "" }, ident, ty.text);
    (MParam { mutability, ident: Some(ident), ty }, t)
}

pub fn params(s: &mut Src, o: &mut String) -> Vec<MParam> {
    let c = Cxt { plus: true, braces: true, objects: true, colons: true };
    let mut v = Vec::new();
    let mut texts = Vec::new();
    if s.chance(1, 3) {
        let (p, t) = receiver(s, c);
        texts.push(t);
        v.push(p);
    }
    let (avg, max) = s.long(2, 5);
    while s.more(v.len(), avg, max) {
        let (p, t) = param(s, c);
        texts.push(t);
        v.push(p);
    }
    let t = join(texts, ",", s, true);
    o.push_str(&format!("(\u{1}{}\u{1})", t));
    v
}

const BODIES: &[&str] = &[
    "{}",
    "{ x }",
    "{ let a = b\"x\\n\"; a < b && c > d }",
    "{ if a { 1 } else { 2 } }",
    "{ a::<T>(|x, y| -> u8 { x + y }, 'c', \"}\", r#\"\"#) }",
    "{ #[allow(x)] struct X; for i in 0..=3 { y!{ } } }",
    "{ fn inner<T: A>() where T: B {} }",
    "{ -1 }",
];

pub fn model(s: &mut Src) -> M {
    let (meta, mut text) = attrs(s);
    let (vis, vt) = vis(s);
    text.push_str(&vt);
    let ident = s.pick(NAMES).to_string();
    let kind = s.below(3);
    let gen = |s: &mut Src, text: &mut String| {
        text.push_str(&ident);
        text.push('\u{1}');
        if s.chance(2, 3) {
            let g = generics(s, kind < 2);
            text.push_str(&generics_text(&g, s));
            text.push('\u{1}');
            Some(g)
        } else {
            None
        }
    };
    let clause = |s: &mut Src, text: &mut String| {
        if s.chance(1, 3) {
            let w = wheres(s);
            text.push_str(&wheres_text(&w, s));
            Some(w)
        } else {
            None
        }
    };
    match kind {
        0 => {
            text.push_str("struct\u{2}");
            let generics = gen(s, &mut text);
            let form = s.below(3);
            let (w, f);
            if form == 1 {
                f = fields(s, form, false, &mut text);
                text.push('\u{1}');
                w = clause(s, &mut text);
                text.push_str("\u{1};");
            } else {
                w = clause(s, &mut text);
                f = fields(s, form, false, &mut text);
                if form == 0 {
                    text.push_str("\u{1};");
                }
            }
            M { meta, vis, ident: ident.clone(), generics, wheres: w, kind: MKind::Struct(f), text }
        }
        1 => {
            text.push_str("enum\u{2}");
            let generics = gen(s, &mut text);
            let wheres = clause(s, &mut text);
            let v = values(s, &mut text);
            M { meta, vis, ident: ident.clone(), generics, wheres, kind: MKind::Enum(v), text }
        }
        _ => {
            let asyncness = s.chance(1, 5);
            let constness = !asyncness && s.chance(1, 5);
            let unsafety = s.chance(1, 5);
            if asyncness {
                text.push_str("async\u{2}");
            }
            if constness {
                text.push_str("const\u{2}");
            }
            if unsafety {
                text.push_str("unsafe\u{2}");
            }
            let abi = match s.weighted(&[4, 1, 1, 1]) {
                0 => None,
                1 => {
                    text.push_str("extern\u{2}");
                    Some("\"C\"".to_string())
                }
                n => {
                    let a = if n == 2 { "\"C\"" } else { "r\"Rust\"" };
                    text.push_str(&format!("extern\u{2}{}\u{2}", a));
                    Some(a.to_string())
                }
            };
            text.push_str("fn\u{2}");
            let generics = gen(s, &mut text);
            let params = params(s, &mut text);
            text.push('\u{1}');
            let ret = if s.chance(2, 3) {
                let t = ty(s, 3, Cxt { plus: true, braces: true, objects: true, colons: true });
                text.push_str(&format!("->\u{1}{}\u{1}", t.text));
                Some(t)
            } else {
                None
            };
            let wheres = clause(s, &mut text);
            let body = s.pick(BODIES).to_string();
            text.push_str(&body);
            M { meta, vis, ident: ident.clone(), generics, wheres, kind: MKind::Fn { asyncness, constness, unsafety, abi, params, ret, body }, text }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// texts

/// The tokens of a text of the model.
pub fn clear(t: &str) -> String {
    t.replace('\u{1}', " ").replace('\u{2}', " ").replace(['\u{3}', '\u{4}'], "")
}

pub const OPEN: &str = "FRAGMENT";
const CLOSE: &str = "FRAGMENT_END";

pub fn spaced(s: &mut Src, t: &str, fragments: bool) -> String {
    let mut o = String::new();
    let neat = s.chance(1, 3);
    for c in t.chars() {
        match c {
            '\u{1}' if neat => (),
            '\u{1}' => {
                let g = gap(s);
                // a comment may not join an operator
                if g.starts_with('/') && o.ends_with(|c: char| "/*<>=&+-:'".contains(c)) {
                    o.push(' ');
                }
                o.push_str(g)
            }
            '\u{2}' => {
                let g = if neat { "" } else { gap(s) };
                o.push_str(if g.is_empty() { " " } else { g });
            }
            '\u{3}' if fragments => o.push_str(&format!(" {} ", OPEN)),
            '\u{4}' if fragments => o.push_str(&format!(" {} ", CLOSE)),
            '\u{3}' | '\u{4}' => (),
            c => o.push(c),
        }
    }
    o
}

/// What stands between the marks becomes an invisible group.
pub fn fragments(ts: TokenStream) -> TokenStream {
    let mut stack: Vec<Vec<TokenTree>> = vec![Vec::new()];
    for t in ts {
        match t {
            TokenTree::Ident(i) if i.to_string() == OPEN => stack.push(Vec::new()),
            TokenTree::Ident(i) if i.to_string() == CLOSE => {
                let v = stack.pop().unwrap();
                stack.last_mut().unwrap().push(Group::new(Delimiter::None, v.into_iter().collect()).into());
            }
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), fragments(g.stream()));
                n.set_span(g.span());
                stack.last_mut().unwrap().push(n.into());
            }
            t => stack.last_mut().unwrap().push(t),
        }
    }
    stack.pop().unwrap().into_iter().collect()
}

fn same_text(what: &str, got: &str, want: &str) -> Verdict {
    let (g, w) = (norm(got)?, norm(&clear(want))?);
    if g == w {
        Ok(())
    } else {
        Err(format!("{}: {:?}, written {:?}", what, got, clear(want)))
    }
}

// ---------------------------------------------------------------------------------------------
// comparing

pub fn same_name(what: &str, m: &MName, n: &Name) -> Verdict {
    same_text(what, &n.to_string(), &m.text)?;
    if let Some((prefixes, ident, args)) = &m.path {
        eq(&format!("{}: identifier", what), n.ident.as_str(), ident.as_str())?;
        eq(&format!("{}: number of prefixes", what), n.prefixes.len(), prefixes.len())?;
        for (p, q) in prefixes.iter().zip(&n.prefixes) {
            same_text(&format!("{}: prefix", what), q, p)?;
        }
        eq(&format!("{}: number of arguments", what), n.generics.len(), args.len())?;
        for (a, b) in args.iter().zip(&n.generics) {
            same_type(what, a, b)?;
        }
        eq(&format!("{}: is_lifetime()", what), n.is_lifetime(), ident.starts_with('\''))?;
    }
    Ok(())
}

pub fn same_type(what: &str, m: &MType, t: &Type) -> Verdict {
    same_text(what, &t.to_string(), &m.text)?;
    let of = |x: &str| format!("{} {}: {}", what, clear(&m.text), x);
    same_text(&of("ident"), t.ident.as_deref().unwrap_or(""), m.assoc.as_deref().unwrap_or(""))?;
    eq(&of("is_ref"), t.is_ref, m.is_ref)?;
    eq(&of("is_mut"), t.is_mut, m.is_mut)?;
    eq(&of("is_dyn"), t.is_dyn, m.is_dyn)?;
    eq(&of("is_imp"), t.is_imp, m.is_imp)?;
    eq(&of("lifetime"), t.lifetime.as_ref().map(|l| l.to_string()), m.lifetime.clone())?;
    eq(&of("number of names"), t.names.len(), m.names.len())?;
    for (a, b) in m.names.iter().zip(&t.names) {
        same_name(&of("name"), a, b)?;
    }
    let live = m.names.len() == 1 && m.names[0].path.as_ref().map_or(false, |p| p.1.starts_with('\''));
    eq(&of("is_lifetime()"), t.is_lifetime(), live)
}

pub fn same_generic(what: &str, m: &MGeneric, g: &GenericItem) -> Verdict {
    let of = |x: &str| format!("{} {}: {}", what, clear(&m.head), x);
    same_text(&of("ident"), &g.ident, &m.ident)?;
    eq(&of("constness"), g.constness, m.constness)?;
    eq(&of("sized"), g.sized, m.sized)?;
    eq(&of("number of traits"), g.traits.len(), m.traits.len())?;
    for (a, b) in m.traits.iter().zip(&g.traits) {
        same_name(&of("trait"), a, b)?;
    }
    eq(&of("lifetimes"), g.lifetimes.iter().map(|x| x.to_string()).collect(), m.lifetimes.clone())?;
    match (&m.default, &g.default) {
        (None, None) => (),
        (Some(a), Some(b)) => same_type(&of("default"), a, b)?,
        (_, b) => return Err(of(&format!("default {:?}", b))),
    }
    eq(&of("is_static()"), g.is_static(), m.ident == "'static")?;
    eq(&of("is_lifetime()"), g.is_lifetime(), m.ident.starts_with('\''))
}

/// Bounds in the order in which the parser prints them.
fn declared(g: &MGeneric) -> String {
    let mut b: Vec<String> = g.traits.iter().map(|t| t.text.clone()).chain(g.lifetimes.iter().cloned()).collect();
    if !g.sized && !b.iter().any(|t| t.starts_with('?')) {
        b.push("?Sized".into());
    }
    let mut o = if g.constness { format!("const {}", g.ident) } else { g.ident.clone() };
    if !b.is_empty() {
        o.push_str(": ");
        o.push_str(&b.join(" + "));
    }
    o
}

fn bound_set(t: &str) -> Result<Vec<String>, String> {
    // the order of bounds says nothing
    let mut v: Vec<String> = split(&norm(t)?, "+");
    v.sort();
    Ok(v)
}

/// Split at the outermost occurrences.
fn split(t: &str, sep: &str) -> Vec<String> {
    let (mut v, mut cur, mut depth, mut group) = (Vec::new(), String::new(), 0, 0);
    let ws: Vec<&str> = t.split(' ').collect();
    for (i, w) in ws.iter().enumerate() {
        match *w {
            "(" | "[" | "{" => group += 1,
            ")" | "]" | "}" => group -= 1,
            _ if group > 0 => (),
            "<" => depth += 1,
            ">" if i > 0 && ws[i - 1] == "-" => (),
            ">" => depth -= 1,
            _ => (),
        }
        if depth == 0 && group == 0 && *w == sep {
            v.push(std::mem::take(&mut cur));
        } else {
            cur.push_str(w);
            cur.push(' ');
        }
    }
    if !cur.is_empty() {
        v.push(cur);
    }
    v
}

pub fn same_generics(m: &Option<Vec<MGeneric>>, g: Option<&Generics>) -> Verdict {
    let (m, g) = match (m, g) {
        (None, None) => return Ok(()),
        (Some(m), None) if m.is_empty() => return Ok(()),
        (Some(m), Some(g)) => (m, g),
        (None, Some(g)) => return Err(format!("generics {:?} where there are none", g)),
        (Some(_), None) => return Err("generics are lost".into()),
    };
    eq("number of generics", g.items.len(), m.len())?;
    for (a, b) in m.iter().zip(&g.items) {
        same_generic("generic", a, b)?;
    }
    if m.is_empty() {
        return Ok(());
    }
    same_text("only_idents()", &g.only_idents(), &format!("<{}>", m.iter().map(|x| x.ident.clone()).collect::<Vec<_>>().join(", ")))?;
    // as declared, without the defaults; bounds in any order
    let got = norm(&g.no_defaults())?;
    let got = got.strip_prefix("< ").and_then(|x| x.strip_suffix(" >")).ok_or_else(|| format!("no_defaults(): {:?}", got))?;
    let got = split(got, ",");
    eq("no_defaults(): number", got.len(), m.len())?;
    for (a, b) in m.iter().zip(got) {
        let want = clear(&declared(a));
        let (x, y) = (norm(&want)?, b.trim().to_string());
        let head = |t: &str| t.split(" : ").next().unwrap().to_string();
        let tail = |t: &str| t.split_once(" : ").map(|p| p.1.to_string()).unwrap_or_default();
        if head(&x) != head(&y) || bound_set(&tail(&x))? != bound_set(&tail(&y))? {
            return Err(format!("no_defaults(): {:?}, declared {:?}", b, want));
        }
    }
    Ok(())
}

pub fn same_wheres(m: &Option<Vec<MGeneric>>, g: Option<&Generics>) -> Verdict {
    match (m, g) {
        (None, None) => Ok(()),
        (Some(m), None) if m.is_empty() => Ok(()),
        (Some(m), Some(g)) => {
            eq("number of predicates", g.items.len(), m.len())?;
            for (a, b) in m.iter().zip(&g.items) {
                same_generic("where", a, b)?;
            }
            Ok(())
        }
        (None, Some(_)) => Err("a where clause where there is none".into()),
        (Some(_), None) => Err("the where clause is lost".into()),
    }
}

fn same_meta(what: &str, m: &[MItem], meta: Option<&Meta>) -> Verdict {
    match meta {
        None if m.is_empty() => Ok(()),
        None => Err(format!("{}: the attributes are lost", what)),
        Some(x) => meta::same_items(m, &x.items).map_err(|e| format!("{}: {}", what, e)),
    }
}

fn same_vis(what: &str, m: &Option<Option<String>>, v: &Option<Option<String>>) -> Verdict {
    match (m, v) {
        (None, None) | (Some(None), Some(None)) => Ok(()),
        (Some(Some(a)), Some(Some(b))) => same_text(&format!("{}: visibility", what), b, a),
        _ => Err(format!("{}: visibility {:?}, written {:?}", what, v, m)),
    }
}

pub fn same_tuple_field(i: usize, a: &MField, b: &TupleFieldItem) -> Verdict {
    let what = format!("field {}", i);
    eq("position", b.pos, i)?;
    same_meta(&what, &a.meta, b.meta.as_ref())?;
    same_vis(&what, &a.vis, &b.vis)?;
    same_type(&what, &a.ty, &b.ty)
}

pub fn same_named_field(a: &MField, b: &StructFieldItem) -> Verdict {
    let what = format!("field {}", a.ident);
    eq("name", b.ident.as_str(), a.ident.as_str())?;
    same_meta(&what, &a.meta, b.meta.as_ref())?;
    same_vis(&what, &a.vis, &b.vis)?;
    same_type(&what, &a.ty, &b.ty)
}

pub fn same_fields(m: &MFields, f: &Fields) -> Verdict {
    match m {
        MFields::None => {
            if !matches!(f, Fields::NoFields) || f.index_fields().is_some() || f.name_fields().is_some() {
                return Err(format!("no fields are read as {:?}", f));
            }
        }
        MFields::Tuple(v) => {
            let x = f.index_fields().ok_or_else(|| format!("tuple fields are read as {:?}", f))?;
            if f.name_fields().is_some() {
                return Err("tuple fields with names".into());
            }
            eq("number of fields", x.len(), v.len())?;
            for (i, (a, b)) in v.iter().zip(x).enumerate() {
                same_tuple_field(i, a, b)?;
            }
        }
        MFields::Named(v) => {
            let x = f.name_fields().ok_or_else(|| format!("named fields are read as {:?}", f))?;
            if f.index_fields().is_some() {
                return Err("named fields with positions".into());
            }
            eq("number of fields", x.len(), v.len())?;
            for (a, b) in v.iter().zip(x) {
                same_named_field(a, b)?;
            }
        }
    }
    Ok(())
}

pub fn same_value(m: &MValue, v: &EnumValueItem) -> Verdict {
    eq("variant", v.ident.as_str(), m.ident.as_str())?;
    let what = format!("variant {}", m.ident);
    same_meta(&what, &m.meta, v.meta.as_ref())?;
    same_fields(&m.fields, &v.fields).map_err(|e| format!("{}: {}", what, e))?;
    eq(&format!("{}: discriminant", what), v.disc, m.disc)
}

pub fn same_param(m: &MParam, p: &ParamItem) -> Verdict {
    eq("parameter", p.ident.as_deref(), m.ident.as_deref())?;
    let what = format!("parameter {:?}", m.ident);
    eq(&format!("{}: mutability", what), p.mutability, m.mutability)?;
    same_type(&what, &m.ty, &p.ty)
}

pub fn same_values(v: &[MValue], x: &EnumValues) -> Verdict {
    eq("number of variants", x.items.len(), v.len())?;
    for (a, b) in v.iter().zip(&x.items) {
        same_value(a, b)?;
    }
    Ok(())
}

pub fn same_params(v: &[MParam], x: &Params) -> Verdict {
    eq("number of parameters", x.items.len(), v.len())?;
    for (a, b) in v.iter().zip(&x.items) {
        same_param(a, b)?;
    }
    Ok(())
}

pub fn same(m: &M, i: &Item) -> Verdict {
    let kinds = [i.struct_item().is_some(), i.enum_item().is_some(), i.fn_item().is_some()];
    let want = [matches!(m.kind, MKind::Struct(_)), matches!(m.kind, MKind::Enum(_)), matches!(m.kind, MKind::Fn { .. })];
    eq("[struct_item, enum_item, fn_item].is_some()", kinds, want)?;
    let (meta, vis, ident, gen, wh) = match i {
        Item::Struct(x) => (&x.meta, &x.vis, &x.ident, &x.generics, &x.where_clause),
        Item::Enum(x) => (&x.meta, &x.vis, &x.ident, &x.generics, &x.where_clause),
        Item::Fn(x) => (&x.meta, &x.vis, &x.ident, &x.generics, &x.where_clause),
    };
    eq("name of the item", ident.as_str(), m.ident.as_str())?;
    same_meta("item", &m.meta, meta.as_ref())?;
    same_vis("item", &m.vis, vis)?;
    same_generics(&m.generics, gen.as_ref())?;
    same_wheres(&m.wheres, wh.as_ref().map(|w| &**w))?;
    match (&m.kind, i) {
        (MKind::Struct(f), Item::Struct(x)) => same_fields(f, &x.fields),
        (MKind::Enum(v), Item::Enum(x)) => same_values(v, &x.values),
        (MKind::Fn { asyncness, constness, unsafety, abi, params, ret, body }, Item::Fn(x)) => {
            eq("async", x.asyncness, *asyncness)?;
            eq("const", x.constness, *constness)?;
            eq("unsafe", x.unsafety, *unsafety)?;
            eq("extern", x.extern_abi.as_ref().map(|a| a.to_string()), abi.clone())?;
            same_params(params, &x.params)?;
            match (ret, &x.return_ty) {
                (None, None) => (),
                (Some(a), Some(b)) => same_type("result", a, b)?,
                (_, b) => return Err(format!("result {:?}", b)),
            }
            let got = tokens::flat(TokenTree::Group(x.body.clone()).into());
            eq("body", got, tokens::flat(tokens::lex(body)?))
        }
        _ => unreachable!(),
    }
}

fn parse(ts: TokenStream) -> Result<Item, String> {
    match pbt::no_panic(|| json_parse::parse::<Item>(ts)) {
        Ok(Ok(m)) => Ok(m),
        Ok(Err(e)) => Err(format!("not read: {:?}", e)),
        Err(e) => Err(format!("parsing panics: {}", e)),
    }
}

fn labels(m: &M, cx: &mut Cx) {
    cx.label(match &m.kind {
        MKind::Struct(MFields::None) => "unit struct",
        MKind::Struct(MFields::Tuple(_)) => "tuple struct",
        MKind::Struct(MFields::Named(_)) => "struct",
        MKind::Enum(_) => "enum",
        MKind::Fn { .. } => "fn",
    });
    cx.label_if(!m.meta.is_empty(), "attributes");
    cx.label_if(matches!(m.vis, Some(Some(_))), "restricted visibility");
    if let Some(g) = &m.generics {
        cx.label_if(!g.is_empty(), "generics");
        cx.label_if(g.iter().any(|x| x.default.is_some()), "default");
        cx.label_if(g.iter().any(|x| x.constness), "const parameter");
        cx.label_if(g.iter().any(|x| x.ident.starts_with('\'')), "lifetime parameter");
    }
    cx.label_if(m.wheres.is_some(), "where clause");
    if let MKind::Enum(v) = &m.kind {
        cx.label_if(v.iter().any(|x| x.disc.is_some()), "discriminant");
    }
    for (t, l) in [("dyn\u{2}", "trait object"), ("impl\u{2}", "impl trait"), ("\u{1}->\u{1}", "function type or result"), ("as\u{2}", "qualified path"), ("\u{1}=\u{1}", "binding or default")] {
        cx.label_if(m.text.contains(t), l);
    }
}

/// The text of some item.
pub fn text(s: &mut Src) -> String {
    let m = model(s);
    spaced(s, &m.text, false)
}

pub fn items(s: &mut Src, cx: &mut Cx) -> Verdict {
    let m = model(s);
    labels(&m, cx);
    let frag = s.chance(1, 4);
    let t = spaced(s, &m.text, frag);
    cx.label_if(frag && t.contains(OPEN), "invisible groups");
    let rich = m.generics.as_ref().map_or(false, |g| !g.is_empty()) || m.wheres.is_some() || m.text.len() > 60;
    cx.case_ref(rich, &t);
    let mut ts = tokens::lex(&t)?;
    if frag {
        ts = fragments(ts);
    }
    if std::env::var_os("PM_ORIGINALS").is_some() {
        inside::printed(clear(&m.text));
    }
    let item = parse(ts)?;
    same(&m, &item)?;
    let p = item.to_string();
    let again = parse(tokens::lex(&p).map_err(|e| format!("printed as {:?}: {}", p, e))?).map_err(|e| format!("printed as {:?}: {}", p, e))?;
    same(&m, &again).map_err(|e| format!("printed as {:?} and read again: {}", p, e))?;
    inside::printed(p);
    Ok(())
}
