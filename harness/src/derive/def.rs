//! Random structure definitions with the derives, and the code that exercises them.
//!
//! A unit is the text of a module: one to three structures (later ones may use earlier ones) and,
//! for each, what a reference model knows of it: which member each field is, how its value is
//! written, what decoding must give.

use crate::gen;
use pbt::text::rust_string;
use pbt::Src;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Purpose {
    /// structures to be encoded
    Encode,
    /// structures to be decoded
    Decode,
    /// any structure, only compiled
    Accept,
    /// invocations of the macros (mac.rs)
    Macros,
}

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Both,
    Enc,
    Dec,
}

/// A type: as written in the definition, and with everything generic filled in.
#[derive(Clone)]
struct Ty {
    text: String,
    conc: String,
    /// `{}` is the source
    gen: String,
    /// `{}` is a place of this type
    v: String,
    /// Clone, PartialEq and Debug
    plain: bool,
    dflt: bool,
    typed: bool,
}

impl Ty {
    fn typed(text: &str, conc: &str, plain: bool, dflt: bool) -> Ty {
        Ty {
            text: text.to_string(),
            conc: conc.to_string(),
            gen: format!("<{} as ::vt::Typed>::gen(s)", conc),
            v: "::vt::Typed::v(&{})".to_string(),
            plain,
            dflt,
            typed: true,
        }
    }
    fn with(text: &str, gen: &str, v: &str, plain: bool) -> Ty {
        Ty { text: text.to_string(), conc: String::new(), gen: gen.to_string(), v: v.to_string(), plain, dflt: false, typed: false }
    }
}

struct Field {
    vis: String,
    name: String,
    attrs: Vec<String>,
    key: String,
    key_literal: Option<String>,
    ty: String,
    kind: Kind,
}

enum Kind {
    Member(Ty),
    /// value when built, test that it is the default
    Ignored(String, String),
}

/// What is known of a structure of the unit.
#[derive(Clone)]
struct Done {
    /// as used in a field type, e.g. `Foo<i32>`
    conc: String,
    mode_both: bool,
}

pub struct Unit {
    /// what a mask may take out
    pub parts: Vec<u64>,
    /// the module's content; `@MOD@` stands for the module's name
    pub text: String,
    /// the definitions alone
    pub desc: String,
    /// the definitions without the derives: must compile
    pub control: String,
    /// number of structures and, for each, (can be encoded, can be decoded)
    pub structs: Vec<(bool, bool)>,
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
}

struct G {
    /// the macro `same!` is there
    type_macro: bool,
    labels: Vec<&'static str>,
    globs: bool,
    aliases: bool,
    result_alias: bool,
    in_fn: bool,
    used_names: Vec<String>,
    done: Vec<Done>,
    purpose: Purpose,
}

impl G {
    fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
}

// ---------------------------------------------------------------------------------------------
// literals

pub const FIELD_NAMES: &[&str] = &[
    "a", "b", "c", "x", "y", "z", "id", "name", "value", "key", "ignore", "json", "map", "js", "obj", "other", "v", "k", "s",
    "self_", "_x", "__", "to_json", "from_json", "r#type", "r#match", "r#fn", "r#move", "r#async", "r#dyn", "r#try", "r#impl",
    "r#ref", "r#struct", "r#use", "r#x", "größe", "名前", "Upper", "CONST", "a1", "a_b", "aB", "err", "ok", "result", "format",
    "unreachable", "std", "core", "vec", "string", "union", "auto", "default", "macro_rules", "r#gen", "raw", "i32", "str", "bool",
];

const STRUCT_NAMES: &[&str] = &[
    "A", "B", "Foo", "Point", "X1", "User", "Größe", "r#type", "Json", "Error", "Ok", "Some", "Err", "Object", "Item",
    "lower_case", "ToJson", "Default", "r#Self_", "Deep", "Config", "r#match",
];

/// What a field is called when nothing else is said.
pub fn plain_name(n: &str) -> &str {
    n.strip_prefix("r#").unwrap_or(n)
}

fn doc(s: &mut Src) -> String {
    let word = *s.pick(&["doc", "a \"quoted\" text", "back\\slash", "it's", "100%", "{braces}", "日本", "# heading", "", "*/ /*", "key = \"x\"", "\\", "\"", "r#\"x\"#"]);
    match s.below(4) {
        0 => format!("/// {}\n", word),
        1 => format!("/** {} */", word.replace("*/", "").replace("/*", "")),
        2 => format!("#[doc = {}]", rust_string(s, word)),
        _ => format!("///{}\n/// second\n", word.replace('/', "")),
    }
}

fn attr(s: &mut Src, on_struct: bool) -> String {
    if s.chance(1, 3) {
        return doc(s);
    }
    let both = [
        "#[allow(dead_code)]",
        "#[allow(dead_code, unused_variables)]",
        "#[allow(clippy::all)]",
        "#[allow(clippy::all, dead_code,)]",
        "#[allow()]",
        "#[cfg(all())]",
        "#[cfg(not(any()))]",
        "#[cfg_attr(all(), allow(dead_code))]",
        "#[cfg_attr(any(), key = \"never\")]",
        "#[doc(hidden)]",
        "#[doc(alias = \"other-name\")]",
        "#[doc(alias(\"one_name\", \"two name\"))]",
        "#[deprecated]",
        "#[deprecated(since = \"1.0.0\", note = \"use [x] \\\"instead\\\"\")]",
        "#[rustfmt::skip]",
        "#[warn(unused)]",
        "#[allow(unused, reason = \"because\")]",
        "#[deprecated = \"old\"]",
        "#[cfg(any(all(), not(feature = \"f\"), target_os = \"none\"))]",
        "#[rustfmt::ignore]",
        "#[rustfmt::key = \"of another\"]",
        "#[miri::ignore(key = \"inner\", ignore)]",
        "#[clippy::key_ignore]",
        "#[doc(alias = \"ignore-it\", alias = \"key-it\")]",
        "#[allow(dead_code, reason = \"ignore\")]",
    ];
    let only = [
        "#[repr(C)]",
        "#[repr(align(16))]",
        "#[repr(C, align(0x10))]",
        "#[repr(align(1_6))]",
        "#[must_use]",
        "#[must_use = \"use it\"]",
        "#[non_exhaustive]",
        "#[doc(html_no_source)]",
        "#[clippy::msrv = \"1.50\"]",
    ];
    let n = both.len() + if on_struct { only.len() } else { 0 };
    let i = s.below(n as u64) as usize;
    if i < both.len() {
        both[i].to_string()
    } else if only[i - both.len()].contains("html_no_source") {
        "#[doc(hidden)]".to_string()
    } else {
        only[i - both.len()].to_string()
    }
}

fn vis(s: &mut Src, in_fn: bool) -> String {
    let all = ["", "pub", "pub(crate)", "pub(self)", "pub(super)", "pub(in crate)", "pub(in crate::@MOD@)", "crate_"];
    let i = s.weighted(&[6, 6, 2, 1, 1, 1, if in_fn { 0 } else { 1 }]);
    all[i].to_string()
}

// ---------------------------------------------------------------------------------------------
// types

struct Env {
    /// (name, concrete type)
    types: Vec<(String, String)>,
    keys: Vec<(String, String)>,
    consts: Vec<(String, String)>,
    lifetimes: Vec<String>,
    /// (written, concrete) of the structure itself
    me: Option<(String, String)>,
    mode: Mode,
}

/// A type which its user made readable; `~` is the lifetime.
const KEPT: &[(&str, &str)] = &[
    ("&~ @Kept", "&'static @Kept"),
    ("&~ mut @Kept", "&'static mut @Kept"),
    ("&~ mut @Kept", "&'static mut @Kept"),
    ("Box<dyn @Say>", "Box<dyn @Say>"),
    ("Box<dyn @Say + Send + Sync + 'static>", "Box<dyn @Say + Send + Sync>"),
    ("&~ (dyn @Say + '~)", "&'static dyn @Say"),
    ("&~ mut (dyn @Say + 'static)", "&'static mut dyn @Say"),
    ("&~ mut (dyn (@Say))", "&'static mut dyn @Say"),
    ("&~ (dyn @Say + Send)", "&'static (dyn @Say + Send)"),
    ("&~ &~ @Kept", "&'static &'static @Kept"),
    ("&~ mut &~ mut @Kept", "&'static mut &'static mut @Kept"),
];

fn leaf(s: &mut Src, g: &mut G, env: &Env) -> Ty {
    match s.below(13) {
        12 => {
            g.label("reference or trait object");
            let l = if env.lifetimes.is_empty() || s.chance(1, 3) { "'static".to_string() } else { s.pick(&env.lifetimes).clone() };
            let (t, c) = *s.pick(KEPT);
            let l = if t.contains("mut (dyn (") { "'static" } else { &l };
            let m = *s.pick(&["::vt::derive::rt::", "vt::derive::rt::"]);
            Ty::typed(&t.replace("'~", l).replace('~', l).replace('@', m), &c.replace('@', "::vt::derive::rt::"), false, false)
        }
        0..=3 => {
            let n = *s.pick(&["i32", "u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i64", "i128", "isize", "f32", "f64"]);
            let text = match s.below(8) {
                0 => format!("({})", n),
                1 => format!("::std::primitive::{}", n),
                2 => format!("<Vec<{}> as IntoIterator>::Item", n),
                _ => n.to_string(),
            };
            Ty::typed(&text, n, true, true)
        }
        4 => Ty::typed("bool", "bool", true, true),
        5..=7 => {
            let n = *s.pick(&["String", "String", "std::string::String", "::std::string::String", "(String)", "<str as ToOwned>::Owned"]);
            Ty::typed(n, "::std::string::String", true, true)
        }
        8 => {
            let n = *s.pick(&["json::Json", "::json::Json"]);
            Ty::typed(n, "::json::Json", true, false)
        }
        9 if g.aliases => {
            let n = if g.in_fn { "Int" } else { *s.pick(&["Int", "self::Int", "crate::@MOD@::Int"]) };
            Ty::typed(n, "i32", true, true)
        }
        10 => {
            let n = s.below(5);
            let text = match s.below(4) {
                0 => format!("::vt::derive::rt::Tag<{{{} + 1}}>", n),
                1 => format!("vt::derive::rt::Tag<{},>", n + 1),
                _ => format!("vt::derive::rt::Tag<{}>", n + 1),
            };
            Ty::typed(&text, &format!("::vt::derive::rt::Tag<{}>", n + 1), true, true)
        }
        _ => Ty::typed("i32", "i32", true, true),
    }
}

fn key_ty(s: &mut Src, env: &Env) -> (String, String) {
    if !env.keys.is_empty() && s.chance(2, 3) {
        return s.pick(&env.keys).clone();
    }
    let k = *s.pick(&["String", "String", "String", "i32", "u64", "bool", "char", "std::string::String"]);
    let c = if k.contains("String") { "::std::string::String" } else { k };
    (k.to_string(), c.to_string())
}

fn ty(s: &mut Src, g: &mut G, env: &Env, depth: u32) -> Ty {
    let mut t = plain_ty(s, g, env, depth);
    if g.type_macro && s.chance(1, 8) {
        g.label("macro call as a type");
        t.text = match s.below(3) {
            0 => format!("same!({})", t.text),
            1 => format!("same! [ {} ]", t.text),
            _ => format!("same! {{ {} }}", t.text),
        };
    }
    t
}

fn plain_ty(s: &mut Src, g: &mut G, env: &Env, depth: u32) -> Ty {
    if depth < 3 && s.chance(2, if depth == 0 { 4 } else { 6 }) {
        let comma = if s.chance(1, 8) { "," } else { "" };
        match s.below(5) {
            0 => {
                let mut t = ty(s, g, env, depth + 1);
                if t.gen.starts_with("rec::<") {
                    // of infinite size otherwise
                    let c = format!("::std::vec::Vec<{}>", t.conc);
                    t = Ty { gen: t.gen.clone(), ..Ty::typed(&format!("Vec<{}>", t.text), &c, false, true) };
                }
                let o = *s.pick(&["Option", "Option", "std::option::Option", "::core::option::Option", "Option::", "::std::option::Option::"]);
                let mut r = Ty::typed(&format!("{}<{}{}>", o, t.text, comma), &format!("::std::option::Option<{}>", t.conc), t.plain, true);
                if t.gen.contains("rec::<") {
                    r.gen = format!("::vt::derive::rt::rec::<{}>(s)", r.conc);
                }
                return r;
            }
            1 | 2 => {
                let t = ty(s, g, env, depth + 1);
                let o = *s.pick(&["Vec", "Vec", "Vec", "std::vec::Vec", "::std::vec::Vec", "Vec::", "std::vec::Vec::"]);
                let mut r = Ty::typed(&format!("{}<{}{}>", o, t.text, comma), &format!("::std::vec::Vec<{}>", t.conc), t.plain, true);
                if t.gen.contains("rec::<") {
                    r.gen = format!("::vt::derive::rt::rec::<{}>(s)", r.conc);
                }
                return r;
            }
            3 => {
                let (k, kc) = key_ty(s, env);
                let t = ty(s, g, env, depth + 1);
                let mut r = Ty::typed(&format!("Vec<({}, {}{})>{}", k, t.text, comma, ""), &format!("::std::vec::Vec<({}, {})>", kc, t.conc), t.plain, true);
                if t.gen.contains("rec::<") {
                    r.gen = format!("::vt::derive::rt::rec::<{}>(s)", r.conc);
                }
                return r;
            }
            _ => {
                let (k, kc) = key_ty(s, env);
                let t = ty(s, g, env, depth + 1);
                let mut names = vec!["HashMap", "std::collections::HashMap", "::std::collections::HashMap"];
                if g.aliases {
                    names.push("Map");
                    if !g.in_fn {
                        names.push("self::Map");
                    }
                }
                let o = *s.pick(&names);
                let mut r = Ty::typed(
                    &format!("{}<{}, {}{}>", o, k, t.text, comma),
                    &format!("::std::collections::HashMap<{}, {}>", kc, t.conc),
                    t.plain,
                    true,
                );
                if t.gen.contains("rec::<") {
                    r.gen = format!("::vt::derive::rt::rec::<{}>(s)", r.conc);
                }
                return r;
            }
        }
    }
    let mut ws = [8u32, 0, 0, 0, 0];
    if !env.types.is_empty() {
        ws[1] = 8;
    }
    if g.done.iter().any(|d| d.mode_both) {
        ws[2] = 3;
    }
    if env.me.is_some() && depth > 0 {
        ws[3] = 1;
    }
    if !env.consts.is_empty() {
        ws[4] = 3;
    }
    match s.weighted(&ws) {
        0 => leaf(s, g, env),
        1 => {
            g.label("field of a type parameter");
            let (n, c) = s.pick(&env.types).clone();
            Ty::typed(&n, &c, true, false)
        }
        2 => {
            g.label("field of another derived structure");
            let both: Vec<Done> = g.done.iter().filter(|d| d.mode_both).cloned().collect();
            let d = s.pick(&both);
            Ty::typed(&d.conc, &d.conc, false, false)
        }
        3 => {
            g.label("recursive structure");
            let (w, c) = env.me.clone().unwrap();
            let w = if s.chance(1, 3) { "Self".to_string() } else { w };
            let mut t = Ty::typed(&w, &c, false, false);
            // the collection around it takes care of the depth
            t.gen = format!("rec::<{}>", c);
            t
        }
        _ => {
            let (n, c) = s.pick(&env.consts).clone();
            Ty::typed(&format!("vt::derive::rt::Tag<{}>", n), &format!("::vt::derive::rt::Tag<{}>", c), true, true)
        }
    }
}

/// Borrowed fields: only encoded.
fn borrowed(s: &mut Src, g: &mut G, env: &Env) -> Ty {
    g.label("borrowed field");
    let l = if env.lifetimes.is_empty() || s.chance(1, 4) { "'static".to_string() } else { s.pick(&env.lifetimes).clone() };
    // what it borrows lives no shorter
    let inner = Env { me: None, lifetimes: if l == "'static" { vec![] } else { vec![l.clone()] }, ..clone_env(env) };
    match s.below(9) {
        0 | 1 => Ty::with(&format!("&{} str", l), "::vt::derive::rt::text(s)", "::vt::derive::rt::text_v({})", true),
        2 => {
            let n = *s.pick(&["i32", "u64", "f64", "bool", "u8"]);
            Ty::with(&format!("&{} {}", l, n), &format!("::vt::derive::rt::leak::<{}>(s)", n), "::vt::Typed::v({})", true)
        }
        3 | 4 => {
            let t = ty(s, g, &inner, 1);
            Ty::with(
                &format!("&{} [{}]", l, t.text),
                &format!("::vt::derive::rt::slice::<{}>(s)", t.conc),
                "::vt::derive::rt::slice_v({})",
                t.plain,
            )
        }
        5 => {
            let t = ty(s, g, &inner, 1);
            Ty::with(
                &format!("&{} [(String, {})]", l, t.text),
                &format!("::vt::derive::rt::pairs::<{}>(s)", t.conc),
                "::vt::derive::rt::pairs_v({})",
                t.plain,
            )
        }
        6 => Ty::with(&format!("Vec<&{} str>", l), "::vt::derive::rt::texts(s)", "::vt::derive::rt::texts_v(&{})", true),
        7 => Ty::with(&format!("Option<&{} str>", l), "::vt::derive::rt::maybe(s)", "::vt::derive::rt::maybe_v(&{})", true),
        _ => {
            let t = ty(s, g, &inner, 1);
            Ty::with(
                &format!("vt::derive::rt::Brw<{}, {}>", l, t.text),
                &format!("::vt::derive::rt::brw::<{}>(s)", t.conc),
                "::vt::Typed::v({}.0)",
                false,
            )
        }
    }
}

fn clone_env(e: &Env) -> Env {
    Env {
        types: e.types.clone(),
        keys: e.keys.clone(),
        consts: e.consts.clone(),
        lifetimes: e.lifetimes.clone(),
        me: e.me.clone(),
        mode: e.mode,
    }
}

/// Ignored fields may have any type: (text, value, test of the default, plain).
fn opaque(s: &mut Src, g: &mut G, env: &Env) -> (String, String, String, bool) {
    g.label("ignored field of an arbitrary type");
    let d = "::std::default::Default::default()";
    let any_ty = |s: &mut Src| -> String {
        let mut all: Vec<String> = env.types.iter().chain(env.keys.iter()).map(|x| x.0.clone()).collect();
        all.push("i32".to_string());
        s.pick(&all).clone()
    };
    if env.mode == Mode::Enc && s.chance(1, 2) {
        let l = if env.lifetimes.is_empty() || s.flag() { "'static".to_string() } else { s.pick(&env.lifetimes).clone() };
        let opts: Vec<(String, &str)> = vec![
            ("*const i32".into(), "::std::ptr::null()"),
            ("*mut Vec<u8>".into(), "::std::ptr::null_mut()"),
            ("*const dyn Fn(i32) -> i32".into(), "(&|x| x) as *const dyn Fn(i32) -> i32"),
            (format!("&{} dyn Fn(i32) -> i32", l), "&|x| x"),
            (format!("&{} (dyn Fn(i32) -> i32 + Sync)", l), "&|x| x"),
            (format!("&{} mut i32", l), "::std::boxed::Box::leak(::std::boxed::Box::new(7))"),
            (format!("&{0} mut &{0} str", l), "::std::boxed::Box::leak(::std::boxed::Box::new(\"x\"))"),
            (format!("&{0} &{0} str", l), "&\"x\""),
            ("Box<dyn for<'z> Fn(&'z i32) -> &'z i32>".into(), "::std::boxed::Box::new(|x| x)"),
            ("Box<dyn std::any::Any + Send + 'static>".into(), "::std::boxed::Box::new(3i32)"),
            ("fn(i32) -> i32".into(), "|x| x"),
            ("for<'z> fn(&'z str, i32,) -> &'z str".into(), "|x, _| x"),
            ("unsafe extern \"C\" fn(i32) -> i32".into(), "::vt::derive::rt::foreign"),
            ("[fn() -> u8; 2]".into(), "[|| 1, || 2]"),
            ("std::cell::Cell<&'static str>".into(), "::std::cell::Cell::new(\"x\")"),
        ];
        let o = s.pick(&opts).clone();
        return (o.0, o.1.to_string(), "true".into(), false);
    }
    let t = any_ty(s);
    let opts: Vec<(String, &str, &str, bool)> = vec![
        ("(i32, String)".into(), "(7, \"seven\".to_string())", "{} == (0, ::std::string::String::new())", true),
        ("(u8,)".into(), "(7,)", "{} == (0,)", true),
        ("()".into(), "()", "{} == ()", true),
        ("[u8; 4]".into(), "[1, 2, 3, 4]", "{} == [0; 4]", true),
        ("[[u8; 2]; 1 + 1]".into(), "[[1; 2]; 2]", "{} == [[0; 2]; 2]", true),
        ("((), (i32,), [bool; 3])".into(), "((), (1,), [true; 3])", "{} == ((), (0,), [false; 3])", true),
        ("std::collections::BTreeMap<u8, Vec<u8>>".into(), "[(1u8, vec![2u8])].into_iter().collect()", "{}.is_empty()", true),
        ("std::collections::HashSet<(u8, String)>".into(), "[(1u8, \"x\".to_string())].into_iter().collect()", "{}.is_empty()", true),
        ("std::cell::RefCell<Vec<i32>>".into(), "::std::cell::RefCell::new(vec![1])", "{}.borrow().is_empty()", true),
        ("Option<Box<(i32, i32)>>".into(), "::std::option::Option::Some(::std::boxed::Box::new((1, 2)))", "{}.is_none()", true),
        ("Option<fn(i32) -> i32>".into(), "::std::option::Option::Some(|x| x)", "{}.is_none()", true),
        ("Option<for<'z> fn(&'z i32) -> &'z i32>".into(), "::std::option::Option::Some(|x| x)", "{}.is_none()", false),
        ("Option<unsafe fn()>".into(), "::std::option::Option::None", "{}.is_none()", true),
        ("Option<extern \"C\" fn(i32, u8) -> u8>".into(), "::std::option::Option::None", "{}.is_none()", true),
        ("Option<Box<dyn Fn(i32) -> i32 + Send + 'static>>".into(), "::std::option::Option::Some(::std::boxed::Box::new(|x| x))", "{}.is_none()", false),
        ("Option<Box<dyn Fn() -> Result<(), Box<dyn std::error::Error + Send + Sync + 'static>> + Send>>".into(), "::std::option::Option::None", "{}.is_none()", false),
        ("Option<Box<dyn Iterator<Item = (i32, String)>>>".into(), "::std::option::Option::None", "{}.is_none()", false),
        ("Option<&'static str>".into(), "::std::option::Option::Some(\"x\")", "{}.is_none()", true),
        ("&'static str".into(), "\"x\"", "{}.is_empty()", true),
        ("Option<*const u8>".into(), "::std::option::Option::None", "{}.is_none()", true),
        ("std::time::Duration".into(), "::std::time::Duration::from_secs(1)", "{}.is_zero()", true),
        ("Option<<Vec<i32> as IntoIterator>::IntoIter>".into(), "::std::option::Option::None", "{}.is_none()", false),
        ("std::rc::Rc<std::cell::Cell<u8>>".into(), "::std::rc::Rc::new(::std::cell::Cell::new(4))", "{}.get() == 0", true),
        (format!("std::marker::PhantomData<{}>", t), d, "true", true),
        (format!("std::marker::PhantomData<fn({}) -> Vec<{}>>", t, t), d, "true", true),
        (format!("Option<{}>", t), "::std::option::Option::None", "{}.is_none()", false),
        (format!("Vec<Vec<{}>>", t), d, "{}.is_empty()", false),
    ];
    let n = opts.len() as u64;
    let skip_result = g.result_alias;
    loop {
        let o = &opts[s.below(n) as usize];
        if skip_result && o.0.contains("Result<") {
            continue;
        }
        return (o.0.clone(), o.1.to_string(), o.2.to_string(), o.3);
    }
}

// ---------------------------------------------------------------------------------------------
// one structure

struct Built {
    /// with the derives
    def: String,
    /// without them
    control: String,
    glue: String,
    entry: String,
    caps: (bool, bool),
    drawn: usize,
}

/// A bound which the structure cannot do without; `#` is the module of the traits, `$` the parameter.
const NEEDED: &[&str] = &[
    "#Sized", "#Sized", "#Fn", "#r~type", "#Größe", "#Of<$>", "#Of<Vec<$>>", "#Of<[$]>", "#Of<[$; 2]>", "#Of<($, u8)>", "#Of<($,)>", "#Of<()>", "#Of<str>", "#Of<*const $>",
    "#Of<fn($) -> Option<$>>", "#Of<dyn Fn($) -> $>", "#Of<Box<dyn Fn(&$) -> &$ + Send>>", "for<'z> #Of<&'z $>", "for<'z> #Of<&'z mut [$]>", "#Two<Vec<Vec<$>>, $>",
    "#Two<$, fn()>", "#Num<3>", "#Num<{ 1 + 2 }>", "#Num<0x3>", "#Neg<-1>", "#Neg<{ -1 }>", "#Chr<'>'>", "#Chr<','>", "#Boo<true>", "#Life<'static>", "for<'z> #Life<'z>", "(for<'z> #Life<'z>)",
    "#Out<Item = $>", "#Out<Item = $, Text = str>", "#Out", "#Out<Item: Clone>", "#Out<Text:ToString>", "#Out<Item: Clone + #Of<Vec<$>>, Text = str>", "#Out<Item: #Out<Item: ::core::clone::Clone>>", "#Out<Item: 'static>", "#Of<<$ as #Out>::Item> + #Out<Item = $>", "(#Sized)", "#Of<$,>",
];

fn needed(s: &mut Src, p: &str) -> String {
    let m = *s.pick(&["::vt::derive::rt::named::", "vt::derive::rt::named::"]);
    s.pick(NEEDED).replace('#', m).replace('$', p).replace("r~type", "r#type")
}

fn bound(s: &mut Src, mode: Mode, p_name: &str) -> Vec<String> {
    let mut b: Vec<String> = Vec::new();
    let p = *s.pick(&["json::", "::json::"]);
    if mode != Mode::Dec {
        b.push(format!("{}ToJson", p));
    }
    if mode != Mode::Enc {
        b.push(format!("{}FromJson", p));
    }
    if s.chance(1, 4) {
        b.push(s.pick(&["Clone", "std::fmt::Debug", "PartialEq", "'static", "Sized", "std::any::Any"]).to_string());
    }
    if s.chance(1, 3) {
        b.push(needed(s, p_name));
    }
    if b.len() > 1 && s.chance(1, 3) {
        let x = b.remove(0);
        b.push(x);
    }
    if s.chance(1, 12) && !b[0].starts_with(['\'', '(']) && !b[0].contains("> + ") {
        b[0] = format!("({})", b[0]);
    }
    b
}

/// Does the text name this crate other than by `::name`?
fn relative(text: &str, name: &str) -> bool {
    text.match_indices(&format!("{}::", name)).any(|(i, _)| !text[..i].ends_with("::"))
}

fn param_attr(s: &mut Src, of: &str) -> &'static str {
    if of.contains('>') {
        // rustc itself fails at #[cfg] on such a one
        if s.chance(1, 15) { "#[allow(unused)] " } else { "" }
    } else if s.chance(1, 15) {
        s.pick(&["#[allow(unused)] ", "#[cfg(all())] ", "#[cfg(any())] Gone, #[warn(dead_code)] ", "#[allow(unused)] #[cfg(not(any()))] "])
    } else {
        ""
    }
}

/// What a packed structure may have as a field: a copy is taken of it, unless it is aligned anyway.
fn fits_packed(t: &Ty, packing: u32) -> bool {
    let c = if t.conc.is_empty() { t.text.as_str() } else { t.conc.as_str() };
    if packing >= 8 {
        // nothing aligned at 16, no structure that may ask for it and nothing unknown
        return t.typed && !["i128", "u128"].contains(&inner(c)) && known(inner(c));
    }
    let i = inner(c);
    is_number(i) || i == "bool" || i.starts_with("::vt::derive::rt::Tag<") || (i.starts_with('&') && !i.contains(" mut "))
}

fn is_number(c: &str) -> bool {
    ["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "i128", "u128", "isize", "usize", "f32", "f64"].contains(&c)
}

fn known(c: &str) -> bool {
    is_number(c) || c == "bool" || ["::std::string::String", "::std::vec::Vec<", "::std::collections::HashMap<", "::json::Json", "::vt::derive::rt::Tag<"].iter().any(|p| c.starts_with(p))
}

/// Of options around it, the innermost.
fn inner(c: &str) -> &str {
    for p in ["::std::option::Option<", "Option<"] {
        if let Some(r) = c.strip_prefix(p).and_then(|r| r.strip_suffix('>')) {
            return inner(r);
        }
    }
    c
}

/// Names in the values' and the macros' namespace that mean something else here.
const ELSEWHERE: &[&str] = &[
    "fn Ok() {}", "const Ok: u8 = 0;", "fn Err(_: u8) {}", "static Err: u8 = 0;", "const Some: u8 = 0;", "const None: u8 = 0;",
    "macro_rules! unreachable { () => { compile_error!(\"unreachable\") } }", "macro_rules! format { ($($t:tt)*) => { 1u8 } }", "macro_rules! stringify { ($($t:tt)*) => { 1u8 } }",
    "macro_rules! panic { ($($t:tt)*) => { 1u8 } }", "const v: u8 = 0;", "static obj: u8 = 0;", "const obj: u8 = 1;", "static js: u8 = 0;", "const map: u8 = 0;", "static json: u8 = 0;",
    "const other: u8 = 0;", "static x: u8 = 0;", "const k: u8 = 0;", "trait __Named { fn to_string(&self) {} } impl __Named for str {} impl __Named for u8 {}",
    "trait __Taken: Sized { fn add_option(self) {} fn get(self) {} fn _kind(self) {} fn to_json(self) {} fn from_json(self) {} } impl<T> __Taken for T {}",
];

fn is_helper(a: &str) -> bool {
    a.starts_with("#[key") || a.starts_with("#[ignore") || a.starts_with("#[cfg_attr(all(), key") || a.contains(", ignore)]")
}

/// What reduction took out again: whole structures, fields, the decoration of fields.
pub type Mask = std::collections::BTreeSet<u64>;
pub fn mask_code(structure: usize, field: usize, what: u64) -> u64 {
    (structure as u64) << 20 | (field as u64) << 4 | what
}
pub const WHOLE: u64 = 0;
pub const FIELD: u64 = 1;
pub const ATTRS: u64 = 2;

fn structure(s: &mut Src, g: &mut G, index: usize, mask: &Mask) -> Built {
    let mode = match g.purpose {
        Purpose::Encode => *s.pick(&[Mode::Both, Mode::Both, Mode::Enc]),
        Purpose::Decode => *s.pick(&[Mode::Both, Mode::Both, Mode::Dec]),
        Purpose::Accept | Purpose::Macros => *s.pick(&[Mode::Both, Mode::Both, Mode::Enc, Mode::Dec]),
    };
    let mut name = s.pick(STRUCT_NAMES).to_string();
    while g.used_names.contains(&name) || (name == "Result" && g.result_alias) {
        name = format!("N{}{}", index, g.used_names.len());
    }
    g.used_names.push(name.clone());
    g.used_names.push(plain_name(&name).to_string());
    g.used_names.push(format!("r#{}", plain_name(&name)));

    // packed: fields cannot be borrowed
    let packed: Option<(u32, &str)> = if s.chance(1, 9) {
        g.label("packed structure");
        Some(*s.pick(&[
            (1, "#[repr(packed)]"),
            (1, "#[repr(packed)]"),
            (1, "#[repr(C, packed)]"),
            (1, "#[repr(packed, C,)]"),
            (1, "#[repr(packed(1))]"),
            (2, "#[repr(packed(2))]"),
            (2, "#[repr(packed(2), C)]"),
            (2, "#[repr(C)] #[repr(packed(2))]"),
            (1, "#[repr(packed)] #[repr(C)]"),
            (4, "#[repr(C, packed(0x4))]"),
            (4, "#[repr(packed(0b1_00))]"),
            (1, "#[cfg_attr(all(), repr(packed))]"),
            (8, "#[repr(packed(8))]"),
            (16, "#[repr(C, packed(16))]"),
        ]))
    } else {
        None
    };
    let packing = packed.map_or(0, |p| p.0);

    // generics
    let mut env = Env { types: vec![], keys: vec![], consts: vec![], lifetimes: vec![], me: None, mode };
    let mut decl: Vec<String> = Vec::new();
    let mut args: Vec<String> = Vec::new();
    let mut here: Vec<String> = Vec::new();
    let mut wheres: Vec<String> = Vec::new();
    let mut phantom: Vec<String> = Vec::new();
    if s.chance(2, if mode == Mode::Enc { 3 } else { 10 }) {
        g.label("lifetime parameters");
        let n = s.range(1, 3);
        for i in 0..n {
            let l = if s.chance(1, 10) { ["'r#fn", "'r#c", "'r#async"][i].to_string() } else { ["'a", "'b", "'json"][i].to_string() };
            let b = if i > 0 && s.chance(1, 2) { format!(": {}", env.lifetimes.join(" + ")) } else { String::new() };
            let b = if s.chance(1, 10) && b.is_empty() { ":".to_string() } else { b };
            decl.push(format!("{}{}{}", param_attr(s, &b), l, b));
            args.push("'static".into());
            here.push(l.clone());
            if s.chance(1, 6) && i > 0 {
                wheres.push(format!("{}: {}", l, env.lifetimes[0]));
            }
            env.lifetimes.push(l.clone());
            phantom.push(format!("&{} ()", l));
        }
    }
    let mut later: Vec<(String, String, String)> = Vec::new();
    if s.chance(2, 5) {
        g.label("type parameters");
        let n = s.range(1, 3);
        for i in 0..n {
            let p = s.pick(&["T", "U", "Elem", "T1", "X", "P"]).to_string();
            let p = if env.types.iter().any(|t| t.0 == p) || g.used_names.contains(&p) { format!("{}{}", p, i + 5) } else { p };
            let c = if packed.is_some() {
                s.pick(&["i32", "bool", "f64", "::std::option::Option<i64>", "u64"]).to_string()
            } else {
                s.pick(&["i32", "::std::string::String", "bool", "f64", "::std::vec::Vec<u8>", "::std::option::Option<i64>", "u64"]).to_string()
            };
            let mut b = bound(s, mode, &p);
            if packed.is_some() {
                let at = s.below(b.len() as u64 + 1) as usize;
                b.insert(at, s.pick(&["Copy", "::core::marker::Copy"]).to_string());
            }
            let to_where = s.chance(1, 3);
            if to_where {
                g.label("where clause");
                wheres.push(format!("{}: {}", p, b.join(" + ")));
                b = if s.chance(1, 4) { vec!["Clone".into()] } else { vec![] };
            }
            if !env.lifetimes.is_empty() && s.flag() {
                b.insert(0, env.lifetimes[0].clone());
            }
            if mode == Mode::Enc {
                wheres.push(format!("{}: 'static", p));
            }
            let b = if b.is_empty() { if s.chance(1, 6) { ":".into() } else { String::new() } } else { format!(": {}", b.join(" + ")) };
            let dflt = if i + 1 == n && s.chance(1, 4) {
                g.label("default of a type parameter");
                format!(" = {}", c)
            } else {
                String::new()
            };
            later.push((p.clone(), format!("{}{}{}{}", param_attr(s, &format!("{}{}", b, dflt)), p, b, dflt), c.clone()));
            env.types.push((p.clone(), c));
            if s.chance(1, 4) {
                g.label("where clause");
                let (e, d) = (mode != Mode::Dec, mode != Mode::Enc);
                let mut w: Vec<String> = Vec::new();
                if e {
                    w.push(format!("Vec<{}>: json::ToJson", p));
                    w.push(format!("(Option<{}>): json::ToJson", p));
                }
                if d {
                    w.push(format!("std::collections::HashMap<String, {}>: json::FromJson + Sized", p));
                }
                w.push(format!("for<'z> &'z {}: Sized", p));
                w.push(format!("fn({}) -> {}: Copy", p, p));
                w.push(format!("({}, u8): Clone", p));
                w.push(format!("<Vec<{0}> as IntoIterator>::Item: PartialEq<{0}>", p));
                w.push(format!("{}:", p));
                w.push(format!("Box<dyn Fn({0}) -> Option<{0}> + Send>: Sized", p));
                let x = s.pick(&w).clone();
                if x.contains("Clone") {
                    wheres.push(format!("{}: Clone", p));
                }
                if x.contains("PartialEq<") {
                    wheres.push(format!("{}: PartialEq", p));
                }
                if x.starts_with("for<") {
                    wheres.push(format!("{}: 'static", p));
                }
                wheres.push(x);
            }
            phantom.push(p);
        }
    }
    if s.chance(1, 8) {
        let c = *s.pick(&["::std::string::String", "i32", "u64"]);
        let b = "std::hash::Hash + Eq";
        let b = match mode {
            Mode::Enc => format!("{} + ToString", b),
            Mode::Dec => format!("{} + std::str::FromStr", b),
            Mode::Both => format!("ToString + {} + std::str::FromStr", b),
        };
        if s.flag() {
            later.push(("K".into(), format!("K: {}", b), c.into()));
        } else {
            later.push(("K".into(), "K".into(), c.into()));
            wheres.push(format!("K: {}", b));
        }
        if mode == Mode::Enc {
            wheres.push("K: 'static".into());
        }
        env.keys.push(("K".into(), c.into()));
        phantom.push("K".into());
    }
    if later.iter().any(|l| l.1.contains(" = ")) {
        // defaults come last
        later.sort_by_key(|l| l.1.contains(" = "));
    }
    let mut consts = Vec::new();
    if s.chance(1, 8) {
        g.label("const parameters");
        let c = format!("{}", s.below(4));
        let d = if later.iter().any(|l| l.1.contains(" = ")) || s.chance(1, 4) { format!(" = {}", s.pick(&["3", "{ 1 + 2 }"])) } else { String::new() };
        consts.push(("N".to_string(), format!("{}const N: usize{}", param_attr(s, &d), d), c.clone()));
        env.consts.push(("N".into(), c));
    }
    for (p, d, c) in later.into_iter().chain(consts) {
        decl.push(d);
        args.push(c);
        here.push(p);
    }
    let tc = |s: &mut Src| if s.chance(1, 6) { "," } else { "" };
    let (generics, concrete, own) = if decl.is_empty() {
        let e = if s.chance(1, 12) { "<>" } else { "" };
        (e.to_string(), name.clone(), name.clone())
    } else {
        (
            format!("<{}{}>", decl.join(", "), tc(s)),
            format!("{}<{}>", name, args.join(", ")),
            format!("{}<{}>", name, here.join(", ")),
        )
    };
    // a call of the derived code on itself needs the bounds again; keep to structures without lifetimes
    if env.lifetimes.is_empty() && mode == Mode::Both && packed.is_none() {
        env.me = Some((own, concrete.clone()));
    }

    // fields
    let want = match s.weighted(&[10, 3, 1, 1]) {
        0 => s.range(1, 6),
        1 => s.range(6, 14),
        2 => 0,
        _ => s.range(15, 60),
    };
    let want = match g.purpose {
        Purpose::Accept if want > 20 && s.chance(1, 3) => 200,
        Purpose::Encode | Purpose::Decode if want > 40 && s.chance(1, 2) => s.range(61, 280),
        _ => want,
    };
    let mut fields: Vec<Field> = Vec::new();
    let mut names: Vec<String> = Vec::new();
    for i in 0..want {
        let mut n = s.pick(FIELD_NAMES).to_string();
        if names.iter().any(|x| plain_name(x) == plain_name(&n)) {
            n = format!("f{}", i);
        }
        names.push(n.clone());
        let ignored = s.chance(1, 5);
        let mut key = plain_name(&n).to_string();
        let mut key_literal = None;
        if s.chance(2, 5) {
            let k = if !fields.is_empty() && s.chance(1, 7) {
                // that of another field
                let j = s.below(fields.len() as u64) as usize;
                fields[j].key.clone()
            } else if s.chance(1, 8) {
                plain_name(s.pick(FIELD_NAMES)).to_string()
            } else {
                match s.below(3) {
                    0 => gen::key(s),
                    1 => gen::string(s),
                    _ => s.pick(&["type", "r#type", "{}", "{0}", "{:?}", "a\"b", "a\\", "\"", "\\\"", "key", "#", "\"#", "a b", "日本", "ignore", "\\n"]).to_string(),
                }
            };
            g.label("key attribute");
            key_literal = Some(rust_string(s, &k));
            key = k;
        }
        let kind = if packed.is_some() {
            if ignored {
                g.label("ignored field");
            }
            let mut found = None;
            for _ in 0..8 {
                let t = if mode == Mode::Enc && s.chance(1, 3) { borrowed(s, g, &env) } else { ty(s, g, &env, 0) };
                let param = t.text.split(|c: char| !c.is_alphanumeric()).any(|w| env.types.iter().any(|p| p.0 == w));
                if t.text.contains("dyn") || (ignored && (!t.dflt || !t.typed)) || (packing >= 8 && param) {
                    continue;
                }
                if fits_packed(&t, packing) {
                    found = Some(t);
                    break;
                }
            }
            let t = found.unwrap_or_else(|| Ty::typed("u32", "u32", true, true));
            if ignored {
                let d = format!("::vt::Typed::same(&{{}}, &<{} as ::std::default::Default>::default())", t.conc);
                (t.text.clone(), Kind::Ignored(t.gen.clone(), d), t.plain)
            } else {
                (t.text.clone(), Kind::Member(t.clone()), t.plain)
            }
        } else if ignored {
            g.label("ignored field");
            if s.chance(1, 2) {
                let t = loop {
                    let t = ty(s, g, &Env { me: None, mode, ..clone_env(&env) }, 1);
                    if t.dflt {
                        break t;
                    }
                };
                (t.text.clone(), Kind::Ignored(t.gen.clone(), format!("::vt::Typed::same(&{{}}, &<{} as ::std::default::Default>::default())", t.conc)), t.plain)
            } else {
                let (t, v, d, p) = opaque(s, g, &env);
                (t, Kind::Ignored(v, d), p)
            }
        } else if mode == Mode::Enc && s.chance(1, 3) {
            let t = borrowed(s, g, &env);
            (t.text.clone(), Kind::Member(t.clone()), t.plain)
        } else {
            let t = ty(s, g, &env, 0);
            (t.text.clone(), Kind::Member(t.clone()), t.plain)
        };
        let mut attrs: Vec<String> = Vec::new();
        while s.chance(1, 4) && attrs.len() < 4 {
            let a = attr(s, false);
            if !(a.contains("deprecated") && attrs.iter().any(|b| b.contains("deprecated"))) {
                attrs.push(a);
            }
        }
        if let Some(k) = &key_literal {
            let a = if s.chance(1, 10) { format!("#[cfg_attr(all(), key = {})]", k) } else { format!("#[key = {}]", k) };
            let at = s.below(attrs.len() as u64 + 1) as usize;
            attrs.insert(at, a);
        }
        if ignored {
            let a = if s.chance(1, 10) { "#[cfg_attr(not(any()), ignore)]" } else { "#[ignore]" };
            let at = s.below(attrs.len() as u64 + 1) as usize;
            attrs.insert(at, a.to_string());
        }
        let plain = kind.2;
        let v = vis(s, g.in_fn);
        fields.push(Field {
            vis: v,
            name: n,
            attrs,
            key,
            key_literal,
            ty: kind.0,
            kind: match kind.1 {
                Kind::Member(mut t) => {
                    t.plain = plain;
                    Kind::Member(t)
                }
                o => o,
            },
        });
        if !plain {
            g.label("field without Clone");
            names.push(String::from("!"));
        }
    }
    let all_plain = !names.iter().any(|n| n == "!");
    let drawn = fields.len();
    let mut at = 0;
    fields.retain_mut(|f| {
        let i = at;
        at += 1;
        if mask.contains(&mask_code(index, i, ATTRS)) {
            f.attrs.retain(|a| is_helper(a));
        }
        !mask.contains(&mask_code(index, i, FIELD))
    });
    // every parameter must be used
    if !phantom.is_empty() {
        let mut n = "marker".to_string();
        while fields.iter().any(|f| f.name == n) {
            n.push('_');
        }
        let t: Vec<String> = phantom.iter().map(|p| format!("std::marker::PhantomData<{}>", p)).collect();
        let t = if t.len() == 1 { t[0].clone() } else { format!("({})", t.join(", ")) };
        fields.push(Field {
            vis: String::new(),
            key: n.clone(),
            name: n,
            attrs: vec!["#[ignore]".into()],
            key_literal: None,
            ty: t,
            kind: Kind::Ignored("::std::default::Default::default()".into(), "true".into()),
        });
    }
    let mut uniq: Vec<&String> = fields.iter().filter(|f| matches!(f.kind, Kind::Member(_))).map(|f| &f.key).collect();
    uniq.sort();
    let members = uniq.len();
    uniq.dedup();
    let distinct = uniq.len() == members;
    if !distinct {
        g.label("several fields of one key");
    }

    // attributes and derives
    let derives: Vec<&str> = match mode {
        Mode::Both => vec!["JsonEncode", "JsonDecode"],
        Mode::Enc => vec!["JsonEncode"],
        Mode::Dec => vec!["JsonDecode"],
    };
    let mut derives: Vec<String> = derives.into_iter().map(|d| d.to_string()).collect();
    if s.chance(1, 3) {
        derives.reverse();
    }
    for d in derives.iter_mut() {
        let p = *s.pick(&["", "json::", "::json::"]);
        *d = format!("{}{}", p, d);
    }
    let mut own_debug = true;
    let mut others: Vec<String> = Vec::new();
    if all_plain && !g.type_macro && packed.is_none() && s.chance(1, 4) {
        g.label("other derives");
        others = vec!["Clone".into(), "PartialEq".into(), "std::fmt::Debug".into()];
        own_debug = false;
    }
    let mut attrs: Vec<(String, bool)> = Vec::new();
    if s.chance(1, 4) {
        // one by one
        for d in &derives {
            let t = if s.chance(1, 6) { format!("#[cfg_attr(all(), derive({}))]", d) } else { format!("#[derive({})]", d) };
            attrs.push((t, true));
        }
        if !others.is_empty() {
            attrs.push((format!("#[derive({})]", others.join(", ")), false));
        }
    } else if !others.is_empty() && s.flag() {
        let mut l = derives.clone();
        l.extend(others.iter().cloned());
        attrs.push((format!("#[derive({}{})]", l.join(", "), tc(s)), true));
        own_debug = false;
    } else {
        attrs.push((format!("#[derive({}{})]", derives.join(", "), tc(s)), true));
        if !others.is_empty() {
            let at = s.below(2) as usize;
            attrs.insert(at, (format!("#[derive({})]", others.join(", ")), false));
        }
    }
    let mut reprs = 0;
    if let Some((_, a)) = packed {
        reprs = 1;
        let at = s.below(attrs.len() as u64 + 1) as usize;
        attrs.insert(at, (a.to_string(), false));
    }
    while s.chance(1, 4) && attrs.len() < 8 {
        let a = attr(s, true);
        if a.contains("repr") || a.contains("must_use") || a.contains("deprecated") {
            reprs += 1;
            if reprs > 1 {
                continue;
            }
        }
        let at = s.below(attrs.len() as u64 + 1) as usize;
        attrs.insert(at, (a, false));
    }

    let place = |of: &str, name: &str| match packing {
        1..=7 => format!("({{ {}.{} }})", of, name),
        _ => format!("{}.{}", of, name),
    };

    // text
    let mut params: Vec<(String, String)> = Vec::new();
    let wrap = s.chance(1, 7);
    let all_in_macro = wrap && s.chance(1, 4);
    let mut frag = |s: &mut Src, kind: &str, text: &str| -> String {
        if wrap && !all_in_macro && s.flag() {
            let n = format!("p{}", params.len());
            params.push((format!("${}:{}", n, kind), text.to_string()));
            format!("${}", n)
        } else {
            text.to_string()
        }
    };
    let svis = vis(s, g.in_fn);
    let svis_t = frag(s, "vis", &svis);
    let name_t = frag(s, "ident", &name);
    let mut body = String::new();
    let mut bare = String::new();
    let hidden = s.chance(1, 12);
    let n = fields.len();
    for (i, f) in fields.iter().enumerate() {
        if hidden && i == n / 2 {
            body.push_str("    #[cfg(any())] gone: NoSuchType,\n");
            bare.push_str("    #[cfg(any())] gone: NoSuchType,\n");
        }
        for a in &f.attrs {
            let mut a = a.clone();
            let helper = is_helper(&a);
            if let Some(k) = &f.key_literal {
                if a == format!("#[key = {}]", k) {
                    let t = frag(s, "literal", k);
                    a = format!("#[key = {}]", t);
                }
            }
            body.push_str(&format!("    {}\n", a));
            if !helper {
                bare.push_str(&format!("    {}\n", a));
            }
        }
        let v = frag(s, "vis", &f.vis);
        let fname = if wrap { frag(s, "ident", &f.name) } else { f.name.clone() };
        let t = frag(s, "ty", &f.ty);
        let comma = if i + 1 == n && s.flag() { "" } else { "," };
        let line = format!("    {} {}: {}{}\n", v, fname, t, comma);
        body.push_str(&line);
        bare.push_str(&line);
    }
    let wh = if wheres.is_empty() {
        if s.chance(1, 30) {
            "where ".to_string()
        } else {
            String::new()
        }
    } else {
        format!("where {}{} ", wheres.join(", "), tc(s))
    };
    let render = |derives: bool| -> String {
        let mut o = String::new();
        for (a, is) in &attrs {
            if derives || !is {
                o.push_str(a);
                o.push('\n');
            }
        }
        let b = if derives { &body } else { &bare };
        o.push_str(&format!("{} struct {}{} {}{{\n{}}}\n", svis_t, name_t, generics, wh, b));
        if wrap {
            let pats: Vec<String> = params.iter().map(|p| p.0.clone()).collect();
            let vals: Vec<String> = params.iter().map(|p| p.1.clone()).collect();
            format!(
                "macro_rules! make{} {{ ({}) => {{\n{}}} }}\nmake{}!{{{}}}\n",
                index,
                pats.iter().map(|x| format!("{}, ", x)).collect::<String>(),
                o,
                index,
                vals.iter().map(|x| format!("{}, ", x)).collect::<String>()
            )
        } else {
            o
        }
    };
    if wrap {
        g.label("written by macro_rules");
    }
    let def = render(true);
    let control = render(false);

    // glue
    let c = format!("C{}", index);
    let mut glue = format!("type {} = {};\n", c, concrete);
    // structure literals take the bare name
    let init: String = fields
        .iter()
        .map(|f| match &f.kind {
            Kind::Member(t) => format!("{}: {}, ", f.name, t.gen),
            Kind::Ignored(v, _) => format!("{}: {}, ", f.name, v),
        })
        .collect();
    let v: String = fields
        .iter()
        .filter_map(|f| match &f.kind {
            Kind::Member(t) => Some(format!("({:?}.to_string(), {}), ", f.key, t.v.replace("{}", &place("self", &f.name)))),
            _ => None,
        })
        .collect();
    let vbody = format!("::vt::model::V::Obj(::std::vec![{}])", v);
    if mode != Mode::Enc {
        let mut dec = String::new();
        let mut built = String::new();
        let mut same = String::from("true");
        for (i, f) in fields.iter().enumerate() {
            match &f.kind {
                Kind::Member(t) => {
                    assert!(t.typed);
                    dec.push_str(&format!("let f{} = st.field::<{}>(m, {:?});\n", i, t.conc, f.key));
                    built.push_str(&format!("{}: f{}.unwrap(), ", f.name, i));
                    same.push_str(&format!(" && ::vt::Typed::same(&{}, &{})", place("self", &f.name), place("o", &f.name)));
                }
                Kind::Ignored(_, d) => {
                    built.push_str(&format!("{}: ::std::default::Default::default(), ", f.name));
                    // the other one must hold the default
                    same.push_str(&format!(" && {{ {} }}", d.replace("{}", &place("o", &f.name))));
                }
            }
        }
        if own_debug {
            glue.push_str(&format!(
                "impl ::std::fmt::Debug for {} {{ fn fmt(&self, f: &mut ::std::fmt::Formatter) -> ::std::fmt::Result {{ f.write_str(&::vt::model::show(&::vt::Typed::v(self))) }} }}\n",
                c
            ));
        }
        if mode == Mode::Dec {
            glue.push_str(&format!("impl ::json::ToJson for {} {{ fn to_json(&self) -> ::json::Json {{ ::vt::Typed::v(self).to_json() }} }}\n", c));
        }
        glue.push_str(&format!(
            "impl ::vt::Typed for {c} {{\n    fn gen(s: &mut ::vt::Src) -> Self {{ let _deeper = ::vt::derive::rt::deeper(); {name} {{ {init} }} }}\n    fn v(&self) -> ::vt::model::V {{ {vbody} }}\n    fn dec(v: &::vt::model::V) -> ::vt::D<Self> {{\n        let m = match v {{ ::vt::model::V::Obj(m) => m, _ => return ::vt::D::No(::vt::checks::types::CONVERT) }};\n        let mut st = ::vt::derive::rt::Reader::new();\n        {dec}        match st.end() {{ ::std::option::Option::Some(e) => e.into_d(), ::std::option::Option::None => ::vt::D::Is({name} {{ {built} }}) }}\n    }}\n    fn same(&self, o: &Self) -> bool {{ {same} }}\n    fn name() -> ::std::string::String {{ {shown:?}.to_string() }}\n}}\n",
            c = c, name = name, init = init, vbody = vbody, dec = dec, built = built, same = same, shown = concrete
        ));
        let keys: Vec<String> = fields
            .iter()
            .map(|f| format!("({:?}, {:?}, {})", f.key, plain_name(&f.name), matches!(f.kind, Kind::Member(_))))
            .collect();
        glue.push_str(&format!(
            "impl ::vt::derive::rt::Fields for {} {{ fn fields() -> &'static [(&'static str, &'static str, bool)] {{ &[{}] }} }}\n",
            c,
            keys.join(", ")
        ));
        if mode == Mode::Both {
            glue.push_str(&format!(
                "impl ::vt::derive::rt::Enc for {} {{ fn gen(s: &mut ::vt::Src) -> Self {{ <Self as ::vt::Typed>::gen(s) }} fn v(&self) -> ::vt::model::V {{ ::vt::Typed::v(self) }} }}\n",
                c
            ));
        }
    } else {
        glue.push_str(&format!(
            "impl ::vt::derive::rt::Enc for {} {{ fn gen(s: &mut ::vt::Src) -> Self {{ {} {{ {} }} }} fn v(&self) -> ::vt::model::V {{ {} }} }}\n",
            c, name, init, vbody
        ));
    }
    let some = "::std::option::Option::Some";
    let none = "::std::option::Option::None";
    let caps = (mode != Mode::Dec, mode != Mode::Enc);
    let entry = format!(
        "::vt::derive::rt::Entry {{ name: {:?}, enc: {}, dec: {} }}",
        concrete,
        if caps.0 { format!("{}(::vt::derive::rt::encode_case::<{}>)", some, c) } else { none.to_string() },
        if caps.1 { format!("{}(::vt::derive::rt::decode_case::<{}>)", some, c) } else { none.to_string() },
    );
    g.done.push(Done { conc: concrete, mode_both: mode == Mode::Both });
    Built { def, control, glue, entry, caps, drawn }
}

pub fn unit(s: &mut Src, purpose: Purpose) -> Unit {
    masked(s, purpose, &Mask::new())
}

pub fn masked(s: &mut Src, purpose: Purpose, mask: &Mask) -> Unit {
    if purpose == Purpose::Macros {
        return super::mac::masked(s, mask);
    }
    let mut g = G {
        labels: vec![],
        globs: s.flag(),
        aliases: s.chance(1, 3),
        result_alias: s.chance(1, 6),
        in_fn: s.chance(1, 8),
        type_macro: s.chance(1, 4),
        used_names: vec![],
        done: vec![],
        purpose,
    };
    let mut head = String::new();
    if g.globs {
        head.push_str("use json::*;\n");
    } else {
        head.push_str("use json::{JsonEncode, JsonDecode};\n");
    }
    head.push_str("use std::collections::HashMap;\n");
    if g.aliases {
        head.push_str("type Int = i32;\ntype Map<K, V> = HashMap<K, V>;\n");
    }
    if g.result_alias {
        g.label("Result is an alias");
        head.push_str("type Result<T> = std::result::Result<T, ()>;\n");
    }
    if g.in_fn {
        g.label("inside a function");
    }
    if g.type_macro {
        head.push_str("macro_rules! same { ($t:ty) => { $t } }\n");
    }
    if purpose == Purpose::Accept && s.chance(1, 4) {
        g.label("names that mean something else");
        let mut taken: Vec<&str> = Vec::new();
        for _ in 0..s.range(1, 4) {
            let e = *s.pick(ELSEWHERE);
            let w = e.split([' ', ':', '(']).nth(1).unwrap();
            if !taken.contains(&w) {
                taken.push(w);
                head.push_str(e);
                head.push('\n');
            }
        }
    }
    let n = s.weighted(&[6, 3, 1]) + 1;
    let own_std = purpose == Purpose::Accept && s.chance(1, 3);
    let built: Vec<Built> = (0..n).map(|i| structure(s, &mut g, i, mask)).collect();
    let mut parts = Vec::new();
    for (i, b) in built.iter().enumerate() {
        parts.push(mask_code(i, 0, WHOLE));
        for f in 0..b.drawn {
            parts.push(mask_code(i, f, FIELD));
        }
        for f in 0..b.drawn {
            parts.push(mask_code(i, f, ATTRS));
        }
    }
    let built: Vec<Built> = built.into_iter().enumerate().filter(|(i, _)| !mask.contains(&mask_code(*i, 0, WHOLE))).map(|b| b.1).collect();
    let defs: String = built.iter().map(|b| b.def.clone()).collect();
    if own_std && !relative(&defs, "std") && !relative(&defs, "core") {
        g.label("modules std and core of one's own");
        head = format!("mod std {{}}\nmod core {{}}\n{}", head.replace("use std", "use ::std").replace("= std", "= ::std"));
    }
    let desc = format!("{}{}", head, defs);
    let c: String = built.iter().map(|b| b.control.clone()).collect();
    let control = if g.in_fn { format!("pub fn list() {{\n{}{}}}\n", head, c) } else { format!("{}{}", head, c) };
    let glue: String = built.iter().map(|b| b.glue.clone()).collect();
    let entries: Vec<String> = built.iter().map(|b| b.entry.clone()).collect();
    let list = format!("::std::vec![{}]", entries.join(", "));
    let text = if purpose == Purpose::Accept {
        if g.in_fn {
            format!("pub fn list() {{\n{}{}}}\n", head, defs)
        } else {
            format!("{}{}", head, defs)
        }
    } else if g.in_fn {
        format!("pub fn list() -> ::std::vec::Vec<::vt::derive::rt::Entry> {{\n{}{}{}{}\n}}\n", head, defs, glue, list)
    } else {
        format!("{}{}{}pub fn list() -> ::std::vec::Vec<::vt::derive::rt::Entry> {{ {} }}\n", head, defs, glue, list)
    };
    Unit {
        parts,
        text,
        desc,
        control,
        structs: built.iter().map(|b| b.caps).collect(),
        nontrivial: g.labels.len() > 0,
        labels: g.labels,
    }
}
