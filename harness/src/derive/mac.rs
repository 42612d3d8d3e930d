//! C18: random invocations of the macros, with the code that says what each must give.
//!
//! A unit is a module of some functions, each around one invocation (with invocations inside it).
//! The arguments are written at random; their values are drawn when the function runs. The control
//! is the same module over macros written here, made of the calls the macros stand for.

use super::def::{Mask, Unit};
use crate::gen;
use pbt::text::rust_string;
use pbt::Src;

const MACROS: [&str; 6] = ["object", "array", "path", "find", "update", "discard"];

struct G {
    labels: Vec<&'static str>,
    /// lines before the invocation
    head: String,
    n: usize,
    /// recorded evaluations
    calls: usize,
    /// a name used inside the macros, for one of the variables here
    odd_name: Option<&'static str>,
    renamed: bool,
    /// entries or segments of the outermost invocation
    top: usize,
}

/// An argument and the model of its value.
struct E {
    code: String,
    v: String,
}

const TYPES: [&str; 20] = [
    "u8", "i32", "u64", "i64", "usize", "i128", "f64", "f32", "bool", "::std::string::String", "::std::string::String", "::json::Json",
    "::std::option::Option<u8>", "::std::option::Option<::std::string::String>", "::std::vec::Vec<i32>", "::std::vec::Vec<::std::string::String>",
    "::std::vec::Vec<(::std::string::String, f64)>", "::std::collections::HashMap<::std::string::String, i32>", "::std::vec::Vec<::std::option::Option<bool>>",
    "::std::vec::Vec<::std::vec::Vec<::json::Json>>",
];

impl G {
    fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    fn name(&mut self, s: &mut Src) -> String {
        if s.chance(1, 12) {
            if let Some(n) = self.odd_name.take() {
                self.label("a variable named like one of the macro's own");
                return n.to_string();
            }
        }
        self.n += 1;
        format!("x{}", self.n)
    }
    fn var(&mut self, s: &mut Src, ty: &str) -> String {
        let n = self.name(s);
        self.head.push_str(&format!("    let {n}: {ty} = <{ty} as ::vt::Typed>::gen(s);\n    let w_{n} = ::vt::Typed::v(&{n});\n"));
        n
    }
    fn text(&mut self, s: &mut Src) -> String {
        let n = self.name(s);
        self.head.push_str(&format!("    let {n}: ::std::string::String = ::vt::gen::key(s);\n    let k_{n} = {n}.clone();\n"));
        n
    }
    /// sometimes an argument notes when it is evaluated: before those inside it
    fn count_it(&mut self, s: &mut Src) -> Option<usize> {
        if s.chance(1, 3) {
            self.calls += 1;
            Some(self.calls - 1)
        } else {
            None
        }
    }
    fn makro(&mut self, s: &mut Src, name: &str) -> String {
        match s.below(6) {
            0 => {
                self.label("named by a path");
                format!("\u{1}json::{}!", name)
            }
            1 => format!("\u{1}::json::{}!", name),
            2 if self.renamed => {
                self.label("imported under another name");
                format!("my_{}!", name)
            }
            _ => format!("{}!", name),
        }
    }
    /// the same value, written in another way
    fn around(&mut self, s: &mut Src, code: String) -> String {
        let leaves = code.contains('?') || code.contains("return") || code.contains("break");
        match s.weighted(&[14, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]) {
            11 if leaves => code,
            0 => code,
            1 => format!("{{{}}}", code),
            2 => format!("({})", code),
            3 => format!("same({})", code),
            4 => format!("if calls.len() < 100000 {{ {} }} else {{ ::std::unreachable!() }}", code),
            5 => {
                self.label("? in an argument");
                format!("fine({})?", code)
            }
            6 => {
                self.label("return in an argument");
                format!("match 1 {{ 0 => return ::std::result::Result::Err(::std::default::Default::default()), _ => {} }}", code)
            }
            7 => format!("loop {{ break {} }}", code),
            8 => {
                self.label("a comma between angle brackets in an argument");
                format!("pass::<_, u8>({})", code)
            }
            9 => format!("{{ let _json = {}; _json }}", code),
            10 => format!("me!({})", code),
            _ => format!("(|_a: u8, _b: u8| {})(1, 2)", code),
        }
    }
    fn key(&mut self, s: &mut Src) -> E {
        let c = self.count_it(s);
        let (code, v) = match s.weighted(&[6, 3, 3, 3, 2, 2, 2, 2, 1, 1, 1]) {
            0 => {
                let t = gen::key(s);
                let l = rust_string(s, &t);
                (l.clone(), format!("{}.to_string()", l))
            }
            1 => {
                let n = self.text(s);
                (format!("{}.as_str()", n), format!("k_{}.clone()", n))
            }
            2 => {
                let n = self.text(s);
                (format!("&{}", n), format!("k_{}.clone()", n))
            }
            3 => {
                let n = self.text(s);
                (n.clone(), format!("k_{}.clone()", n))
            }
            4 => ("7".to_string(), "\"7\".to_string()".to_string()),
            5 => ("'c'".to_string(), "\"c\".to_string()".to_string()),
            6 => {
                let n = self.text(s);
                (format!("::std::format!(\"{{}}.{{}}\", {}, 1)", n), format!("k_{}.clone() + \".1\"", n))
            }
            7 => ("\"k\"".to_string(), "\"k\".to_string()".to_string()),
            8 => ("::std::concat!(\"a\", \"b\")".to_string(), "\"ab\".to_string()".to_string()),
            9 => {
                let n = self.text(s);
                (format!("&{}[..]", n), format!("k_{}.clone()", n))
            }
            _ => {
                let n = self.var(s, "bool");
                (format!("{}", n), format!("match w_{} {{ ::vt::V::Bool(b) => b.to_string(), _ => ::std::unreachable!() }}", n))
            }
        };
        let code = self.around(s, code);
        E { code: counted(c, code), v }
    }
    fn value(&mut self, s: &mut Src, depth: usize, in_array: bool) -> E {
        let count = self.count_it(s);
        let lit = |c: &str, v: &str| (c.to_string(), v.to_string());
        let (code, v) = match s.weighted(&[6, 2, 1, 1, 1, 1, 1, 1, 1, if depth > 0 { 6 } else { 0 }, if depth > 0 { 1 } else { 0 }]) {
            0 => {
                let ty = *s.pick(&TYPES);
                let n = self.var(s, ty);
                let w = format!("w_{}", n);
                match ty {
                    "::std::string::String" => match s.below(6) {
                        0 => (format!("{}.as_str()", n), w),
                        1 => (format!("&{}[..]", n), w),
                        2 => (format!("&*{}", n), w),
                        3 if in_array => {
                            // array! takes references, so that this is a place
                            let c = format!("*{}.as_str()", n);
                            if count.is_some() {
                                self.calls -= 1;
                            }
                            return E { code: c, v: w };
                        }
                        4 => (format!("::std::option::Option::Some({}.as_str())", n), w),
                        _ => (n, w),
                    },
                    "bool" => match s.below(5) {
                        0 => (format!("&{}", n), w),
                        1 => (format!("!!{}", n), w),
                        2 => (format!("{} && true", n), w),
                        3 => (format!("{} == true", n), w),
                        _ => (n, w),
                    },
                    "u8" | "i32" | "u64" | "i64" | "usize" | "i128" | "f64" | "f32" => match s.below(5) {
                        0 => (format!("&{}", n), w),
                        1 => (format!("{}.clone()", n), w),
                        2 if ty == "i32" || ty == "u8" => (format!("{} as f64 + 1.0 - 1.0", n), w),
                        _ => (n, w),
                    },
                    t if t.starts_with("::std::vec") && s.flag() => (format!("&{}[..]", n), w),
                    t if !t.contains("Json") && s.chance(1, 3) => match s.below(3) {
                        0 => (format!("::std::option::Option::Some({})", n), w),
                        1 => (format!("::std::vec![{n}.clone(), {n}]"), format!("::vt::V::Arr(::std::vec![{w}.clone(), {w}])")),
                        _ => (format!("::std::vec![('k', {n})]"), format!("::vt::V::Obj(::std::vec![(\"k\".to_string(), {w})])")),
                    },
                    _ => {
                        if s.flag() {
                            (n, w)
                        } else {
                            (format!("{}.clone()", n), w)
                        }
                    }
                }
            }
            1 => {
                let t = pbt::text::string(s);
                let l = rust_string(s, &t);
                (l.clone(), format!("::vt::V::Str({}.to_string())", l))
            }
            2 => lit("-7", "::vt::V::Num(-7.0)"),
            3 => lit("2.5", "::vt::V::Num(2.5)"),
            4 => lit("200u8", "::vt::V::Num(200.0)"),
            5 => lit("true", "::vt::V::Bool(true)"),
            6 => lit("::std::option::Option::None::<u8>", "::vt::V::Null"),
            7 => lit("::json::Json::Null", "::vt::V::Null"),
            8 => lit("1 << 2 > 3", "::vt::V::Bool(true)"),
            9 => {
                self.label("an invocation inside another");
                let e = if s.flag() { self.object(s, depth - 1, &|_| false) } else { self.array(s, depth - 1, &|_| false) };
                (e.code, e.v)
            }
            _ => {
                let (k, v) = (self.key(s), self.value(s, 0, false));
                (format!("pair!({}, {})", k.code, v.code), format!("::vt::V::Obj(::std::vec![({}, {})])", k.v, v.v))
            }
        };
        let code = self.around(s, code);
        E { code: counted(count, code), v }
    }
    fn count(&mut self, s: &mut Src, depth: usize) -> usize {
        if depth < 2 {
            return s.below(4) as usize;
        }
        match s.weighted(&[60, 8, 1]) {
            0 => s.below(7) as usize,
            1 => s.range(7, 40),
            _ => {
                self.label("a hundred entries or more");
                s.range(128, 300)
            }
        }
    }
    fn list(&mut self, s: &mut Src, name: &str, items: Vec<String>) -> String {
        let comma = !items.is_empty() && s.chance(1, 2);
        if comma {
            self.label("trailing comma");
        }
        if items.is_empty() {
            self.label("no entry");
        }
        let sep = *s.pick(&[", ", ",", ",\n        "]);
        let body = format!("{}{}", items.join(sep), if comma { "," } else { "" });
        let m = self.makro(s, name);
        match s.below(3) {
            0 => format!("{} {{ {} }}", m, body),
            1 => format!("{}({})", m, body),
            _ => format!("{}[{}]", m, body),
        }
    }
    fn object(&mut self, s: &mut Src, depth: usize, left_out: &dyn Fn(usize) -> bool) -> E {
        let n = self.count(s, depth);
        let (mut cs, mut vs) = (vec![], vec![]);
        let top = n;
        let mut last: Option<E> = None;
        for i in 0..n {
            let (head, calls) = (self.head.len(), self.calls);
            // sometimes the key of the member before
            let again = n > 1 && s.chance(1, 6);
            let before = self.calls;
            let mut k = if n > 60 { E { code: format!("{}", i / 2), v: format!("\"{}\".to_string()", i / 2) } } else { self.key(s) };
            if let (true, Some(l)) = (again, &last) {
                self.calls = before;
                k = E { code: format!("{}", l.v), v: l.v.clone() };
                self.label("the same key twice");
            }
            let d = if n > 10 { 0 } else { depth };
            let v = self.value(s, d, false);
            if left_out(i) {
                self.head.truncate(head);
                self.calls = calls;
                continue;
            }
            cs.push(format!("{} => {}", k.code, v.code));
            vs.push(format!("({}, {})", k.v, v.v));
            last = if k.v.contains("w_") || k.v.contains("k_") { None } else { Some(k) };
        }
        self.top = top;
        E { code: self.list(s, "object", cs), v: format!("::vt::V::Obj(::std::vec![{}])", vs.join(", ")) }
    }
    fn array(&mut self, s: &mut Src, depth: usize, left_out: &dyn Fn(usize) -> bool) -> E {
        let n = self.count(s, depth);
        let (mut cs, mut vs) = (vec![], vec![]);
        let top = n;
        for i in 0..n {
            let (head, calls) = (self.head.len(), self.calls);
            let v = self.value(s, if n > 10 { 0 } else { depth }, true);
            if left_out(i) {
                self.head.truncate(head);
                self.calls = calls;
                continue;
            }
            cs.push(v.code);
            vs.push(v.v);
        }
        self.top = top;
        E { code: self.list(s, "array", cs), v: format!("::vt::V::Arr(::std::vec![{}])", vs.join(", ")) }
    }
    /// A function around object! or array!.
    fn build(&mut self, s: &mut Src, at: usize, mask: &Mask) -> String {
        let left_out = |i: usize| mask.contains(&code(at, i + 1));
        let o = s.flag();
        let depth = s.range(1, 3);
        let e = if o { self.object(s, depth, &left_out) } else { self.array(s, depth, &left_out) };
        let what = if o { "object!" } else { "array!" };
        let call = match s.below(6) {
            0 => format!("{{ {} }}", e.code),
            1 => format!("same({})", e.code),
            2 => format!("({}).clone()", e.code),
            3 => format!("::json::ToJson::to_json(&{})", e.code),
            4 => format!("match () {{ () => {} }}", e.code),
            _ => e.code,
        };
        format!(
            "{}    let got: ::json::Json = {};\n    let want: ::vt::V = {};\n    cx.label_if(want.has_duplicates(), \"duplicate keys\");\n    cx.case(want.nodes() > 1, || ::vt::model::show(&want));\n    ::vt::model::expect(\"{}\", &got, &want)?;\n    ::vt::derive::rt::in_order(&calls, {})\n",
            self.head, call, e.v, what, self.calls
        )
    }
    fn segment(&mut self, s: &mut Src, i: usize, wants: &mut Vec<String>) -> String {
        let k = self.count_it(s);
        let c = match s.below(11) {
            0 | 1 => {
                let t = gen::key(s);
                let l = rust_string(s, &t);
                wants.push(format!("::vt::derive::rt::Want::Key({})", l));
                l
            }
            2 | 3 => {
                let n = s.below(4);
                wants.push(format!("::vt::derive::rt::Want::Index({})", n));
                match s.below(3) {
                    0 => format!("{}usize", n),
                    1 => format!("&{}usize", n),
                    _ => format!("{}", n),
                }
            }
            4..=7 => {
                wants.push("::vt::derive::rt::Want::K".to_string());
                match s.below(6) {
                    0 => format!("p[{}].key().as_str()", i),
                    1 => format!("&p[{}].key()[..]", i),
                    2 => format!("p[{}].key().clone()", i),
                    3 => format!("::std::format!(\"{{}}\", p[{}].key())", i),
                    4 => format!("{{ let _path = p[{}].key(); _path }}", i),
                    _ => format!("p[{}].key()", i),
                }
            }
            _ => {
                wants.push("::vt::derive::rt::Want::I".to_string());
                match s.below(5) {
                    0 => format!("&p[{}].index()", i),
                    1 => format!("p[{}].index() + 2 - 2", i),
                    2 => format!("{{ let _path = p[{}].index(); _path }}", i),
                    _ => format!("p[{}].index()", i),
                }
            }
        };
        let c = if c.starts_with('&') { c } else { self.around(s, c) };
        counted(k, c)
    }
    /// A function around path!, find!, update! or discard!.
    fn operate(&mut self, s: &mut Src, at: usize, mask: &Mask) -> String {
        let n = match s.weighted(&[12, 2, 1]) {
            0 => s.range(1, 4),
            1 => s.range(5, 12),
            _ => s.range(13, 40),
        };
        self.top = n;
        if n > 4 {
            self.label("five segments or more");
        }
        let (mut segs, mut wants) = (vec![], vec![]);
        for i in 0..n {
            let k = self.calls;
            let c = self.segment(s, segs.len(), &mut wants);
            if mask.contains(&code(at, i + 1)) && !(segs.is_empty() && i + 1 == n) {
                self.calls = k;
                wants.pop();
                continue;
            }
            segs.push(c);
        }
        let op = s.below(3);
        let macro_too = s.chance(3, 4);
        let comma = if s.flag() { self.label("trailing comma"); "," } else { "" };
        let list = format!("{}{}", segs.join(", "), comma);
        let before = self.calls;
        let value = self.value(s, 1, false);
        if op != 1 {
            self.calls = before;
        }
        let (place, setup) = match s.below(9) {
            0 => ("&mut j", ""),
            1 => ("(&mut j)", ""),
            2 => ("*b", "    let mut b = ::std::boxed::Box::new(j.clone());\n"),
            3 => ("h.json", "    let mut h = Holder { json: j.clone() };\n"),
            4 => ("hs[0]", "    let mut hs = ::std::vec![j.clone()];\n"),
            5 => ("through(&mut j)", ""),
            6 => ("r", "    let mut r = &mut j;\n"),
            _ => ("j", ""),
        };
        let after = match place {
            "*b" => "*b",
            "h.json" => "h.json",
            "hs[0]" => "hs[0]",
            "r" => "*r",
            _ => "j",
        };
        let brackets = |m: String, body: String, k: u64| match k {
            0 => format!("{} {{ {} }}", m, body),
            1 => format!("{}[{}]", m, body),
            _ => format!("{}({})", m, body),
        };
        let k = s.below(4);
        let name = ["find", "update", "discard"][op as usize];
        let wrap = s.below(4);
        let call = if macro_too {
            let m = self.makro(s, name);
            let body = if op == 1 { format!("{} => {}, {}", value.code, place, list) } else { format!("{}, {}", place, list) };
            brackets(m, body, k)
        } else {
            self.label("path!");
            let m = self.makro(s, "path");
            let p = brackets(m, list, k);
            let place = if place.starts_with(['&', '*']) { format!("({})", place) } else { place.to_string() };
            match op {
                0 if s.flag() => format!("{}.find_mut({})", place, p),
                0 => format!("{}.find({})", place, p),
                1 => format!("{}.update({}, {})", place, p, value.code),
                _ => format!("{}.discard({})", place, p),
            }
        };
        let what = if macro_too { name.to_string() + "!" } else { format!("{} by path!", name) };
        // the calls among the value come last, or first
        let of = if op == 2 { "|x| ::vt::V::of_json(&x)" } else { "|x| ::vt::V::of_json(x)" };
        let call = match wrap {
            0 => format!("{{ {} }}.map({})", call, of),
            1 if op != 2 => format!("::std::result::Result::Ok::<::vt::V, ::json::Error>(::vt::V::of_json(match {} {{ ::std::result::Result::Ok(x) => x, ::std::result::Result::Err(e) => return ::vt::derive::rt::refused(&want, &e) }}))", call),
            _ => format!("{}.map({})", call, of),
        };
        let model = match op {
            0 => "    let want = v.at(&p).map(|x| x.clone());\n    let m = v.clone();\n".to_string(),
            1 => format!("    let mut m = v.clone();\n    let want: ::std::result::Result<::vt::V, ::vt::model::E> = ::std::result::Result::Ok({});\n    m.set(&p, want.clone().unwrap());\n", value.v),
            _ => "    let mut m = v.clone();\n    let want = m.del(&p);\n".to_string(),
        };
        format!(
            "{}    let (v, p) = ::vt::derive::rt::shaped(s, &[{}]);\n    let mut j = v.to_json();\n{}{}    cx.label(if v.at(&p).is_ok() {{ \"hit\" }} else {{ \"miss\" }});\n    cx.case(v.is_container(), || ::std::format!(\"{{}} in {{}}\", ::vt::model::show_segs(&p), ::vt::model::show(&v)));\n    let got: ::std::result::Result<::vt::V, ::json::Error> = {};\n    ::vt::derive::rt::judge(\"{}\", got, &want)?;\n    ::vt::model::expect(\"the value after {}\", &{}, &m)?;\n    ::vt::derive::rt::each_once(&calls, {})\n",
            self.head,
            wants.join(", "),
            setup,
            model,
            call,
            what,
            what,
            after,
            self.calls
        )
    }
}

fn counted(n: Option<usize>, code: String) -> String {
    match n {
        Some(k) => format!("{{ calls.push({}); {} }}", k, code),
        None => code,
    }
}

fn code(entry: usize, part: usize) -> u64 {
    (entry * 1000 + part) as u64
}

fn reference(name: &str, called: &str) -> String {
    let p = "let mut p = ::json::Path::new($a); $( p.append($b); )*";
    let (args, body) = match name {
        "object" => ("$( $a:expr => $b:expr ),* $(,)?", "let mut o = ::json::Json::Object(::std::default::Default::default()); $( o.append($a, $b).unwrap(); )* o".to_string()),
        "array" => ("$( $a:expr ),* $(,)?", "let mut o = ::json::Json::Array(::std::vec::Vec::new()); $( o.push(::json::ToJson::to_json(&$a)).unwrap(); )* o".to_string()),
        "path" => ("$a:expr $( , $b:expr )* $(,)?", format!("{} p", p)),
        "find" => ("$j:expr, $a:expr $( , $b:expr )* $(,)?", format!("{} $j.find(p)", p)),
        "update" => ("$v:expr => $j:expr, $a:expr $( , $b:expr )* $(,)?", format!("{} $j.update(p, $v)", p)),
        _ => ("$j:expr, $a:expr $( , $b:expr )* $(,)?", format!("{} $j.discard(p)", p)),
    };
    format!("macro_rules! {} {{ ( {} ) => {{{{ {} }}}} }}\n", called, args, body)
}

pub fn masked(s: &mut Src, mask: &Mask) -> Unit {
    let mut labels: Vec<&'static str> = vec![];
    let globs = s.flag();
    let renamed = s.chance(1, 4);
    let mut uses = String::new();
    let mut own = String::new();
    for m in MACROS {
        own.push_str(&reference(m, m));
        if renamed {
            own.push_str(&reference(m, &format!("my_{}", m)));
        }
    }
    let names = MACROS.join(", ");
    let renames: Vec<String> = MACROS.iter().map(|m| format!("{} as my_{}", m, m)).collect();
    uses.push_str(&if globs { "use ::json::*;\n".to_string() } else { format!("use ::json::{{{}}};\n", names) });
    if renamed {
        uses.push_str(&format!("use ::json::{{{}}};\n", renames.join(", ")));
    }
    let mut common = String::new();
    if s.chance(1, 3) {
        labels.push("other types have the names the macros use");
        let all = ["struct String;", "struct Vec;", "struct Json;", "struct Path;", "struct HashMap;", "struct LinkedList;", "mod std {}", "mod core {}", "struct ToJson;", "fn new() {}"];
        for x in all {
            if s.flag() {
                common.push_str(x);
                common.push('\n');
            }
        }
    }
    common.push_str("pub struct Holder { json: ::json::Json }\n");
    common.push_str("fn same<T>(x: T) -> T { x }\nfn fine<T>(x: T) -> ::std::result::Result<T, ::std::string::String> { ::std::result::Result::Ok(x) }\nfn pass<T, U>(x: T) -> T { x }\nfn through(x: &mut ::json::Json) -> &mut ::json::Json { x }\n");
    common.push_str("macro_rules! me { ( $e:expr ) => { $e } }\nmacro_rules! pair { ( $k:expr, $v:expr ) => { object! { $k => $v } } }\n");
    let n = s.weighted(&[2, 3, 3, 2]) + 1;
    let mut parts = vec![];
    let mut body = String::new();
    let mut entries = vec![];
    for i in 0..n {
        let mut g = G {
            labels: vec![],
            head: String::new(),
            n: 0,
            calls: 0,
            odd_name: if s.chance(1, 2) { Some(*s.pick(&["_json", "_obj", "_vec", "_path", "_x"])) } else { None },
            renamed,
            top: 0,
        };
        let f = if s.flag() { g.build(s, i, mask) } else { g.operate(s, i, mask) };
        parts.extend((0..=g.top).map(|k| code(i, k)));
        if mask.contains(&code(i, 0)) {
            continue;
        }
        for l in g.labels {
            if !labels.contains(&l) {
                labels.push(l);
            }
        }
        body.push_str(&format!(
            "pub fn e{}(s: &mut ::vt::Src, cx: &mut ::vt::Cx) -> ::std::result::Result<(), ::std::string::String> {{\n    let mut calls: ::std::vec::Vec<usize> = ::std::vec![];\n{}}}\n",
            i, f
        ));
        entries.push(format!("::vt::derive::rt::Entry {{ name: \"e{}\", enc: ::std::option::Option::Some(e{}), dec: ::std::option::Option::None }}", i, i));
    }
    let plain = body.replace('\u{1}', "");
    let text = format!("{}{}{}pub fn list() -> ::std::vec::Vec<::vt::derive::rt::Entry> {{ ::std::vec![{}] }}\n", uses, common, plain, entries.join(", "));
    let bare = body.replace("\u{1}::json::", "").replace("\u{1}json::", "");
    let control = format!("{}{}{}", own, common, bare);
    Unit { parts, text, desc: format!("{}{}{}", uses, common, plain), control, structs: vec![], nontrivial: true, labels }
}
