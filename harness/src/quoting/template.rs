//! Templates for quote!, the code of the template, and the code of the model of what it must give.

use pbt::Src;
use std::collections::HashMap;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    /// a literal token
    Tok(String),
    /// after `!`, followed by `;`
    Group { delim: char, bang: bool, semi: bool, body: Vec<Node> },
    Attr { inner: bool, body: Vec<Node> },
    /// `##`
    Hash,
    Var(String),
    Expr(String),
    /// an expression that is a template itself
    Nest(Vec<Node>),
    If { cond: From, plus: bool, body: Vec<Node> },
    Opt(From),
    OptWith { of: From, bind: Option<String>, body: Vec<Node> },
    Rep(From),
    RepSep(From, String),
    RepAfter(From, String),
    RepWith { of: From, bind: Option<String>, body: Vec<Node>, sep: Option<String> },
    /// `#(@literal: ...)`
    Literal(Vec<Node>),
    /// `#(@params(a, b = expr): ...)`
    Params(Vec<(String, Option<String>)>, Vec<Node>),
    /// `#(@scope: ...)`
    Scope(Vec<Node>, bool),
    // the rest only in a scope
    Block(Vec<Node>),
    Define(String, Vec<Node>),
    Macro { name: String, args: Vec<String>, body: Vec<Node> },
    /// a name of the scope, inside a block
    Name(String),
    /// a name looked up when the macro is called
    Late(String),
    Call(String, Vec<Vec<Node>>),
    /// a call made when what contains it is used
    LateCall(String, Vec<Vec<Node>>),
    /// what a name stands for, with names and calls looked up when it is used
    LateDef(String, Vec<Node>),
    Undef(String),
    Include(String),
    Quote(Vec<Node>),
    Count,
    Chain(Vec<(Cond, Vec<Node>)>, Option<Vec<Node>>),
    Foreach { of: String, bind: Option<String>, blocks: Vec<Node> },
    /// a directive where it must not be
    Stray(String, Home),
}

/// Why a directive is out of its place.
#[derive(Clone, Debug, PartialEq)]
pub enum Home {
    /// it is in a loop
    Loop,
    /// there is no open #if
    NoIf,
    /// there is no open #foreach
    NoLoop,
    /// the macro takes another number of arguments than these
    Call(String, usize),
    /// it is not the last
    NotLast,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Cond {
    If(String),
    Counted(u64),
    Def(String, bool),
}

#[derive(Clone, Debug, PartialEq)]
pub struct From {
    pub expr: bool,
    pub code: String,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum K {
    /// has a text; without `#` in it?
    T(bool),
    B,
    N,
    OT(bool),
    LT(bool),
    LLT,
    E,
    LE,
    OE,
    /// may be used once
    Once(bool),
}

#[derive(Clone, Debug)]
pub struct Template {
    pub decls: Vec<String>,
    pub body: Vec<Node>,
    pub wrap: u8,
    pub compact: bool,
    /// among items with names of the standard library's
    pub shadow: bool,
}

const NAMES: &[&str] = &[
    "a", "b", "v", "x", "s", "e", "k", "i", "_token", "_span", "_i", "_e", "_g", "token", "span", "input", "_flag", "_iter", "_hashmap", "tag", "iter",
    "expr", "r#type", "tt", "opt", "vis", "c", "n", "_v", "_k", "_input", "_token_", "vec", "tmp_v", "literal", "params", "scope", "hashmap",
];
const IDENTS: &[&str] = &[
    "a", "foo", "pub", "fn", "struct", "T", "r#type", "impl", "self", "Self", "été", "_x", "x", "s", "true", "let", "i32", "_", "where", "as", "dyn", "async",
    "crate", "mut", "union", "r#fn", "token", "_token", "_span", "quote", "if", "else", "end", "for", "in", "match",
];
const LITS: &[&str] = &[
    "1", "0x1Fu8", "1.5e3", "1_000u64", "\"a b\"", "\"\"", "\"#x\"", "'c'", "b\"x\"", "r\"\\d\"", "r#\"\"q\"\"#", "'\\''", "\"// é\"", "2.0", "0b1i64", "b'\\n'", "\"#(#a)*\"", "'#'",
];
const OPS: &[&str] = &[
    "->", "=>", "<=", ">=", "!=", "&&", "||", "==", "+=", "-=", "*=", "/=", "%=", "&=", "^=", "|=", ">>", "<<", ">>=", "<<=", "..", "...", "..=", "::", "&", ":",
    "+", "-", "*", "/", "=", ">", "<", ".", ",", "!", "?", "@", "^", "|", "%", ";", "~",
];
const LIFE: &[&str] = &["'a", "'static", "'_"];
/// separators of every kind; the last ones are not possible together with a body
const SEPS: &[&str] = &[",", ";", "=>", "|", "::", "and", "&&", "\"s\"", "( a )", "[ ]", "{ ; }", "..", "'a", "=", ".", "1", "||", "->", "#", "/", "&", "%", "@", "!", ":", "+", "-"];
const AFTERS: &[&str] = &[",", ";", "=>", "|", "::", "and", "&&", "\"s\"", "( a )", "[ ]", "{ ; }", "..", "'a", "=", ".", "1", "->", "+", "-", "*", "?", "#", "!", ":", "/"];

pub struct Gen<'a> {
    s: &'a mut Src,
    env: Vec<(String, K)>,
    decls: Vec<String>,
    budget: i32,
    fresh: u32,
    /// names, and names of macros, that may be defined
    seen: Vec<String>,
    mac: Vec<String>,
    /// macros that call others, names that call macros
    calling: Vec<String>,
    lates: Vec<(String, String)>,
}

/// The names that stand for fixed tokens.
fn fixed(names: &[String]) -> Vec<String> {
    names.iter().filter(|n| !n.starts_with("late")).cloned().collect()
}

fn from(expr: bool, code: impl Into<String>) -> From {
    From { expr, code: code.into() }
}

impl<'a> Gen<'a> {
    fn visible(&self) -> Vec<(String, K)> {
        let mut seen: Vec<&str> = Vec::new();
        let mut o = Vec::new();
        for (n, k) in self.env.iter().rev() {
            if !seen.contains(&n.as_str()) {
                seen.push(n);
                o.push((n.clone(), *k));
            }
        }
        o
    }
    fn var(&mut self, f: impl Fn(K) -> bool) -> Option<(String, K)> {
        let v: Vec<(String, K)> = self.visible().into_iter().filter(|x| f(x.1)).collect();
        if v.is_empty() {
            None
        } else {
            Some(self.s.pick(&v).clone())
        }
    }
    fn name(&mut self) -> String {
        if self.s.chance(1, 5) {
            self.fresh += 1;
            format!("v{}", self.fresh)
        } else {
            self.s.pick(NAMES).to_string()
        }
    }
    fn declare(&mut self) {
        let mut n = self.name();
        while self.env.iter().any(|x| x.0 == n) {
            self.fresh += 1;
            n = format!("v{}", self.fresh);
        }
        let (k, code): (K, &str) = match self.s.below(34) {
            0 | 1 => (K::T(false), "::qt::text(__s)"),
            2 => (K::T(true), "::qt::num(__s)"),
            3 => (K::T(true), "::qt::word(__s)"),
            4 => (K::T(true), "::qt::float(__s)"),
            5 => (K::T(true), "::qt::letter(__s)"),
            6 => (K::T(false), "::std::rc::Rc::<str>::from(::qt::text(__s))"),
            7 => (K::T(false), "::qt::stream(__s)"),
            8 => (K::T(true), "::qt::name(__s)"),
            9 => (K::T(true), "::qt::lit(__s)"),
            10 => (K::T(false), "::qt::group(__s)"),
            11 => (K::T(false), "::std::borrow::Cow::<str>::Owned(::qt::text(__s))"),
            12..=14 => (K::B, "::qt::flag(__s)"),
            15 => (K::N, "::qt::small(__s)"),
            16 => (K::OT(true), "::qt::opt(__s, ::qt::num)"),
            17 => (K::OT(false), "&::qt::opt(__s, ::qt::text)"),
            18 => (K::OT(true), "::qt::opt(__s, ::qt::word)"),
            19 => (K::OT(false), "&::qt::opt(__s, ::qt::stream)"),
            20 => (K::LT(false), "&::qt::list(__s, ::qt::text)"),
            21 => (K::LT(true), "&::qt::list(__s, ::qt::num)"),
            22 => (K::LT(true), "&*::qt::list(__s, ::qt::word).leak()"),
            23 => (K::LT(true), "[::qt::num(__s), ::qt::num(__s), 7]"),
            24 => (K::LT(false), "&::qt::VecDeque::from(::qt::list(__s, ::qt::text))"),
            25 => (K::LT(true), "&::qt::list(__s, ::qt::num).into_iter().collect::<::qt::BTreeSet<i64>>()"),
            26 => (K::LT(true), "::qt::opt(__s, ::qt::small)"),
            27 => (K::LT(false), "&::qt::list(__s, ::qt::stream)"),
            28 => (K::LLT, "&::qt::list(__s, |s| ::qt::list(s, ::qt::text))"),
            29 => (K::E, "&::qt::e(__s)"),
            30 => (K::LE, "&::qt::list(__s, ::qt::e)"),
            31 => (K::OE, "&::qt::opt(__s, ::qt::e)"),
            32 => (K::Once(false), "::qt::list(__s, ::qt::text)"),
            _ => (K::Once(true), "::qt::loose(__s)"),
        };
        self.decls.push(format!("let {} = {};", n, code));
        self.env.push((n, k));
    }

    // ---- expressions

    fn expr_t(&mut self, plain: bool) -> Option<String> {
        let ok = move |k: K| match k {
            K::T(p) => p || !plain,
            K::N | K::B => true,
            K::E => !plain,
            _ => false,
        };
        let (v, k) = match self.var(ok) {
            Some(v) => v,
            None => return Some(self.s.pick(&["1", "\"foo\"", "1 + 2", "'c'", "stringify!(a :: b)", "concat!(\"a\", 1)", "-1", "!false", "{ let z = \"z\"; z }"]).to_string()),
        };
        Some(match self.s.below(9) {
            0..=2 => v,
            3 => format!("{}.to_string()", v),
            4 => format!("format!(\"{{}}\", {})", v),
            5 => format!("&{}", v),
            6 if k == K::N => format!("{} * 2 + 1", v),
            7 if k == K::E => format!("{}.{}", v, self.s.pick(&["t", "n", "flag"])),
            8 => match self.var(|k| k == K::B) {
                Some((b, _)) => format!("if {} {{ {}.to_string() }} else {{ String::from(\"x y\") }}", b, v),
                None => v,
            },
            _ => format!("({})", v),
        })
    }

    fn expr_b(&mut self) -> String {
        let o: Option<String> = match self.s.below(8) {
            0 | 1 => self.var(|k| k == K::B).map(|v| v.0),
            2 => self.var(|k| k == K::B).map(|v| format!("!{}", v.0)),
            3 => self.var(|k| k == K::N).map(|v| format!("{} > 1", v.0)),
            4 => self.var(|k| k == K::E).map(|v| format!("{}.flag", v.0)),
            5 => self.var(|k| matches!(k, K::OT(_) | K::OE)).map(|v| format!("{}.is_some()", v.0)),
            6 => self.var(|k| matches!(k, K::LT(_) | K::LE | K::LLT)).map(|v| format!("{}.iter().count() > 1", v.0)),
            _ => match (self.var(|k| k == K::B), self.var(|k| k == K::B)) {
                (Some(a), Some(b)) => Some(format!("{} {} {}", a.0, self.s.pick(&["&&", "||", "==", "!="]), b.0)),
                _ => None,
            },
        };
        match o {
            Some(o) => o,
            None => self.s.pick(&["true", "false", "1 + 1 == 2"]).to_string(),
        }
    }

    /// An option of something with a text.
    fn expr_ot(&mut self) -> String {
        let o = match self.s.below(6) {
            0 => self.var(|k| matches!(k, K::OT(_) | K::OE)).map(|v| format!("{}.as_ref()", v.0)),
            1 => self.var(|k| matches!(k, K::LT(_) | K::LE)).map(|v| format!("{}.iter().next()", v.0)),
            2 => self.var(|k| k == K::E).map(|v| format!("&{}.{}", v.0, self.s.pick(&["opt", "kid"]))),
            3 => self.var(|k| matches!(k, K::T(_))).map(|v| format!("Some(&{})", v.0)),
            4 => self.var(|k| matches!(k, K::OT(_))).map(|v| format!("{}.as_ref().map(|z| format!(\"p {{}}\", z))", v.0)),
            _ => None,
        };
        o.unwrap_or_else(|| self.s.pick(&["None::<String>", "Some(1)", "Some(\"a b\")", "[7, 8].get(1)"]).to_string())
    }

    fn expr_lt(&mut self) -> String {
        let o = match self.s.below(9) {
            0 => self.var(|k| matches!(k, K::LT(_) | K::LE)).map(|v| format!("{}.iter().rev()", v.0)),
            1 => self.var(|k| matches!(k, K::LT(_) | K::LE)).map(|v| format!("{}.iter().take(2)", v.0)),
            2 => self.var(|k| matches!(k, K::LT(_) | K::LE)).map(|v| format!("{}.iter().enumerate().map(|(i, z)| format!(\"f{{}} : {{}}\", i, z))", v.0)),
            3 => self.var(|k| k == K::E).map(|v| format!("&{}.list", v.0)),
            4 => self.var(|k| k == K::N).map(|v| format!("0..{}", v.0)),
            5 => self.var(|k| matches!(k, K::T(_))).map(|v| format!("vec![{0}.to_string(), {0}.to_string()]", v.0)),
            6 => self.var(|k| matches!(k, K::LLT)).map(|v| format!("{}.iter().flatten()", v.0)),
            7 => self.var(|k| k == K::Once(false)).map(|v| format!("{}.clone()", v.0)),
            _ => None,
        };
        o.unwrap_or_else(|| self.s.pick(&["1..4", "[\"a\", \"b\"]", "&[1]", "Vec::<String>::new()", "\"xyz\".chars()", "Some(1)"]).to_string())
    }

    fn of_bool(&mut self) -> From {
        match self.var(|k| k == K::B) {
            Some((v, _)) if self.s.chance(2, 3) => from(false, v),
            _ => from(true, self.expr_b()),
        }
    }
    fn of_opt(&mut self) -> From {
        match self.var(|k| matches!(k, K::OT(_) | K::OE)) {
            Some((v, _)) if self.s.chance(2, 3) => from(false, v),
            _ => from(true, self.expr_ot()),
        }
    }
    /// An option and the kind of what is in it.
    fn of_opt_kind(&mut self) -> (From, K) {
        match self.s.below(4) {
            0 | 1 => {
                if let Some((v, k)) = self.var(|k| matches!(k, K::OT(_) | K::OE)) {
                    return (from(false, v), if let K::OT(p) = k { K::T(p) } else { K::E });
                }
            }
            2 => {
                if let Some((v, _)) = self.var(|k| k == K::E) {
                    return match self.s.flag() {
                        true => (from(true, format!("&{}.kid", v)), K::E),
                        false => (from(true, format!("{}.opt.as_ref()", v)), K::T(false)),
                    };
                }
            }
            _ => (),
        }
        (from(true, self.expr_ot()), K::T(false))
    }
    fn of_list(&mut self, loops: bool) -> From {
        if !loops && self.s.chance(1, 4) {
            if let Some((v, _)) = self.var(|k| matches!(k, K::Once(_))) {
                self.env.retain(|x| x.0 != v);
                return from(false, v);
            }
        }
        match self.var(|k| matches!(k, K::LT(_) | K::LE)) {
            Some((v, _)) if self.s.chance(2, 3) => from(false, v),
            _ => from(true, self.expr_lt()),
        }
    }
    fn of_list_kind(&mut self) -> (From, K) {
        match self.s.below(6) {
            0..=2 => {
                if let Some((v, k)) = self.var(|k| matches!(k, K::LT(_) | K::LE | K::LLT)) {
                    return (
                        from(false, v),
                        match k {
                            K::LT(p) => K::T(p),
                            K::LLT => K::LT(false),
                            _ => K::E,
                        },
                    );
                }
            }
            3 | 4 => {
                if let Some((v, _)) = self.var(|k| k == K::E) {
                    return match self.s.below(3) {
                        0 => (from(true, format!("&{}.kids", v)), K::E),
                        1 => (from(true, format!("{}.kids.iter().rev()", v)), K::E),
                        _ => (from(true, format!("&{}.list", v)), K::T(false)),
                    };
                }
            }
            _ => (),
        }
        (from(true, self.expr_lt()), K::T(false))
    }

    // ---- nodes

    fn token(&mut self) -> Node {
        Node::Tok(
            match self.s.below(20) {
                0..=9 => *self.s.pick(IDENTS),
                10..=12 => *self.s.pick(LITS),
                13 => *self.s.pick(LIFE),
                _ => *self.s.pick(OPS),
            }
            .to_string(),
        )
    }

    /// In a loop variables that may be used once are out of reach.
    fn nodes(&mut self, depth: u32, least: usize, loops: bool) -> Vec<Node> {
        let mut o = Vec::new();
        let avg = if depth == 0 { 8 } else { 3 };
        while o.len() < least || (self.budget > 0 && self.s.more(o.len(), avg, 30)) {
            self.budget -= 1;
            let n = self.node(depth, loops);
            o.push(n);
        }
        o
    }

    fn bound(&mut self, k: K, depth: u32) -> (Option<String>, Vec<Node>) {
        let n = self.env.len();
        let bind = if self.s.chance(1, 6) {
            None
        } else {
            let b = match self.s.below(3) {
                // hides another one
                0 if !self.env.is_empty() => self.env[self.s.below(self.env.len() as u64) as usize].0.clone(),
                _ => self.name(),
            };
            self.env.push((b.clone(), k));
            Some(b)
        };
        let mut body = self.nodes(depth + 1, 1, true);
        if let (Some(b), true) = (&bind, self.s.chance(2, 3)) {
            let v = match k {
                K::T(_) | K::E => Some(Node::Var(b.clone())),
                K::LT(_) => Some(Node::Rep(from(false, b.clone()))),
                _ => None,
            };
            if let Some(v) = v {
                let at = self.s.range(0, body.len());
                body.insert(at, v);
            }
        }
        self.env.truncate(n);
        (bind, body)
    }

    fn node(&mut self, depth: u32, loops: bool) -> Node {
        if depth >= 4 || self.budget <= 0 {
            return match self.s.below(3) {
                0 | 1 => self.token(),
                _ => match self.var(|k| matches!(k, K::T(_) | K::E | K::N | K::B)) {
                    Some((v, _)) => Node::Var(v),
                    None => self.token(),
                },
            };
        }
        match self.s.below(100) {
            0..=31 => self.token(),
            32..=43 => match self.var(|k| matches!(k, K::T(_) | K::E | K::N | K::B)) {
                Some((v, _)) => Node::Var(v),
                None => self.token(),
            },
            44..=48 => match self.expr_t(false) {
                Some(e) => Node::Expr(e),
                None => self.token(),
            },
            49..=56 => Node::Group { delim: *self.s.pick(&['(', '[', '{']), bang: self.s.chance(1, 4), semi: self.s.chance(1, 4), body: self.nodes(depth + 1, 0, loops) },
            57..=59 => Node::Attr { inner: self.s.chance(1, 3), body: self.nodes(depth + 1, 0, loops) },
            60 | 61 => Node::Hash,
            62..=67 => Node::If { cond: self.of_bool(), plus: self.s.flag(), body: self.nodes(depth + 1, 1, loops) },
            68..=71 => Node::Opt(self.of_opt()),
            72..=76 => {
                let (of, k) = self.of_opt_kind();
                let (bind, body) = self.bound(k, depth);
                Node::OptWith { of, bind, body }
            }
            77 | 78 => Node::Rep(self.of_list(loops)),
            79..=81 => Node::RepSep(self.of_list(loops), self.s.pick(SEPS).to_string()),
            82 | 83 => Node::RepAfter(self.of_list(loops), self.s.pick(AFTERS).to_string()),
            84..=91 => {
                let (of, k) = self.of_list_kind();
                let (bind, body) = self.bound(k, depth);
                let sep = if self.s.flag() { Some(self.s.pick(&SEPS[..SEPS.len() - 2]).to_string()) } else { None };
                Node::RepWith { of, bind, body, sep }
            }
            92 => Node::Nest(self.nodes(depth + 1, 0, loops)),
            93 | 94 => Node::Literal(self.raw(0, 1)),
            95 | 96 => self.params(),
            _ => self.scope(),
        }
    }

    /// Tokens as they are, `#` included.
    fn raw(&mut self, depth: u32, least: usize) -> Vec<Node> {
        let mut o = Vec::new();
        while o.len() < least || self.s.more(o.len(), 4, 8) {
            o.push(match self.s.below(8) {
                0 if depth < 2 => Node::Group { delim: *self.s.pick(&['(', '[', '{']), bang: false, semi: false, body: self.raw(depth + 1, 0) },
                1 => Node::Tok("#".into()),
                _ => self.token(),
            });
        }
        o
    }

    /// Tokens and names.
    fn marked(&mut self, names: &[String], calls: &[(String, usize)], depth: u32, least: usize) -> Vec<Node> {
        let mut o = Vec::new();
        while o.len() < least || self.s.more(o.len(), 3, 8) {
            o.push(match self.s.below(10) {
                0 if depth < 2 => Node::Group { delim: *self.s.pick(&['(', '[', '{']), bang: self.s.chance(1, 5), semi: false, body: self.marked(names, calls, depth + 1, 0) },
                1 if depth < 2 => Node::Attr { inner: false, body: self.marked(names, calls, depth + 1, 0) },
                2 | 3 if !calls.is_empty() && depth < 2 => {
                    let (n, k) = self.s.pick(calls).clone();
                    let acts = (0..k).map(|_| self.act(names, calls, depth + 1)).collect();
                    Node::Call(n, acts)
                }
                4..=7 if !names.is_empty() => Node::Name(self.s.pick(names).clone()),
                _ => self.token(),
            });
        }
        o
    }

    /// An argument: no commas outside of groups, nor anything that looks like them.
    fn act(&mut self, names: &[String], calls: &[(String, usize)], depth: u32) -> Vec<Node> {
        let v = self.marked(names, calls, depth, 1);
        let bad = |n: &Node| matches!(n, Node::Tok(t) if t != "=>" && t != "->" && (t.contains(',') || t.contains('<') || t.contains('>')));
        let mut v: Vec<Node> = v.into_iter().filter(|n| !bad(n)).collect();
        if self.s.chance(1, 4) {
            // a generic: its commas are its own
            let n = v.len();
            v.push(Node::Tok(self.s.pick(&["Vec", "Map", "_x", "::"]).to_string()));
            v.push(Node::Tok("<".into()));
            for i in 0..self.s.range(1, 3) {
                if i > 0 {
                    v.push(Node::Tok(",".into()));
                }
                match self.s.below(4) {
                    0 if !names.is_empty() => v.push(Node::Name(self.s.pick(names).clone())),
                    1 => v.extend(["Fn", "(", "->", "u8"].iter().filter(|x| **x != "(").map(|x| Node::Tok(x.to_string()))),
                    2 => v.extend(["W", "<", "A", ",", "B", ">"].iter().map(|x| Node::Tok(x.to_string()))),
                    _ => v.push(Node::Tok(self.s.pick(&["A", "i32", "'a", "3"]).to_string())),
                }
            }
            v.push(Node::Tok(">".into()));
            if self.s.flag() {
                v.rotate_left(n);
            }
        }
        if v.is_empty() {
            vec![Node::Tok("z".into())]
        } else {
            v
        }
    }

    fn params(&mut self) -> Node {
        let mut ps: Vec<(String, Option<String>)> = Vec::new();
        let env = self.env.clone();
        for _ in 0..self.s.range(1, 3) {
            match self.var(|k| matches!(k, K::T(true) | K::N | K::B)) {
                Some((v, _)) if self.s.chance(2, 3) => {
                    if ps.iter().all(|p| p.0 != v) {
                        ps.push((v.clone(), None));
                    }
                    // what comes later must not depend on whether it is the parameter
                    self.env.retain(|x| x.0 != v);
                }
                _ => {
                    let n = self.name();
                    if ps.iter().all(|p| p.0 != n) {
                        // a later one may use an earlier one
                        let e = match ps.last() {
                            Some((p, _)) if self.s.chance(1, 4) => format!("format!(\"{{}} :: b\", {})", p),
                            _ => {
                                // a bare name would be moved away
                                let e = self.expr_t(true).unwrap_or("1".into());
                                let v = e.trim_matches(|c| c == '(' || c == ')');
                                if self.env.iter().any(|x| x.0 == v) { format!("{}.clone()", e) } else { e }
                            }
                        };
                        ps.push((n.clone(), Some(e)));
                        self.env.retain(|x| x.0 != n);
                    }
                }
            }
        }
        if ps.is_empty() {
            ps.push(("p".into(), Some("\"q\"".into())));
        }
        self.env = env;
        let names: Vec<String> = ps.iter().map(|p| p.0.clone()).collect();
        let body = self.marked(&names, &[], 0, 1);
        Node::Params(ps, body)
    }

    fn plain_nodes(&mut self, least: usize) -> Vec<Node> {
        let mut o = Vec::new();
        while o.len() < least || self.s.more(o.len(), 3, 6) {
            o.push(match self.s.below(6) {
                0 | 1 => match self.var(|k| matches!(k, K::T(true) | K::N | K::B)) {
                    Some((v, _)) => Node::Var(v),
                    None => self.token(),
                },
                2 => match self.var(|k| k == K::LT(true)) {
                    Some((v, _)) => Node::RepSep(from(false, v), ",".into()),
                    None => self.token(),
                },
                3 => Node::Group { delim: *self.s.pick(&['(', '[', '{']), bang: false, semi: false, body: vec![self.token()] },
                _ => self.token(),
            });
        }
        o
    }

    fn late_call(&mut self, calls: &[(String, usize)], names: &[String]) -> Node {
        let (n, k) = self.s.pick(calls).clone();
        let acts = (0..k).map(|_| {
            let mut a = self.act(&[], &[], 1);
            if !names.is_empty() && self.s.chance(1, 3) {
                a.push(Node::Late(self.s.pick(names).clone()));
            }
            a
        }).collect();
        Node::LateCall(n, acts)
    }

    /// A macro is not defined any more, or differently: what calls it later cannot be used.
    fn gone(&mut self, name: &str, names: &mut Vec<String>, calls: &mut Vec<(String, usize)>) {
        let callers: Vec<String> = self.lates.iter().filter(|l| l.1 == name).map(|l| l.0.clone()).collect();
        for c in callers {
            names.retain(|n| *n != c);
            let before = calls.len();
            calls.retain(|x| x.0 != c);
            if calls.len() < before {
                self.gone(&c, names, calls);
            }
        }
    }

    fn scope(&mut self) -> Node {
        let mut names: Vec<String> = Vec::new();
        let mut calls: Vec<(String, usize)> = Vec::new();
        self.seen.clear();
        self.mac.clear();
        let mut o = self.commands(&mut names, &mut calls, true, 6);
        if !o.iter().any(has_block) {
            o.push(Node::Block(self.marked(&names, &calls, 0, 0)));
        }
        Node::Scope(o, self.s.flag())
    }

    fn commands(&mut self, names: &mut Vec<String>, calls: &mut Vec<(String, usize)>, top: bool, avg: u64) -> Vec<Node> {
        let mut o = Vec::new();
        while o.is_empty() || self.s.more(o.len(), avg, 12) {
            let c = match self.s.below(16) {
                0 if !(fixed(names).is_empty() && calls.is_empty()) && self.s.chance(1, 2) => {
                    self.fresh += 1;
                    let n = format!("late{}", self.fresh);
                    let some = fixed(names);
                    let mut body: Vec<Node> = (0..self.s.below(3)).map(|_| self.token()).collect();
                    let late = if !calls.is_empty() && (some.is_empty() || self.s.flag()) {
                        let c = self.late_call(calls, &some);
                        if let Node::LateCall(m, _) = &c {
                            self.lates.push((n.clone(), m.clone()));
                        }
                        c
                    } else {
                        Node::Late(self.s.pick(&some).clone())
                    };
                    body.insert(self.s.below(body.len() as u64 + 1) as usize, late);
                    names.push(n.clone());
                    Node::LateDef(n, body)
                }
                0..=3 => {
                    let n = if !self.seen.is_empty() && self.s.chance(1, 3) { self.s.pick(&self.seen).clone() } else { self.name() };
                    let body = if self.s.chance(1, 8) { vec![] } else { self.plain_nodes(1) };
                    if !self.seen.contains(&n) {
                        self.seen.push(n.clone());
                    }
                    if !names.contains(&n) {
                        names.push(n.clone());
                    }
                    Node::Define(n, body)
                }
                4 | 5 => {
                    let again = if top && !calls.is_empty() && self.s.chance(1, 4) { Some(self.s.below(calls.len() as u64) as usize) } else { None };
                    let name = match again {
                        Some(i) => {
                            let n = calls.remove(i).0;
                            self.gone(&n, names, calls);
                            n
                        }
                        None => {
                            self.fresh += 1;
                            format!("m{}", self.fresh)
                        }
                    };
                    if !self.mac.contains(&name) {
                        self.mac.push(name.clone());
                    }
                    let args: Vec<String> = (0..self.s.below(4)).map(|i| format!("{}{}", self.s.pick(&["p", "x", "_q"]), i)).collect();
                    // one may be named like something defined outside
                    let mut args = args;
                    for a in &mut args {
                        let some = fixed(names);
                        if !some.is_empty() && self.s.chance(1, 3) {
                            *a = self.s.pick(&some).clone();
                        }
                    }
                    let mut seen: Vec<String> = Vec::new();
                    args.retain(|a| !seen.contains(a) && { seen.push(a.clone()); true });
                    let mut body = self.marked(&args, &[], 0, 1);
                    let some = fixed(names);
                    if !some.is_empty() && self.s.chance(1, 3) {
                        body.push(Node::Late(self.s.pick(&some).clone()));
                    }
                    let plain: Vec<(String, usize)> = calls.iter().filter(|c| !self.calling.contains(&c.0)).cloned().collect();
                    // one that others call must not call others
                    if again.is_none() && !plain.is_empty() && self.s.chance(1, 4) {
                        let c = self.late_call(&plain, &[]);
                        if let Node::LateCall(m, _) = &c {
                            self.lates.push((name.clone(), m.clone()));
                        }
                        body.insert(self.s.below(body.len() as u64 + 1) as usize, c);
                        self.calling.push(name.clone());
                    }
                    calls.push((name.clone(), args.len()));
                    Node::Macro { name, args, body }
                }
                6 if top && !calls.is_empty() && self.s.chance(1, 3) => {
                    let i = self.s.below(calls.len() as u64) as usize;
                    let n = calls.remove(i).0;
                    self.gone(&n, names, calls);
                    Node::Undef(n)
                }
                6 if !names.is_empty() => {
                    let n = self.s.pick(names).clone();
                    names.retain(|x| *x != n);
                    Node::Undef(n)
                }
                7 => match self.var(|k| matches!(k, K::T(true))) {
                    Some((v, _)) => Node::Include(format!("{}.to_string().parse::<::qt::TokenStream>().unwrap()", v)),
                    None => Node::Count,
                },
                8 => Node::Quote(self.plain_nodes(0)),
                9 => Node::Count,
                10 | 11 if top => {
                    let before = names.clone();
                    let (mut after, mut arms) = (names.clone(), Vec::new());
                    for _ in 0..self.s.range(1, 3) {
                        let c = match self.s.below(5) {
                            0 if arms.is_empty() => {
                                let n = match self.s.below(4) {
                                    0 if !before.is_empty() => self.s.pick(&before).clone(),
                                    1 if !self.seen.is_empty() => self.s.pick(&self.seen).clone(),
                                    2 if !self.mac.is_empty() => self.s.pick(&self.mac).clone(),
                                    _ => self.name(),
                                };
                                Cond::Def(n, self.s.flag())
                            }
                            1 if arms.is_empty() && !calls.is_empty() => Cond::Def(self.s.pick(calls).0.clone(), self.s.flag()),
                            2 => Cond::Counted(self.s.below(3)),
                            _ => Cond::If(self.expr_b()),
                        };
                        let mut names = before.clone();
                        let mut own = calls.clone();
                        arms.push((c, self.commands(&mut names, &mut own, false, 2)));
                        after.retain(|n| names.contains(n));
                    }
                    let els = if self.s.flag() {
                        let mut names = before.clone();
                        let mut own = calls.clone();
                        let e = self.commands(&mut names, &mut own, false, 2);
                        after.retain(|n| names.contains(n));
                        Some(e)
                    } else {
                        None
                    };
                    *names = after;
                    Node::Chain(arms, els)
                }
                12 | 13 => {
                    let of = match self.var(|k| k == K::LT(true)) {
                        Some((v, _)) => v,
                        None => self.s.pick(&["0..3", "[\"a b\", \"c\"]", "Vec::<i32>::new()"]).to_string(),
                    };
                    let bind = if self.s.chance(1, 5) {
                        None
                    } else if !fixed(names).is_empty() && self.s.chance(1, 4) {
                        Some(self.s.pick(&fixed(names)).clone())
                    } else {
                        Some(self.name())
                    };
                    let mut inner = names.clone();
                    inner.extend(bind.clone());
                    let blocks = (0..self.s.range(1, 2)).map(|_| Node::Block(self.marked(&inner, calls, 0, 0))).collect();
                    Node::Foreach { of, bind, blocks }
                }
                _ => Node::Block(self.marked(names, calls, 0, 0)),
            };
            o.push(c);
        }
        o
    }

    /// A scope with one directive out of its place.
    fn strayed(&mut self, last: bool) -> Node {
        let (mut list, end) = loop {
            if let Node::Scope(l, e) = self.scope() {
                break (l, e);
            }
        };
        let (b, e) = (self.expr_b(), self.name());
        if last {
            let at = self.s.below(list.len() as u64) as usize;
            list.insert(at, Node::Stray("#end".into(), Home::NotLast));
            return Node::Scope(list, end);
        }
        let calls: Vec<(usize, String, usize)> = list.iter().enumerate().filter_map(|(i, n)| match n {
            Node::Macro { name, args, .. } if args.len() > 0 => Some((i, name.clone(), args.len())),
            _ => None,
        }).collect();
        match self.s.below(8) {
            0 | 1 => {
                let (d, h) = match self.s.below(4) {
                    0 => (format!("#elif({})", b), Home::NoIf),
                    1 => ("#else".into(), Home::NoIf),
                    2 => ("#endif".into(), Home::NoIf),
                    _ => ("#endfor".to_string(), Home::NoLoop),
                };
                let at = self.s.below(list.len() as u64 + 1) as usize;
                let stray = Node::Stray(d, h.clone());
                // in the branch of an #if, if there is one
                if h == Home::NoLoop {
                    if let Some(Node::Chain(arms, _)) = list.iter_mut().find(|n| matches!(n, Node::Chain(..))) {
                        let k = self.s.below(arms.len() as u64) as usize;
                        let at = self.s.below(arms[k].1.len() as u64 + 1) as usize;
                        arms[k].1.insert(at, stray);
                        return Node::Scope(list, end);
                    }
                }
                list.insert(at, stray);
            }
            2 if !calls.is_empty() => {
                let (i, name, k) = self.s.pick(&calls).clone();
                let n = match self.s.below(3) {
                    0 if k > 1 => k - 1,
                    1 => k + 2,
                    _ => k + 1,
                };
                let acts: Vec<String> = (0..n).map(|i| format!("a{}", i)).collect();
                list.insert(i + 1, Node::Stray(format!("{{ {} #({}({})) }}", self.s.pick(&["", "x", "fn f"]), name, acts.join(", ")), Home::Call(name, n)));
            }
            _ => {
                let d = match self.s.below(15) {
                    0 => format!("#define({}, x)", e),
                    1 => format!("#define({})", e),
                    2 => format!("#define({}(p0), #p0)", e),
                    3 => "#include(\"a b\".parse::<::qt::TokenStream>().unwrap())".into(),
                    4 => "#quote(a b)".into(),
                    5 => "#execute(__count.set(__count.get() + 1))".into(),
                    6 => format!("#undef({})", e),
                    7 => format!("#ifdef({})", e),
                    8 => format!("#ifndef({})", e),
                    9 => format!("#if({})", b),
                    10 => format!("#elif({})", b),
                    11 => "#else".into(),
                    12 => "#endif".into(),
                    13 => format!("#foreach(0..2, {})", e),
                    _ => "#foreach(0..2)".to_string(),
                };
                // at the top or in a branch, taken or not
                let chains: Vec<usize> = (0..list.len()).filter(|i| matches!(list[*i], Node::Chain(..))).collect();
                let mut into: Option<(usize, usize)> = None;
                if !chains.is_empty() && self.s.chance(2, 3) {
                    let i = *self.s.pick(&chains);
                    into = Some((i, self.s.below(kids(&list[i]).len() as u64) as usize));
                }
                let all = into.map(|(i, k)| std::mem::replace(&mut list, vec![]).into_iter().enumerate().map(|(j, mut n)| if i == j { (std::mem::take(kids_mut(&mut n)[k]), n) } else { (vec![], n) }).collect::<Vec<_>>());
                let mut rest = all.unwrap_or_default();
                if let Some((i, _)) = into {
                    list = std::mem::take(&mut rest[i].0);
                }
                if !list.iter().any(|n| matches!(n, Node::Foreach { .. })) {
                    let at = self.s.below(list.len() as u64 + 1) as usize;
                    let of = self.s.pick(&["0..3", "[\"a b\", \"c\"]", "Vec::<i32>::new()"]).to_string();
                    let bind = if self.s.flag() { Some(self.name()) } else { None };
                    let block = Node::Block(self.marked(&[], &[], 0, 0));
                    list.insert(at, Node::Foreach { of, bind, blocks: vec![block] });
                }
                let loops: Vec<usize> = (0..list.len()).filter(|i| matches!(list[*i], Node::Foreach { .. })).collect();
                let i = *self.s.pick(&loops);
                if let Node::Foreach { blocks, .. } = &mut list[i] {
                    let at = self.s.below(blocks.len() as u64 + 1) as usize;
                    blocks.insert(at, Node::Stray(d, Home::Loop));
                }
                if let Some((i, k)) = into {
                    *kids_mut(&mut rest[i].1)[k] = list;
                    list = rest.into_iter().map(|r| r.1).collect();
                }
            }
        }
        Node::Scope(list, end)
    }
}

/// The strays, and whether each is one where it is.
fn strays(ns: &[Node], in_loop: bool, in_if: bool, o: &mut Vec<bool>) {
    for (i, n) in ns.iter().enumerate() {
        match n {
            Node::Stray(_, h) => o.push(match h {
                Home::Loop => in_loop,
                Home::NoIf => !in_if,
                Home::NoLoop => !in_loop,
                Home::NotLast => !in_loop && !in_if && i + 1 < ns.len(),
                Home::Call(name, n) => {
                    !in_loop && !in_if && i > 0 && matches!(&ns[i - 1], Node::Macro { name: m, args, .. } if m == name && !args.is_empty() && args.len() != *n)
                }
            }),
            Node::Chain(..) => kids(n).into_iter().for_each(|k| strays(k, in_loop, true, o)),
            Node::Foreach { .. } => kids(n).into_iter().for_each(|k| strays(k, true, in_if, o)),
            _ => kids(n).into_iter().for_each(|k| strays(k, in_loop, in_if, o)),
        }
    }
}

fn without(ns: &[Node]) -> Vec<Node> {
    let mut o: Vec<Node> = ns.iter().filter(|n| !matches!(n, Node::Stray(..))).cloned().collect();
    for n in &mut o {
        for k in kids_mut(n) {
            *k = without(k);
        }
    }
    o
}

fn has_block(n: &Node) -> bool {
    match n {
        Node::Block(_) => true,
        Node::Foreach { blocks, .. } => blocks.iter().any(has_block),
        Node::Chain(arms, els) => arms.iter().any(|a| a.1.iter().any(has_block)) || els.as_ref().map_or(false, |e| e.iter().any(has_block)),
        _ => false,
    }
}

/// One in which a directive is out of its place.
pub fn misplaced(s: &mut Src, last: bool) -> Template {
    let compact = s.chance(1, 3);
    let wrap = s.weighted(&[12, 2, 2, 3]) as u8;
    let n = s.range(0, 5);
    let mut g = Gen { s, env: vec![], decls: vec![], budget: 12, fresh: 0, seen: vec![], mac: vec![], calling: vec![], lates: vec![] };
    for _ in 0..n {
        g.declare();
    }
    let mut body = vec![g.strayed(last)];
    if g.s.chance(1, 3) {
        body.insert(0, Node::Tok("pub".into()));
    }
    let decls = g.decls;
    Template { decls, body, wrap, compact, shadow: false }
}

pub fn template(s: &mut Src) -> Template {
    let compact = s.chance(1, 3);
    let wrap = s.weighted(&[12, 2, 2, 3]) as u8;
    let n = s.range(0, 9);
    let budget = *s.pick(&[6, 12, 25, 40]);
    let mut g = Gen { s, env: vec![], decls: vec![], budget, fresh: 0, seen: vec![], mac: vec![], calling: vec![], lates: vec![] };
    for _ in 0..n {
        g.declare();
    }
    let body = match g.s.below(12) {
        0 => vec![Node::Literal(g.raw(0, 1))],
        1 => vec![g.params()],
        2 => vec![g.scope()],
        _ => g.nodes(0, 1, false),
    };
    let shadow = g.s.chance(1, 8);
    let decls = g.decls;
    Template { decls, body, wrap, compact, shadow }
}

// ---------------------------------------------------------------------------------------------
// the text of a template

fn close(c: char) -> char {
    match c {
        '(' => ')',
        '[' => ']',
        _ => '}',
    }
}

fn of(f: &From) -> String {
    if f.expr {
        format!("#({})", f.code)
    } else {
        format!("#{}", f.code)
    }
}

pub fn quoted(ns: &[Node]) -> String {
    ns.iter().map(quoted1).collect::<Vec<_>>().join(" ")
}

fn quoted1(n: &Node) -> String {
    let bind = |b: &Option<String>| b.clone().unwrap_or_else(|| "_".into());
    match n {
        Node::Tok(t) => t.clone(),
        Node::Group { delim, bang, semi, body } => {
            format!("{}{} {} {}{}", if *bang { "! " } else { "" }, delim, quoted(body), close(*delim), if *semi { " ;" } else { "" })
        }
        Node::Attr { inner, body } => format!("#{}[{}]", if *inner { "!" } else { "" }, quoted(body)),
        Node::Hash => "##".into(),
        Node::Var(v) | Node::Name(v) => format!("#{}", v),
        Node::Late(v) => format!("##{}", v),
        Node::LateCall(n, acts) => format!("## ({}({}))", n, acts.iter().map(|a| quoted(a)).collect::<Vec<_>>().join(", ")),
        Node::LateDef(n, b) => format!("#define({}, {})", n, quoted(b)),
        Node::Expr(e) => format!("#({})", e),
        Node::Nest(b) => format!("#(quote!({}))", quoted(b)),
        Node::If { cond, plus, body } => format!("#({}: {}){}", of(cond), quoted(body), if *plus { "+" } else { "-" }),
        Node::Opt(f) => format!("#({})?", of(f)),
        Node::OptWith { of: f, bind: b, body } => format!("#({}:{} {})?", of(f), bind(b), quoted(body)),
        Node::Rep(f) => format!("#({})*", of(f)),
        Node::RepSep(f, sep) => format!("#({}){} *", of(f), sep),
        Node::RepAfter(f, sep) => format!("#({} {})*", of(f), sep),
        Node::RepWith { of: f, bind: b, body, sep } => format!("#({}:{} {}){} *", of(f), bind(b), quoted(body), sep.clone().unwrap_or_default()),
        Node::Literal(_) | Node::Params(..) | Node::Scope(..) => {
            let (m, b) = modifier(n).unwrap();
            format!("#(@{}: {})", m, b)
        }
        Node::Block(b) => format!("{{ {} }}", quoted(b)),
        Node::Define(n, b) if b.is_empty() => format!("#define({})", n),
        Node::Define(n, b) => format!("#define({}, {})", n, quoted(b)),
        Node::Macro { name, args, body } => format!("#define({}({}), {})", name, args.join(", "), quoted(body)),
        Node::Call(n, acts) => format!("#({}({}))", n, acts.iter().map(|a| quoted(a)).collect::<Vec<_>>().join(", ")),
        Node::Undef(n) => format!("#undef({})", n),
        Node::Include(e) => format!("#include({})", e),
        Node::Quote(b) => format!("#quote({})", quoted(b)),
        Node::Count => "#execute(__count.set(__count.get() + 1))".into(),
        Node::Chain(arms, els) => {
            let mut o = String::new();
            for (i, (c, b)) in arms.iter().enumerate() {
                let c = match c {
                    Cond::If(e) => format!("#{}({})", if i == 0 { "if" } else { "elif" }, e),
                    Cond::Counted(k) => format!("#{}(__count.get() > {})", if i == 0 { "if" } else { "elif" }, k),
                    Cond::Def(n, true) => format!("#ifdef({})", n),
                    Cond::Def(n, false) => format!("#ifndef({})", n),
                };
                let _ = write!(o, "{} {} ", c, quoted(b));
            }
            if let Some(e) = els {
                let _ = write!(o, "#else {} ", quoted(e));
            }
            o.push_str("#endif");
            o
        }
        Node::Stray(t, _) => t.clone(),
        Node::Foreach { of, bind, blocks } => match bind {
            Some(b) => format!("#foreach({}, {}) {} #endfor", of, b, quoted(blocks)),
            None => format!("#foreach({}) {} #endfor", of, quoted(blocks)),
        },
    }
}

fn modifier(n: &Node) -> Option<(String, String)> {
    match n {
        Node::Literal(b) => Some(("literal".into(), quoted(b))),
        Node::Params(ps, b) => {
            let ps: Vec<String> = ps
                .iter()
                .map(|(n, e)| match e {
                    Some(e) => format!("{} = {}", n, e),
                    None => n.clone(),
                })
                .collect();
            Some((format!("params({})", ps.join(", ")), quoted(b)))
        }
        Node::Scope(b, end) => Some(("scope".into(), format!("{}{}", quoted(b), if *end { " #end" } else { "" }))),
        _ => None,
    }
}

/// Without the spaces that do not matter.
fn compacted(t: &str) -> String {
    let cs: Vec<char> = t.chars().collect();
    let mut o = String::new();
    let mut quote: Option<char> = None;
    let mut i = 0;
    while i < cs.len() {
        let c = cs[i];
        match quote {
            Some(q) => {
                o.push(c);
                if c == '\\' {
                    i += 1;
                    o.push(cs[i]);
                } else if c == q {
                    quote = None;
                }
            }
            None if c == '"' || (c == '\'' && (cs.get(i + 2) == Some(&'\'') || cs.get(i + 1) == Some(&'\\'))) => {
                quote = Some(c);
                o.push(c);
                if c == '\'' && cs[i + 1] != '\\' {
                    o.push(cs[i + 1]);
                    i += 1;
                }
            }
            None if c == ' ' => {
                let (a, b) = (o.chars().last().unwrap_or(' '), cs.get(i + 1).copied().unwrap_or(' '));
                let group = |c: char| "()[]{}".contains(c);
                let op = |c: char| "&:+-*=<>.,;|^%!?@".contains(c);
                let word = |c: char| c.is_alphanumeric() || c == '_';
                let digits = {
                    let t: String = o.chars().rev().take_while(|c| word(*c) || *c == '.' || *c == '#' || *c == '\'').collect();
                    t.chars().last().map_or(false, |c| c.is_ascii_digit() || c == '\'' || c == '#' || c == '.')
                };
                let drop = (group(a) && (group(b) || op(b))) || (op(a) && group(b)) || (word(a) && !digits && (group(b) || op(b))) || (group(a) && word(b)) || (op(a) && a != '.' && b.is_alphabetic() && !"rbc".contains(b));
                // raw strings and prefixes keep their distance
                if !drop {
                    o.push(' ');
                }
            }
            None => o.push(c),
        }
        i += 1;
    }
    o
}

impl Template {
    pub fn invocation(&self) -> String {
        let text = match (self.wrap, self.body.len(), self.body.first().and_then(modifier)) {
            (1, ..) => format!("@span(::qt::Span::mixed_site()): {}", quoted(&self.body)),
            (2, 1, Some((m, b))) => format!("@options(span(::qt::Span::mixed_site()), {}): {}", m, b),
            (2, ..) => format!("@options(span(::qt::Span::mixed_site())): {}", quoted(&self.body)),
            (3, 1, Some((m, b))) => format!("@{}: {}", m, b),
            _ => quoted(&self.body),
        };
        format!("quote!({})", if self.compact && !text.contains("r#\"") && !text.contains("r\"") { compacted(&text) } else { text })
    }

    /// Items which the template does not speak of, under names that mean something else elsewhere.
    fn shadows(&self) -> String {
        const ITEMS: [(&str, &str); 12] = [
            ("Vec", "struct Vec;"),
            ("Option", "struct Option;"),
            ("Some", "fn Some() {}"),
            ("None", "struct None(u8);"),
            ("String", "struct String;"),
            ("HashMap", "struct HashMap;"),
            ("TokenStream", "struct TokenStream;"),
            ("TokenTree", "struct TokenTree;"),
            ("std", "mod std {}"),
            ("proc_macro", "mod proc_macro {}"),
            ("drop", "fn drop() {}"),
            ("stringify", "macro_rules! stringify { ($($t:tt)*) => { \"\" } }"),
        ];
        if !self.shadow {
            return String::new();
        }
        let text = self.invocation();
        let words: Vec<&str> = text.split(|c: char| !c.is_alphanumeric() && c != '_').collect();
        ITEMS.iter().filter(|i| !words.contains(&i.0)).map(|i| i.1).collect::<Vec<_>>().join(" ")
    }

    pub fn modifiers(&self) -> bool {
        fn any(ns: &[Node]) -> bool {
            ns.iter().any(|n| modifier(n).is_some() || kids(n).iter().any(|k| any(k)))
        }
        any(&self.body)
    }

    /// `got`: what is compared with the model.
    fn function(&self, got: &str) -> String {
        let mut o = String::from("use ::qt::{Cx, M, Src, Verdict};\npub fn case(__s: &mut Src, __cx: &mut Cx) -> Verdict {\n");
        o.push_str("let __count = ::std::cell::Cell::new(0u64);\n");
        for d in &self.decls {
            o.push_str(d);
            o.push('\n');
        }
        // the model first: variables may be used up by the template
        let mut m = Model { o: String::new(), macros: HashMap::new(), fresh: 0, once: vec![], lates: HashMap::new() };
        m.nodes(&self.body);
        for d in &self.decls {
            // one that may be used once is used twice here
            if let Some(n) = d.strip_prefix("let ").and_then(|d| d.split(" = ").next()) {
                if d.contains("= ::qt::loose(") || d.contains("= ::qt::list(") {
                    m.once.push(n.to_string());
                }
            }
        }
        o.push_str("let mut __m = M::new();\nlet mut __n = 0u64;\n{\n");
        for n in &m.once {
            let _ = writeln!(o, "let {0} = {0}.clone();", n);
        }
        o.push_str(&m.o);
        o.push_str("}\n");
        let _ = writeln!(o, "let __got: ::qt::TokenStream = {{ {} {} }};", self.shadows(), got);
        o.push_str("if __count.get() != __n { return Err(format!(\"#execute ran {} times instead of {}\", __count.get(), __n)); }\n");
        let _ = writeln!(o, "__m.check(__got, ::qt::Span::{}(), {}, {:?}, __cx)\n}}", if matches!(self.wrap, 1 | 2) { "mixed_site" } else { "call_site" }, !self.interpolates(), self.invocation());
        o
    }

    pub fn interpolates(&self) -> bool {
        fn any(ns: &[Node]) -> bool {
            ns.iter().any(|n| match n {
                Node::Tok(_) | Node::Hash => false,
                Node::Group { body, .. } | Node::Attr { body, .. } => any(body),
                _ => true,
            })
        }
        any(&self.body)
    }

    /// With a directive out of its place?
    pub fn stray(&self) -> bool {
        let mut o = Vec::new();
        strays(&self.body, false, false, &mut o);
        !o.is_empty()
    }

    /// Both ways: as it should be it expands, with the stray it must not.
    fn two(&self, with: bool) -> String {
        let mut o = String::from("use ::qt::{Cx, M, Src, Verdict};\npub fn case(__s: &mut Src, __cx: &mut Cx) -> Verdict {\n");
        o.push_str("let __count = ::std::cell::Cell::new(0u64);\n");
        for d in &self.decls {
            o.push_str(d);
            o.push('\n');
        }
        let good = Template { body: without(&self.body), ..self.clone() };
        let mut once = String::new();
        for d in &self.decls {
            if let Some(n) = d.strip_prefix("let ").and_then(|d| d.split(" = ").next()) {
                if d.contains("= ::qt::loose(") || d.contains("= ::qt::list(") {
                    let _ = write!(once, "let {0} = {0}.clone(); ", n);
                }
            }
        }
        let run = |t: &str| format!("::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(|| -> ::qt::TokenStream {{ {}{} }}))", once, t);
        let _ = writeln!(o, "let __good = {};", run(&good.invocation()));
        o.push_str("if __good.is_err() { return Ok(()); }\n");
        if with {
            let _ = writeln!(o, "let __bad = {};", run(&self.invocation()));
            let _ = writeln!(o, "__cx.case(true, || {:?}.to_string());", self.invocation());
            o.push_str("if let Ok(__t) = __bad { return Err(format!(\"a directive out of its place is accepted, the template gives: {}\", __t)); }\n");
        }
        o.push_str("Ok(())\n}\n");
        o
    }

    pub fn text(&self) -> String {
        if self.stray() {
            return self.two(true);
        }
        self.function(&self.invocation())
    }

    /// The same without the macro (without the stray): has to compile.
    pub fn control(&self) -> String {
        if self.stray() {
            return self.two(false);
        }
        self.function("::qt::TokenStream::new()")
    }

    pub fn describe(&self) -> String {
        format!("{}\n{}{}{}", self.decls.join("\n"), self.shadows(), if self.shadow { "\n" } else { "" }, self.invocation())
    }

    pub fn labels(&self) -> Vec<&'static str> {
        let mut o: Vec<&'static str> = Vec::new();
        fn walk(ns: &[Node], depth: u32, o: &mut Vec<&'static str>) {
            for n in ns {
                let (l, deep) = match n {
                    Node::Group { .. } => ("group", false),
                    Node::Attr { .. } => ("attribute", false),
                    Node::Hash => ("##", false),
                    Node::Var(_) => ("#var", false),
                    Node::Expr(_) => ("#(expr)", false),
                    Node::Nest(_) => ("a template in a template", true),
                    Node::If { .. } => ("boolean", true),
                    Node::Opt(_) => ("#(#option)?", false),
                    Node::OptWith { .. } => ("option with body", true),
                    Node::Rep(_) => ("#(#iter)*", false),
                    Node::RepSep(..) => ("#(#iter)sep*", false),
                    Node::RepAfter(..) => ("#(#iter sep)*", false),
                    Node::RepWith { .. } => ("iter with body", true),
                    Node::Literal(_) => ("@literal", false),
                    Node::Params(..) => ("@params", false),
                    Node::Scope(..) => ("@scope", false),
                    Node::Chain(..) => ("@scope: #if", false),
                    Node::Foreach { .. } => ("@scope: #foreach", false),
                    Node::Macro { .. } => ("@scope: macro", false),
                    Node::LateDef(..) => ("@scope: late name", false),
                    Node::LateCall(..) => ("@scope: late call", false),
                    Node::Stray(_, Home::Loop) => ("in a loop", false),
                    Node::Stray(_, Home::NoIf) => ("without an #if", false),
                    Node::Stray(_, Home::NoLoop) => ("without a #foreach", false),
                    Node::Stray(_, Home::Call(..)) => ("wrong number of arguments", false),
                    Node::Stray(_, Home::NotLast) => ("something after #end", false),
                    _ => ("", false),
                };
                if !l.is_empty() && !o.contains(&l) {
                    o.push(l);
                }
                if deep && depth > 0 && !o.contains(&"nested forms") {
                    o.push("nested forms");
                }
                for k in kids(n) {
                    walk(k, depth + deep as u32, o);
                }
            }
        }
        walk(&self.body, 0, &mut o);
        if self.wrap > 0 && self.wrap < 3 {
            o.push("@span, @options");
        }
        o
    }
}

// ---------------------------------------------------------------------------------------------
// the model

struct Model {
    o: String,
    macros: HashMap<String, (Vec<String>, Vec<Node>)>,
    fresh: u32,
    once: Vec<String>,
    lates: HashMap<String, Vec<Node>>,
}

/// The tokens of a text of fixed tokens.
fn toks(t: &str) -> Vec<String> {
    if t.starts_with(['"', '\'', 'r', 'b', '(', '[', '{']) && t.contains(' ') && !t.contains('"') && !t.contains('\'') {
        t.split(' ').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()
    } else {
        vec![t.to_string()]
    }
}

impl Model {
    fn tok(&mut self, t: &str) {
        let _ = writeln!(self.o, "__m.tok({:?});", t);
    }
    fn sep(&mut self, t: &str) {
        for t in toks(t) {
            self.tok(&t);
        }
    }
    fn nodes(&mut self, ns: &[Node]) {
        for n in ns {
            self.node(n);
        }
    }
    /// Tokens with spans of their own.
    fn loosely(&mut self, ns: &[Node]) {
        self.o.push_str("__m.loose += 1;\n");
        self.nodes(ns);
        self.o.push_str("__m.loose -= 1;\n");
    }
    fn open(&mut self, t: &str) {
        self.o.push_str(t);
        self.o.push_str(" {\n");
    }
    fn close(&mut self) {
        self.o.push_str("}\n");
    }
    fn val(&mut self, v: &str) {
        let _ = writeln!(self.o, "__m.val(&({}));", v);
    }
    /// Into a variable of its own.
    fn into(&mut self, f: impl FnOnce(&mut Model)) -> String {
        self.fresh += 1;
        let v = format!("__m{}", self.fresh);
        let _ = writeln!(self.o, "let {} = {{ let mut __m = M::new();", v);
        f(self);
        self.o.push_str("__m };\n");
        v
    }
    fn name(&mut self, n: &str) {
        // what is not defined is not specified
        let _ = writeln!(self.o, "match __d.get({:?}) {{ Some(t) => __m.all(t), None => return Ok(()) }}", n);
    }

    fn node(&mut self, n: &Node) {
        match n {
            Node::Tok(t) => self.tok(t),
            Node::Group { delim, bang, semi, body } => {
                if *bang {
                    self.tok("!");
                }
                self.tok(&delim.to_string());
                self.nodes(body);
                self.tok(&close(*delim).to_string());
                if *semi {
                    self.tok(";");
                }
            }
            Node::Attr { inner, body } => {
                self.tok("#");
                if *inner {
                    self.tok("!");
                }
                self.tok("[");
                self.nodes(body);
                self.tok("]");
            }
            Node::Hash => self.tok("#"),
            Node::Var(v) | Node::Expr(v) => self.val(v),
            Node::Nest(b) => self.loosely(b),
            Node::If { cond, plus, body } => {
                self.open(&format!("if {}({})", if *plus { "" } else { "!" }, cond.code));
                self.nodes(body);
                self.close();
            }
            Node::Opt(f) => {
                self.open(&format!("if let Some(__x) = {}", f.code));
                self.val("__x");
                self.close();
            }
            Node::OptWith { of, bind, body } => {
                self.open(&format!("if let Some({}) = {}", bind.as_deref().unwrap_or("_"), of.code));
                self.nodes(body);
                self.close();
            }
            Node::Rep(f) => {
                self.open(&format!("for __x in {}", f.code));
                self.val("__x");
                self.close();
            }
            Node::RepSep(f, sep) => {
                self.open("");
                self.o.push_str("let mut __first = true;\n");
                self.open(&format!("for __x in {}", f.code));
                self.open("if !__first");
                self.sep(sep);
                self.close();
                self.o.push_str("__first = false;\n");
                self.val("__x");
                self.close();
                self.close();
            }
            Node::RepAfter(f, sep) => {
                self.open(&format!("for __x in {}", f.code));
                self.val("__x");
                self.sep(sep);
                self.close();
            }
            Node::RepWith { of, bind, body, sep } => {
                self.fresh += 1;
                let first = format!("__first{}", self.fresh);
                self.open("");
                let _ = writeln!(self.o, "let mut {} = true;", first);
                self.open(&format!("for {} in {}", bind.as_deref().unwrap_or("_"), of.code));
                if let Some(sep) = sep {
                    self.open(&format!("if !{}", first));
                    self.sep(sep);
                    self.close();
                }
                let _ = writeln!(self.o, "{} = false;", first);
                self.nodes(body);
                self.close();
                self.close();
            }
            Node::Literal(b) => self.loosely(b),
            Node::Params(ps, b) => {
                self.open("");
                self.o.push_str("let mut __d: ::std::collections::HashMap<&'static str, M> = Default::default();\n");
                for (n, e) in ps {
                    if let Some(e) = e {
                        let _ = writeln!(self.o, "let {} = {};", n, e);
                    }
                    let v = self.into(|m| m.val(n));
                    let _ = writeln!(self.o, "__d.insert({:?}, {});", n, v);
                }
                self.nodes(b);
                self.close();
            }
            Node::Scope(b, _) => {
                self.open("");
                self.o.push_str("let mut __d: ::std::collections::HashMap<&'static str, M> = Default::default();\n");
                self.nodes(b);
                self.close();
            }
            Node::Block(b) => self.nodes(b),
            Node::Define(n, b) => {
                self.open("");
                let v = self.into(|m| m.nodes(b));
                let _ = writeln!(self.o, "__d.insert({:?}, {});", n, v);
                self.close();
            }
            Node::Macro { name, args, body } => {
                self.macros.insert(name.clone(), (args.clone(), body.clone()));
                let _ = writeln!(self.o, "__d.insert({:?}, M::new());", name);
            }
            Node::LateDef(n, b) => {
                self.lates.insert(n.clone(), b.clone());
                let _ = writeln!(self.o, "__d.insert({:?}, M::new());", n);
            }
            Node::Name(v) | Node::Late(v) => match self.lates.get(v).cloned() {
                Some(b) => {
                    let _ = writeln!(self.o, "if !__d.contains_key({:?}) {{ return Ok(()) }}", v);
                    self.nodes(&b);
                }
                None => self.name(v),
            },
            Node::Call(n, acts) | Node::LateCall(n, acts) => {
                let (args, body) = match self.macros.get(n) {
                    Some(m) => m.clone(),
                    None => {
                        self.o.push_str("if true { return Ok(()); }\n");
                        return;
                    }
                };
                self.open("");
                let vs: Vec<String> = acts.iter().map(|a| self.into(|m| m.nodes(a))).collect();
                self.o.push_str("let mut __d = __d.clone();\n");
                for (a, v) in args.iter().zip(vs) {
                    let _ = writeln!(self.o, "__d.insert({:?}, {});", a, v);
                }
                self.nodes(&body);
                self.close();
            }
            Node::Undef(n) => {
                let _ = writeln!(self.o, "__d.remove({:?});", n);
            }
            Node::Include(e) => self.val(e),
            Node::Quote(b) => self.nodes(b),
            Node::Count => self.o.push_str("__n += 1;\n"),
            Node::Stray(..) => (),
            Node::Chain(arms, els) => {
                for (i, (c, b)) in arms.iter().enumerate() {
                    let c = match c {
                        Cond::If(e) => e.clone(),
                        Cond::Counted(k) => format!("__n > {}", k),
                        Cond::Def(n, yes) => format!("{}__d.contains_key({:?})", if *yes { "" } else { "!" }, n),
                    };
                    self.open(&format!("{}if {}", if i > 0 { "else " } else { "" }, c));
                    self.nodes(b);
                    self.close();
                }
                if let Some(e) = els {
                    self.open("else");
                    self.nodes(e);
                    self.close();
                }
            }
            Node::Foreach { of, bind, blocks } => {
                // each block is repeated by itself
                for b in blocks {
                    self.open(&format!("for __x in {}", of));
                    if let Some(n) = bind {
                        self.o.push_str("let mut __d = __d.clone();\n");
                        let v = self.into(|m| m.val("__x"));
                        let _ = writeln!(self.o, "__d.insert({:?}, {});", n, v);
                    }
                    self.node(b);
                    self.close();
                }
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// smaller templates

pub fn kids(n: &Node) -> Vec<&Vec<Node>> {
    match n {
        Node::Group { body, .. } | Node::Attr { body, .. } | Node::If { body, .. } | Node::OptWith { body, .. } | Node::RepWith { body, .. } | Node::Macro { body, .. } => vec![body],
        Node::Nest(b) | Node::Literal(b) | Node::Params(_, b) | Node::Scope(b, _) | Node::Block(b) | Node::Define(_, b) | Node::LateDef(_, b) | Node::Quote(b) => vec![b],
        Node::Call(_, acts) | Node::LateCall(_, acts) => acts.iter().collect(),
        Node::Chain(arms, els) => arms.iter().map(|a| &a.1).chain(els.iter()).collect(),
        Node::Foreach { blocks, .. } => vec![blocks],
        _ => vec![],
    }
}

fn kids_mut(n: &mut Node) -> Vec<&mut Vec<Node>> {
    match n {
        Node::Group { body, .. } | Node::Attr { body, .. } | Node::If { body, .. } | Node::OptWith { body, .. } | Node::RepWith { body, .. } | Node::Macro { body, .. } => vec![body],
        Node::Nest(b) | Node::Literal(b) | Node::Params(_, b) | Node::Scope(b, _) | Node::Block(b) | Node::Define(_, b) | Node::LateDef(_, b) | Node::Quote(b) => vec![b],
        Node::Call(_, acts) | Node::LateCall(_, acts) => acts.iter_mut().collect(),
        Node::Chain(arms, els) => arms.iter_mut().map(|a| &mut a.1).chain(els.iter_mut()).collect(),
        Node::Foreach { blocks, .. } => vec![blocks],
        _ => vec![],
    }
}

/// The lists of the template in a fixed order.
fn nth_list<R>(ns: &mut Vec<Node>, k: &mut usize, f: &mut dyn FnMut(&mut Vec<Node>) -> R) -> Option<R> {
    if *k == 0 {
        return Some(f(ns));
    }
    *k -= 1;
    for n in ns.iter_mut() {
        for l in kids_mut(n) {
            if let Some(r) = nth_list(l, k, f) {
                return Some(r);
            }
        }
    }
    None
}

fn in_scope(n: &Node) -> bool {
    matches!(
        n,
        Node::Block(_) | Node::Define(..) | Node::LateDef(..) | Node::Macro { .. } | Node::Undef(_) | Node::Include(_) | Node::Quote(_) | Node::Count | Node::Chain(..) | Node::Foreach { .. } | Node::Stray(..)
    )
}

/// Does it still have the form it must have?
fn valid(ns: &[Node], scope: bool, raw: bool) -> bool {
    for (i, n) in ns.iter().enumerate() {
        if in_scope(n) != scope {
            return false;
        }
        if !raw && matches!(n, Node::Tok(t) if t == "#") {
            return false;
        }
        if !raw && matches!(n, Node::Hash | Node::Tok(_)) && matches!((n, ns.get(i + 1)), (Node::Tok(t), Some(Node::Tok(u))) if t == "#" || u == "#") {
            return false;
        }
        let ok = match n {
            Node::If { body, .. } | Node::OptWith { body, .. } | Node::RepWith { body, .. } | Node::Params(_, body) | Node::LateDef(_, body) | Node::Macro { body, .. } => !body.is_empty() && valid(body, false, false),
            Node::Literal(body) => !body.is_empty() && valid(body, false, true),
            Node::Scope(b, _) => b.iter().any(has_block) && valid(b, true, false),
            Node::Foreach { blocks, .. } => blocks.iter().any(|b| matches!(b, Node::Block(_))) && blocks.iter().all(|b| matches!(b, Node::Block(_) | Node::Stray(..))) && valid(blocks, true, false),
            Node::Chain(arms, els) => arms.iter().map(|a| &a.1).chain(els.iter()).all(|b| valid(b, true, false)),
            Node::Call(_, acts) | Node::LateCall(_, acts) => acts.iter().all(|b| !b.is_empty() && valid(b, false, false)),
            Node::Group { body, .. } => valid(body, false, raw),
            other => kids(other).iter().all(|k| valid(k, false, false)),
        };
        if !ok {
            return false;
        }
    }
    true
}

/// Everything that is one step smaller, the big steps first.
pub fn smaller(t: &Template) -> Vec<Template> {
    let mut o: Vec<Template> = Vec::new();
    let stray = t.stray();
    let mut push = |c: Template| {
        let mut now = Vec::new();
        strays(&c.body, false, false, &mut now);
        if valid(&c.body, false, false) && (now == [true]) == stray {
            o.push(c);
        }
    };
    for k in 0.. {
        let mut c = t.clone();
        let len = match nth_list(&mut c.body, &mut { k }, &mut |l| l.len()) {
            Some(n) => n,
            None => break,
        };
        let mut size = len;
        while size > 0 {
            let mut i = 0;
            while i < len {
                let mut c = t.clone();
                let hi = (i + size).min(len);
                nth_list(&mut c.body, &mut { k }, &mut |l| l.drain(i..hi).count());
                push(c);
                i += size;
            }
            size /= 2;
        }
        for i in 0..len {
            // its parts in its place
            let mut c = t.clone();
            let did = nth_list(&mut c.body, &mut { k }, &mut |l| {
                let parts: Vec<Node> = kids(&l[i]).into_iter().flatten().cloned().collect();
                if parts.is_empty() {
                    return false;
                }
                l.splice(i..i + 1, parts);
                true
            });
            if did == Some(true) {
                push(c);
            }
            // a simpler token, a simpler form
            let mut c = t.clone();
            let did = nth_list(&mut c.body, &mut { k }, &mut |l| match &mut l[i] {
                Node::Tok(t) if t.len() > 1 && t.chars().all(|c| c.is_alphanumeric() || c == '_' || c == '#') => {
                    *t = "a".into();
                    true
                }
                Node::Group { bang, semi, .. } if *bang || *semi => {
                    *bang = false;
                    *semi = false;
                    true
                }
                Node::RepWith { sep, .. } if sep.is_some() => {
                    *sep = None;
                    true
                }
                Node::Scope(_, end) if *end => {
                    *end = false;
                    true
                }
                Node::Chain(arms, _) if arms.len() > 1 => {
                    arms.pop();
                    true
                }
                _ => false,
            });
            if did == Some(true) {
                push(c);
            }
        }
    }
    if t.wrap > 0 {
        push(Template { wrap: 0, ..t.clone() });
    }
    if t.compact {
        push(Template { compact: false, ..t.clone() });
    }
    if t.shadow {
        push(Template { shadow: false, ..t.clone() });
    }
    for i in 0..t.decls.len() {
        let mut c = t.clone();
        c.decls.remove(i);
        push(c);
    }
    o
}
