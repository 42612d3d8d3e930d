//! What the generated procedural macros use: values for the variables of a template, the tokens a
//! template must give, and the loop over the cases.

extern crate proc_macro;

pub use json_quote;
pub use pbt::{Cx, Src, Verdict};
pub use proc_macro::{Delimiter, Group, Ident, Literal, Span, TokenStream, TokenTree};
pub use std::collections::{BTreeSet, VecDeque};

mod cases;
pub use cases::{main, Unit};

/// Operators of more than one character: they count as one token when written as one.
const OPERATORS: &[&str] = &[
    ">>=", "<<=", "...", "..=", "->", "=>", "<=", ">=", "==", "!=", "&&", "||", "+=", "-=", "*=", "/=", "%=", "^=", "&=", "|=", "<<", ">>", "..", "::",
];

/// Tokens, operators of several characters as one, each with its depth and its span (if asked for).
#[derive(Default)]
struct Flat {
    t: Vec<(String, u32)>,
    spans: Option<Vec<String>>,
    run: String,
    at: Vec<String>,
}

impl Flat {
    fn span(&mut self, s: Span) {
        if self.spans.is_some() {
            self.at.push(format!("{:?}", s));
        }
    }
    /// A token of as many parts as there are spans waiting, up to `n`.
    fn push(&mut self, t: String, depth: u32, n: usize) {
        self.t.push((t, depth));
        if let Some(spans) = &mut self.spans {
            let mut parts: Vec<String> = self.at.drain(..n.min(self.at.len())).collect();
            parts.dedup();
            spans.push(parts.join(" + "));
        }
    }
    fn glue(&mut self, depth: u32) {
        while !self.run.is_empty() {
            let n = OPERATORS.iter().find(|p| self.run.starts_with(**p)).map_or(1, |p| p.len());
            let t = self.run[..n].to_string();
            self.run.replace_range(..n, "");
            self.push(t, depth, n);
        }
    }
    fn put(&mut self, ts: TokenStream, depth: u32) {
        let mut quote = false;
        for t in ts {
            let s = t.span();
            match t {
                TokenTree::Punct(p) if p.as_char() == '\'' => {
                    self.glue(depth);
                    self.span(s);
                    quote = true;
                }
                TokenTree::Punct(p) => {
                    self.span(s);
                    self.run.push(p.as_char());
                    if p.spacing() == proc_macro::Spacing::Alone {
                        self.glue(depth);
                    }
                }
                TokenTree::Ident(i) if quote => {
                    quote = false;
                    self.span(s);
                    self.push(format!("'{}", i), depth, 2);
                }
                TokenTree::Group(g) => {
                    self.glue(depth);
                    let (a, b) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::None => ("", ""),
                    };
                    if !a.is_empty() {
                        self.span(s);
                        self.push(a.into(), depth, 1);
                    }
                    self.put(g.stream(), depth + 1);
                    if !b.is_empty() {
                        self.span(s);
                        self.push(b.into(), depth, 1);
                    }
                }
                other => {
                    self.glue(depth);
                    self.span(s);
                    self.push(other.to_string(), depth, 1);
                }
            }
        }
        self.glue(depth);
        if quote {
            self.push("'".into(), depth, 1);
        }
    }
}

/// The tokens, operators of several characters as one, with the depth of each.
fn flat(ts: TokenStream) -> Vec<(String, u32)> {
    let mut f = Flat::default();
    f.put(ts, 0);
    f.t
}

pub fn lex(text: &str) -> TokenStream {
    match text.parse() {
        Ok(t) => t,
        Err(e) => panic!("the generator makes no tokens: {:?}: {}", text, e),
    }
}

/// Collects the tokens a template must give, and whether the template made them itself (or they are
/// the tokens of a value, not in a group): those carry the span asked for.
#[derive(Default, Clone)]
pub struct M {
    t: Vec<(String, bool)>,
    /// while not 0, tokens come from elsewhere
    pub loose: u32,
}

impl M {
    pub fn new() -> M {
        M::default()
    }
    pub fn tok(&mut self, t: &str) {
        self.t.push((t.into(), self.loose == 0));
    }
    pub fn val(&mut self, v: impl ToString) {
        let loose = self.loose > 0;
        self.t.extend(flat(lex(&v.to_string())).into_iter().map(|(t, d)| (t, d == 0 && !loose)));
    }
    pub fn all(&mut self, m: &M) {
        let loose = self.loose > 0;
        self.t.extend(m.t.iter().map(|(t, own)| (t.clone(), *own && !loose)));
    }
    pub fn check(self, got: TokenStream, span: Span, trivial: bool, template: &str, cx: &mut Cx) -> Verdict {
        let (want, own): (Vec<String>, Vec<bool>) = self.t.into_iter().unzip();
        let mut f = Flat { spans: Some(vec![]), ..Flat::default() };
        f.put(got, 0);
        let (got, _): (Vec<String>, Vec<u32>) = f.t.into_iter().unzip();
        let same = got == want;
        let wanted = dotted(&want).join(" ");
        cx.case(!trivial && !want.is_empty(), || format!("{} => {}", template, wanted));
        if !same {
            let got = dotted(&got).join(" ");
            return if got == wanted { Ok(()) } else { Err(format!("the tokens are\n  {}\ninstead of\n  {}", got, wanted)) };
        }
        let (span, spans) = (format!("{:?}", span), f.spans.unwrap_or_default());
        match (0..own.len()).find(|i| own[*i] && spans[*i] != span) {
            None => Ok(()),
            Some(i) => Err(format!("token {} ({}) of\n  {}\nhas the span {} instead of {}", i, want[i], wanted, spans[i], span)),
        }
    }
}

/// The compiler itself prints `1 . 2` as "1.2", so that what passes through a text does not keep
/// a number and a dot apart. Neither do we.
fn dotted(t: &[String]) -> Vec<String> {
    let mut o: Vec<String> = Vec::new();
    for x in t {
        match o.last_mut() {
            Some(l) if l.starts_with(|c: char| c.is_ascii_digit()) && (x.starts_with('.') || l.ends_with('.') && x.starts_with(|c: char| c.is_ascii_digit())) => l.push_str(x),
            _ => o.push(x.clone()),
        }
    }
    o
}

// ---------------------------------------------------------------------------------------------
// values

fn ident(s: &mut Src) -> String {
    match s.below(8) {
        0..=3 => s.pick(&["a", "foo", "T", "fn", "self", "r#type", "_x", "Bar9", "été", "true", "u8", "crate", "i", "r", "b", "_", "Self", "async"]).to_string(),
        _ => {
            const FIRST: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_";
            const NEXT: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789";
            let mut t = String::new();
            t.push(*s.pick(FIRST) as char);
            for _ in 0..s.range(1, 12) {
                t.push(*s.pick(NEXT) as char);
            }
            t
        }
    }
}

fn literal(s: &mut Src) -> String {
    match s.below(6) {
        0 => s.below(1000).to_string(),
        1 => s.pick(&["0x1Fu8", "1.5e3", "1_000u64", "0b11i32", "2.0f32", "0o17i8", "1e-7"]).to_string(),
        2 => s.pick(&["\"\"", "\"a b\"", "\"say \\\"hi\\\"\"", "\"#x\"", "r\"\\d\"", "r#\"\"q\"\"#", "\"{\"", "\"é\\n\"", "\"//\""]).to_string(),
        3 => s.pick(&["'a'", "'\\''", "'\\n'", "'('", "b'x'", "'\"'"]).to_string(),
        4 => s.pick(&["b\"ab\\x00\"", "br\"x\""]).to_string(),
        _ => format!("{:?}", text(s)),
    }
}

/// A text that is a sequence of tokens: what interpolated values print.
pub fn text(s: &mut Src) -> String {
    tokens(s, 2)
}

fn tokens(s: &mut Src, depth: u32) -> String {
    match s.below(if depth == 0 { 12 } else { 21 }) {
        0..=5 => ident(s),
        6..=7 => literal(s),
        8 => String::new(),
        9 => s.pick(&["::", "->", "..=", "&&", ">>=", "=>", "...", "<", "+", "#", "-", ",", ";", ".", "!", "?", "&", "|", "||", "@", "$", "~", "<-"]).to_string(),
        10 => s.pick(&["'a", "'static", "&'a mut T", "'_", "-1", "-1.5", "x: &'a str"]).to_string(),
        11 => s.pick(&["a::b", "Vec<T>", "::std::vec::Vec<u8>", "T: Clone + 'a", "a && b", "x >>= 1", "1..=2", "a.b.0", "x as u8", "#[a]", "#![b(c)]", " a ", "a\nb", "a /* c */ b", "a // c\n"]).to_string(),
        12 | 13 => {
            let (a, b) = *s.pick(&[("(", ")"), ("[", "]"), ("{", "}")]);
            format!("{}{}{}", a, tokens(s, depth - 1), b)
        }
        16 => format!("{}{}{}", ident(s), s.pick(&["-", "+", "::", "<", "->", "=", "&&", ".", ",", "?", "!", "@", "$", "|", "-="]), ident(s)),
        14 => format!("{}!({})", ident_plain(s), tokens(s, depth - 1)),
        15 => format!("{};", tokens(s, depth - 1)),
        _ => {
            let n = s.range(2, 4);
            (0..n).map(|_| tokens(s, depth - 1)).collect::<Vec<_>>().join(*s.pick(&[" ", "\n", "  "]))
        }
    }
}

fn ident_plain(s: &mut Src) -> String {
    s.pick(&["foo", "println", "vec", "m"]).to_string()
}

pub fn word(s: &mut Src) -> &'static str {
    s.pick(&["a", "foo", "", "r#fn", "a::b", "'a", "->", "\"x\"", "(a, b)", "-1", "Vec<T>", "_0", "{ }", "&&", "Self"])
}

pub fn num(s: &mut Src) -> i64 {
    match s.below(4) {
        0 => s.below(10) as i64,
        1 => -(s.below(10) as i64),
        2 => *s.pick(&[i64::MAX, i64::MIN, 255, -1]),
        _ => s.bits() as i64,
    }
}

pub fn small(s: &mut Src) -> usize {
    s.below(5) as usize
}

pub fn float(s: &mut Src) -> f64 {
    *s.pick(&[0.0, 1.0, -2.5, 1e300, 0.1, -0.0, 123456789.125])
}

pub fn flag(s: &mut Src) -> bool {
    s.flag()
}

pub fn letter(s: &mut Src) -> char {
    *s.pick(&['a', 'Z', '_', '7', 'é', '+', ';', ' '])
}

pub fn stream(s: &mut Src) -> TokenStream {
    lex(&text(s))
}

/// A stream whose tokens are all tokens by themselves.
pub fn loose(s: &mut Src) -> TokenStream {
    lex(&s.vec(3, 6, |s| s.pick(&["a", "foo", "r#fn", "1", "\"x y\"", "(a, b::c)", "[1 + 2]", "{ x: &'a T }", ",", ";", ":", "+", "'c'", "-"]).to_string()).join(" "))
}

pub fn name(s: &mut Src) -> Ident {
    let t = s.pick(&["a", "foo", "Bar9", "_x", "self", "été", "struct"]);
    if s.flag() && !["self"].contains(t) {
        Ident::new_raw(t, Span::call_site())
    } else {
        Ident::new(t, Span::mixed_site())
    }
}

pub fn lit(s: &mut Src) -> Literal {
    match s.below(5) {
        0 => Literal::string(&text(s)),
        1 => Literal::i64_unsuffixed(s.below(1000) as i64),
        2 => Literal::u8_suffixed(s.below(256) as u8),
        3 => Literal::f64_unsuffixed(0.5 + s.below(10) as f64),
        _ => Literal::byte_string(&[s.below(256) as u8, 0]),
    }
}

pub fn group(s: &mut Src) -> Group {
    Group::new(*s.pick(&[Delimiter::Parenthesis, Delimiter::Bracket, Delimiter::Brace]), stream(s))
}

pub fn opt<T>(s: &mut Src, f: impl FnOnce(&mut Src) -> T) -> Option<T> {
    if s.flag() {
        Some(f(s))
    } else {
        None
    }
}

pub fn list<T>(s: &mut Src, f: impl FnMut(&mut Src) -> T) -> Vec<T> {
    s.vec(2, 5, f)
}

/// A structure, for bodies that use several parts of an element.
#[derive(Clone, Default)]
pub struct E {
    pub t: String,
    pub n: i64,
    pub flag: bool,
    pub opt: Option<String>,
    pub list: Vec<String>,
    pub kid: Option<Box<E>>,
    pub kids: Vec<E>,
}

impl std::fmt::Display for E {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&self.t)
    }
}

pub fn e(s: &mut Src) -> E {
    e_at(s, 2)
}

fn e_at(s: &mut Src, depth: u32) -> E {
    E {
        t: text(s),
        n: num(s),
        flag: s.flag(),
        opt: opt(s, text),
        list: list(s, text),
        kid: if depth > 0 && s.flag() { Some(Box::new(e_at(s, depth - 1))) } else { None },
        kids: if depth > 0 { s.vec(2, 3, |s| e_at(s, depth - 1)) } else { vec![] },
    }
}
