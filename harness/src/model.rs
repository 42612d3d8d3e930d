//! The reference: what JSON values are, how text denotes them, how they are written, and what each
//! operation does to them. Written from RFC 8259 and the documented behaviour, not from the code.

use json::Json;
use std::collections::{HashMap, LinkedList};

#[derive(Clone, Debug)]
pub enum V {
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    Arr(Vec<V>),
    /// members in order of arrival, duplicates included
    Obj(Vec<(String, V)>),
}

/// Numbers are compared bit by bit.
impl PartialEq for V {
    fn eq(&self, o: &V) -> bool {
        match (self, o) {
            (V::Null, V::Null) => true,
            (V::Bool(a), V::Bool(b)) => a == b,
            (V::Num(a), V::Num(b)) => a.to_bits() == b.to_bits(),
            (V::Str(a), V::Str(b)) => a == b,
            (V::Arr(a), V::Arr(b)) => a == b,
            (V::Obj(a), V::Obj(b)) => a == b,
            _ => false,
        }
    }
}

impl V {
    pub fn s(x: &str) -> V {
        V::Str(x.to_string())
    }
    pub fn kind(&self) -> &'static str {
        match self {
            V::Null => "null",
            V::Bool(_) => "boolean",
            V::Num(_) => "number",
            V::Str(_) => "string",
            V::Arr(_) => "array",
            V::Obj(_) => "object",
        }
    }
    pub fn is_container(&self) -> bool {
        matches!(self, V::Arr(_) | V::Obj(_))
    }
    /// Members sorted by key, duplicates of a key in order of arrival: the order between different keys
    /// carries no meaning.
    pub fn canon(&self) -> V {
        match self {
            V::Arr(a) => V::Arr(a.iter().map(|x| x.canon()).collect()),
            V::Obj(m) => {
                let mut m: Vec<(String, V)> = m.iter().map(|(k, v)| (k.clone(), v.canon())).collect();
                m.sort_by(|a, b| a.0.cmp(&b.0));
                V::Obj(m)
            }
            o => o.clone(),
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            V::Arr(a) => 1 + a.iter().map(|x| x.depth()).max().unwrap_or(0),
            V::Obj(m) => 1 + m.iter().map(|x| x.1.depth()).max().unwrap_or(0),
            _ => 0,
        }
    }
    pub fn nodes(&self) -> usize {
        match self {
            V::Arr(a) => 1 + a.iter().map(|x| x.nodes()).sum::<usize>(),
            V::Obj(m) => 1 + m.iter().map(|x| x.1.nodes()).sum::<usize>(),
            _ => 1,
        }
    }
    pub fn has_duplicates(&self) -> bool {
        match self {
            V::Arr(a) => a.iter().any(|x| x.has_duplicates()),
            V::Obj(m) => {
                let mut ks: Vec<&String> = m.iter().map(|x| &x.0).collect();
                ks.sort();
                ks.windows(2).any(|w| w[0] == w[1]) || m.iter().any(|x| x.1.has_duplicates())
            }
            _ => false,
        }
    }
    pub fn nulled(&self) -> V {
        match self {
            V::Num(n) if !n.is_finite() => V::Null,
            V::Arr(a) => V::Arr(a.iter().map(|x| x.nulled()).collect()),
            V::Obj(m) => V::Obj(m.iter().map(|(k, v)| (k.clone(), v.nulled())).collect()),
            o => o.clone(),
        }
    }

    pub fn to_json(&self) -> Json {
        match self {
            V::Null => Json::Null,
            V::Bool(b) => Json::Boolean(*b),
            V::Num(n) => Json::Number(*n),
            V::Str(s) => Json::String(s.clone()),
            V::Arr(a) => Json::Array(a.iter().map(|x| x.to_json()).collect()),
            V::Obj(m) => {
                let mut h: HashMap<String, (Json, LinkedList<Json>)> = HashMap::new();
                for (k, v) in m {
                    let v = v.to_json();
                    match h.remove(k) {
                        Some((newest, mut older)) => {
                            older.push_front(newest);
                            h.insert(k.clone(), (v, older));
                        }
                        None => {
                            h.insert(k.clone(), (v, LinkedList::new()));
                        }
                    }
                }
                Json::Object(h)
            }
        }
    }

    /// Canonical.
    pub fn of_json(j: &Json) -> V {
        match j {
            Json::Null => V::Null,
            Json::Boolean(b) => V::Bool(*b),
            Json::Number(n) => V::Num(*n),
            Json::String(s) => V::Str(s.clone()),
            Json::Array(a) => V::Arr(a.iter().map(V::of_json).collect()),
            Json::Object(h) => {
                let mut ks: Vec<&String> = h.keys().collect();
                ks.sort();
                let mut m = Vec::new();
                for k in ks {
                    let (newest, older) = &h[k];
                    for o in older.iter().rev() {
                        m.push((k.clone(), V::of_json(o)));
                    }
                    m.push((k.clone(), V::of_json(newest)));
                }
                V::Obj(m)
            }
        }
    }
}

/// Does `j` hold exactly this value?
pub fn is(j: &Json, v: &V) -> bool {
    V::of_json(j) == v.canon()
}

pub fn expect(what: &str, j: &Json, v: &V) -> Result<(), String> {
    let got = V::of_json(j);
    let want = v.canon();
    if got == want {
        Ok(())
    } else {
        Err(format!("{}:\n  got      {}\n  expected {}", what, show(&got), show(&want)))
    }
}

pub fn show(v: &V) -> String {
    pbt::json_out::clip(&render_plain(v), 4000)
}

/// For humans (non-finite numbers show).
fn render_plain(v: &V) -> String {
    match v {
        V::Num(n) if !n.is_finite() => format!("{}", n),
        V::Num(n) => {
            let s = format!("{:?}", n);
            s.strip_suffix(".0").unwrap_or(&s).to_string()
        }
        V::Str(s) => escape_ref(s),
        V::Arr(a) => format!("[{}]", a.iter().map(render_plain).collect::<Vec<_>>().join(", ")),
        V::Obj(m) => format!(
            "{{{}}}",
            m.iter().map(|(k, v)| format!("{}: {}", escape_ref(k), render_plain(v))).collect::<Vec<_>>().join(", ")
        ),
        o => render_ref(o),
    }
}

// ---------------------------------------------------------------------------------------------
// the reference writer

pub fn escape_ref(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '/' => o += "\\/",
            '\u{8}' => o += "\\b",
            '\u{c}' => o += "\\f",
            '\n' => o += "\\n",
            '\r' => o += "\\r",
            '\t' => o += "\\t",
            ' '..='~' => o.push(c),
            c => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    o += &format!("\\u{:04X}", u);
                }
            }
        }
    }
    o.push('"');
    o
}

/// Plain decimal notation, shortest digits that read back as the same double.
pub fn number_ref(n: f64) -> String {
    if !n.is_finite() {
        return "null".to_string();
    }
    // shortest digits and exponent from the scientific form, laid out by hand
    let sci = format!("{:e}", n);
    let (mant, exp) = sci.split_once('e').unwrap();
    let exp: i32 = exp.parse().unwrap();
    let (sign, mant) = match mant.strip_prefix('-') {
        Some(m) => ("-", m),
        None => ("", mant),
    };
    let digits: String = mant.chars().filter(|c| *c != '.').collect();
    let point = 1 + exp; // digits before the point
    let body = if point <= 0 {
        format!("0.{}{}", "0".repeat(-point as usize), digits)
    } else if point as usize >= digits.len() {
        format!("{}{}", digits, "0".repeat(point as usize - digits.len()))
    } else {
        format!("{}.{}", &digits[..point as usize], &digits[point as usize..])
    };
    let body = if digits == "0" { "0".to_string() } else { body };
    format!("{}{}", sign, body)
}

pub fn render_ref(v: &V) -> String {
    let mut o = String::new();
    render_into(&v.canon(), &mut o);
    o
}

fn render_into(v: &V, o: &mut String) {
    match v {
        V::Null => *o += "null",
        V::Bool(true) => *o += "true",
        V::Bool(false) => *o += "false",
        V::Num(n) => *o += &number_ref(*n),
        V::Str(s) => *o += &escape_ref(s),
        V::Arr(a) => {
            o.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    *o += ", ";
                }
                render_into(x, o);
            }
            o.push(']');
        }
        V::Obj(m) => {
            o.push('{');
            for (i, (k, x)) in m.iter().enumerate() {
                if i > 0 {
                    *o += ", ";
                }
                *o += &escape_ref(k);
                *o += ": ";
                render_into(x, o);
            }
            o.push('}');
        }
    }
}

// ---------------------------------------------------------------------------------------------
// the reference reader: RFC 8259, no extensions; a number must fit a double

pub fn parse_ref(text: &str) -> Result<V, &'static str> {
    let cs: Vec<char> = text.chars().collect();
    let mut p = P { cs: &cs, i: 0 };
    p.ws();
    let v = p.value()?;
    p.ws();
    if p.i != cs.len() {
        return Err("trailing characters");
    }
    Ok(v)
}

struct P<'a> {
    cs: &'a [char],
    i: usize,
}

impl<'a> P<'a> {
    fn peek(&self) -> Option<char> {
        self.cs.get(self.i).copied()
    }
    fn ws(&mut self) {
        while matches!(self.peek(), Some(' ') | Some('\t') | Some('\n') | Some('\r')) {
            self.i += 1;
        }
    }
    fn eat(&mut self, c: char) -> bool {
        if self.peek() == Some(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn word(&mut self, w: &str, v: V) -> Result<V, &'static str> {
        for c in w.chars() {
            if !self.eat(c) {
                return Err("bad literal");
            }
        }
        Ok(v)
    }
    fn value(&mut self) -> Result<V, &'static str> {
        match self.peek() {
            Some('n') => self.word("null", V::Null),
            Some('t') => self.word("true", V::Bool(true)),
            Some('f') => self.word("false", V::Bool(false)),
            Some('"') => Ok(V::Str(self.string()?)),
            Some('[') => {
                self.i += 1;
                let mut a = Vec::new();
                self.ws();
                if self.eat(']') {
                    return Ok(V::Arr(a));
                }
                loop {
                    self.ws();
                    a.push(self.value()?);
                    self.ws();
                    if self.eat(']') {
                        return Ok(V::Arr(a));
                    }
                    if !self.eat(',') {
                        return Err("expected , or ]");
                    }
                }
            }
            Some('{') => {
                self.i += 1;
                let mut m = Vec::new();
                self.ws();
                if self.eat('}') {
                    return Ok(V::Obj(m));
                }
                loop {
                    self.ws();
                    if self.peek() != Some('"') {
                        return Err("expected a key");
                    }
                    let k = self.string()?;
                    self.ws();
                    if !self.eat(':') {
                        return Err("expected :");
                    }
                    self.ws();
                    m.push((k, self.value()?));
                    self.ws();
                    if self.eat('}') {
                        return Ok(V::Obj(m));
                    }
                    if !self.eat(',') {
                        return Err("expected , or }");
                    }
                }
            }
            Some('-') | Some('0'..='9') => self.number(),
            _ => Err("expected a value"),
        }
    }
    fn digits(&mut self) -> Result<(), &'static str> {
        if !matches!(self.peek(), Some('0'..='9')) {
            return Err("expected a digit");
        }
        while matches!(self.peek(), Some('0'..='9')) {
            self.i += 1;
        }
        Ok(())
    }
    fn number(&mut self) -> Result<V, &'static str> {
        let start = self.i;
        self.eat('-');
        if !self.eat('0') {
            self.digits()?;
        }
        if self.eat('.') {
            self.digits()?;
        }
        if matches!(self.peek(), Some('e') | Some('E')) {
            self.i += 1;
            if matches!(self.peek(), Some('+') | Some('-')) {
                self.i += 1;
            }
            self.digits()?;
        }
        let t: String = self.cs[start..self.i].iter().collect();
        let f: f64 = t.parse().map_err(|_| "not a number")?;
        if f.is_finite() {
            Ok(V::Num(f))
        } else {
            Err("number too large")
        }
    }
    fn hex4(&mut self) -> Result<u16, &'static str> {
        let mut u = 0u16;
        for _ in 0..4 {
            let d = self.peek().and_then(|c| c.to_digit(16)).ok_or("expected a hex digit")?;
            u = u << 4 | d as u16;
            self.i += 1;
        }
        Ok(u)
    }
    fn string(&mut self) -> Result<String, &'static str> {
        self.i += 1;
        let mut s = String::new();
        loop {
            let c = self.peek().ok_or("unterminated string")?;
            self.i += 1;
            match c {
                '"' => return Ok(s),
                '\\' => {
                    let e = self.peek().ok_or("unterminated escape")?;
                    self.i += 1;
                    match e {
                        '"' | '\\' | '/' => s.push(e),
                        'b' => s.push('\u{8}'),
                        'f' => s.push('\u{c}'),
                        'n' => s.push('\n'),
                        'r' => s.push('\r'),
                        't' => s.push('\t'),
                        'u' => {
                            let u = self.hex4()?;
                            let mut units = vec![u];
                            if (0xD800..0xDC00).contains(&u) {
                                if !(self.eat('\\') && self.eat('u')) {
                                    return Err("lone surrogate");
                                }
                                units.push(self.hex4()?);
                            }
                            match char::decode_utf16(units).collect::<Result<Vec<_>, _>>() {
                                Ok(cs) => s.extend(cs),
                                Err(_) => return Err("lone surrogate"),
                            }
                        }
                        _ => return Err("bad escape"),
                    }
                }
                c if (c as u32) < 0x20 => return Err("control character in a string"),
                c => s.push(c),
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// paths and edits

#[derive(Clone, Debug, PartialEq)]
pub enum Seg {
    Key(String),
    Index(usize),
}

impl Seg {
    pub fn key(&self) -> &String {
        match self {
            Seg::Key(k) => k,
            Seg::Index(_) => panic!("an index"),
        }
    }
    pub fn index(&self) -> usize {
        match self {
            Seg::Index(i) => *i,
            Seg::Key(_) => panic!("a key"),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum E {
    MissingKey,
    IndexOutOfRange,
    InvalidValueKind,
    PathSyntaxError,
    ConvertError,
    /// one of the parse errors
    Parse,
}

pub fn kind_of(e: &json::Error) -> E {
    use json::ErrorKind::*;
    match e.kind {
        MissingKey => E::MissingKey,
        IndexOutOfRange => E::IndexOutOfRange,
        InvalidValueKind => E::InvalidValueKind,
        PathSyntaxError => E::PathSyntaxError,
        ConvertError => E::ConvertError,
        InvalidJson | ParseObjectError | ParseArrayError | ParseStringError | ParseNumberError | ParseBooleanError
        | ParseNullError => E::Parse,
    }
}

pub fn to_path(segs: &[Seg]) -> json::Path {
    let first = |s: &Seg| match s {
        Seg::Key(k) => json::Path::new(k.as_str()),
        Seg::Index(i) => json::Path::new(*i),
    };
    let mut p = first(&segs[0]);
    for s in &segs[1..] {
        match s {
            Seg::Key(k) => p.append(k.as_str()),
            Seg::Index(i) => p.append(*i),
        };
    }
    p
}

pub fn show_segs(segs: &[Seg]) -> String {
    segs.iter()
        .map(|s| match s {
            Seg::Key(k) => escape_ref(k),
            Seg::Index(i) => format!("#{}", i),
        })
        .collect::<Vec<_>>()
        .join(" / ")
}

impl V {
    pub fn child(&self, s: &Seg) -> Result<&V, E> {
        match (s, self) {
            (Seg::Key(k), V::Obj(m)) => m.iter().rev().find(|x| x.0 == *k).map(|x| &x.1).ok_or(E::MissingKey),
            (Seg::Index(i), V::Arr(a)) => a.get(*i).ok_or(E::IndexOutOfRange),
            _ => Err(E::InvalidValueKind),
        }
    }
    pub fn child_mut(&mut self, s: &Seg) -> Result<&mut V, E> {
        match (s, self) {
            (Seg::Key(k), V::Obj(m)) => {
                m.iter_mut().rev().find(|x| x.0 == *k).map(|x| &mut x.1).ok_or(E::MissingKey)
            }
            (Seg::Index(i), V::Arr(a)) => a.get_mut(*i).ok_or(E::IndexOutOfRange),
            _ => Err(E::InvalidValueKind),
        }
    }
    pub fn at(&self, p: &[Seg]) -> Result<&V, E> {
        let mut v = self;
        for s in p {
            v = v.child(s)?;
        }
        Ok(v)
    }
    pub fn at_mut(&mut self, p: &[Seg]) -> Result<&mut V, E> {
        let mut v = self;
        for s in p {
            v = v.child_mut(s)?;
        }
        Ok(v)
    }
    pub fn insert(&mut self, k: &str, v: V) -> Result<(), E> {
        match self {
            V::Obj(m) => {
                m.retain(|x| x.0 != k);
                m.push((k.to_string(), v));
                Ok(())
            }
            _ => Err(E::InvalidValueKind),
        }
    }
    pub fn append(&mut self, k: &str, v: V) -> Result<(), E> {
        match self {
            V::Obj(m) => {
                m.push((k.to_string(), v));
                Ok(())
            }
            _ => Err(E::InvalidValueKind),
        }
    }
    pub fn delete(&mut self, k: &str) -> Result<(), E> {
        match self {
            V::Obj(m) => {
                m.retain(|x| x.0 != k);
                Ok(())
            }
            _ => Err(E::InvalidValueKind),
        }
    }
    pub fn push(&mut self, v: V) -> Result<(), E> {
        match self {
            V::Arr(a) => {
                a.push(v);
                Ok(())
            }
            _ => Err(E::InvalidValueKind),
        }
    }
    pub fn replace(&mut self, i: usize, v: V) -> Result<(), E> {
        match self {
            V::Arr(a) if i < a.len() => {
                a[i] = v;
                Ok(())
            }
            V::Arr(_) => Err(E::IndexOutOfRange),
            _ => Err(E::InvalidValueKind),
        }
    }
    pub fn remove(&mut self, i: usize) -> Result<(), E> {
        match self {
            V::Arr(a) if i < a.len() => {
                a.remove(i);
                Ok(())
            }
            V::Arr(_) => Err(E::IndexOutOfRange),
            _ => Err(E::InvalidValueKind),
        }
    }
    /// all values of a key, oldest first
    pub fn merged(&self, k: &str) -> Result<Vec<V>, E> {
        match self {
            V::Obj(m) => {
                let vs: Vec<V> = m.iter().filter(|x| x.0 == k).map(|x| x.1.clone()).collect();
                if vs.is_empty() {
                    Err(E::MissingKey)
                } else {
                    Ok(vs)
                }
            }
            _ => Err(E::InvalidValueKind),
        }
    }
    /// Put `v` at `p`, making every container the path needs.
    pub fn set(&mut self, p: &[Seg], v: V) {
        if p.is_empty() {
            *self = v;
            return;
        }
        if self.child(&p[0]).is_ok() {
            if p.len() == 1 {
                if let (Seg::Key(k), V::Obj(m)) = (&p[0], &mut *self) {
                    // setting a key replaces all its values
                    m.retain(|x| x.0 != *k);
                    m.push((k.clone(), v));
                    return;
                }
            }
            return self.child_mut(&p[0]).unwrap().set(&p[1..], v);
        }
        match &p[0] {
            Seg::Key(k) => {
                if !matches!(self, V::Obj(_)) {
                    *self = V::Obj(Vec::new());
                }
                if let V::Obj(m) = self {
                    m.push((k.clone(), V::Null));
                }
            }
            Seg::Index(i) => {
                if !matches!(self, V::Arr(_)) {
                    *self = V::Arr(Vec::new());
                }
                if let V::Arr(a) = self {
                    while a.len() <= *i {
                        a.push(V::Null);
                    }
                }
            }
        }
        self.child_mut(&p[0]).unwrap().set(&p[1..], v)
    }
    /// Take out what is at `p`: for a key all its values go, the newest is returned.
    pub fn del(&mut self, p: &[Seg]) -> Result<V, E> {
        let holder = self.at_mut(&p[..p.len() - 1])?;
        let out = holder.child(&p[p.len() - 1])?.clone();
        match (&p[p.len() - 1], holder) {
            (Seg::Key(k), V::Obj(m)) => m.retain(|x| x.0 != *k),
            (Seg::Index(i), V::Arr(a)) => {
                a.remove(*i);
            }
            _ => unreachable!(),
        }
        Ok(out)
    }
}
