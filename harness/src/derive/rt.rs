//! What the generated programs use.

use crate::checks::types::{damage, kinds_of, Key, Typed, CONVERT, D, MISSING};
use crate::gen;
use crate::model::*;
use json::{FromJson, Json, ToJson};
use pbt::run::{run_suite, SuiteReport};
use pbt::{Cx, Kind, RandomFn, Src, Suite, Verdict};
use std::cell::Cell;
use std::io::Write;

pub struct Entry {
    pub name: &'static str,
    pub enc: Option<RandomFn>,
    pub dec: Option<RandomFn>,
}

/// A structure that can be encoded, with the value that must come out.
pub trait Enc: ToJson {
    fn gen(s: &mut Src) -> Self;
    fn v(&self) -> V;
}

/// (key, name, read from a member)
pub trait Fields {
    fn fields() -> &'static [(&'static str, &'static str, bool)];
}

thread_local!(static DEPTH: Cell<u32> = Cell::new(0));

pub struct Deeper;
pub fn deeper() -> Deeper {
    DEPTH.with(|d| d.set(d.get() + 1));
    Deeper
}
impl Drop for Deeper {
    fn drop(&mut self) {
        DEPTH.with(|d| d.set(d.get() - 1));
    }
}

/// A collection of the structure itself: empty below some depth.
pub fn rec<T: Typed + Default>(s: &mut Src) -> T {
    if DEPTH.with(|d| d.get()) > 2 || s.chance(1, 2) {
        T::default()
    } else {
        T::gen(s)
    }
}

/// Collects what reading the fields must give.
pub struct Reader {
    no: u8,
    any: bool,
}
pub enum End {
    No(u8),
    Any,
}
impl End {
    pub fn into_d<T>(self) -> D<T> {
        match self {
            End::No(k) => D::No(k),
            End::Any => D::Any,
        }
    }
}
impl Reader {
    pub fn new() -> Reader {
        Reader { no: 0, any: false }
    }
    pub fn field<T: Typed>(&mut self, m: &[(String, V)], key: &str) -> Option<T> {
        match m.iter().rev().find(|x| x.0 == key) {
            None => {
                self.no |= MISSING;
                None
            }
            Some((_, v)) => match T::dec(v) {
                D::Is(x) => Some(x),
                D::No(k) => {
                    self.no |= k;
                    None
                }
                D::Any => {
                    self.any = true;
                    None
                }
            },
        }
    }
    pub fn end(&self) -> Option<End> {
        if self.no != 0 {
            Some(End::No(self.no))
        } else if self.any {
            Some(End::Any)
        } else {
            None
        }
    }
}

// types with const parameters and lifetimes

#[derive(Clone, Copy, PartialEq, Debug, Default)]
pub struct Tag<const N: usize>;
impl<const N: usize> ToJson for Tag<N> {
    fn to_json(&self) -> Json {
        Json::Number(N as f64)
    }
}
impl<const N: usize> FromJson for Tag<N> {
    fn from_json(j: &Json) -> Result<Self, json::Error> {
        match j {
            Json::Number(n) if *n == N as f64 => Ok(Tag),
            _ => Err(json::Error::new(json::ErrorKind::ConvertError, "not the tag".to_string())),
        }
    }
}
impl<const N: usize> Typed for Tag<N> {
    fn gen(_: &mut Src) -> Self {
        Tag
    }
    fn v(&self) -> V {
        V::Num(N as f64)
    }
    fn dec(v: &V) -> D<Self> {
        match v {
            V::Num(n) if *n == N as f64 => D::Is(Tag),
            _ => D::No(CONVERT),
        }
    }
    fn same(&self, _: &Self) -> bool {
        true
    }
    fn name() -> String {
        format!("Tag<{}>", N)
    }
}

pub struct Brw<'a, T>(pub &'a T);
impl<'a, T: ToJson> ToJson for Brw<'a, T> {
    fn to_json(&self) -> Json {
        self.0.to_json()
    }
}

/// Types that no one but the user can make readable: references to what is kept for good, trait objects.
#[derive(Debug)]
pub struct Kept(pub i32);
pub trait Say: std::fmt::Debug {
    fn said(&self) -> i32;
}
impl Say for Kept {
    fn said(&self) -> i32 {
        self.0
    }
}
macro_rules! kept {
    ($($t:ty, $x:ident => $make:expr;)*) => {$(
        impl<'k> ToJson for $t {
            fn to_json(&self) -> Json {
                Json::Number(self.said() as f64)
            }
        }
        impl<'k> FromJson for $t {
            fn from_json(j: &Json) -> Result<Self, json::Error> {
                let $x = Kept(i32::from_json(j)?);
                Ok($make)
            }
        }
        impl<'k> Typed for $t {
            fn gen(s: &mut Src) -> Self {
                let $x = Kept(<i32 as Typed>::gen(s));
                $make
            }
            fn v(&self) -> V {
                V::Num(self.said() as f64)
            }
            fn dec(v: &V) -> D<Self> {
                match <i32 as Typed>::dec(v) {
                    D::Is(x) => {
                        let $x = Kept(x);
                        D::Is($make)
                    }
                    D::No(k) => D::No(k),
                    D::Any => D::Any,
                }
            }
            fn same(&self, o: &Self) -> bool {
                self.said() == o.said()
            }
            fn name() -> String {
                stringify!($t).to_string()
            }
        }
    )*};
}
kept! {
    &'k Kept, x => keep(x);
    &'k mut Kept, x => Box::leak(Box::new(x));
    Box<dyn Say>, x => Box::new(x);
    Box<dyn Say + Send + Sync>, x => Box::new(x);
    &'k dyn Say, x => keep(x);
    &'k mut (dyn Say + 'static), x => Box::leak(Box::new(x));
    &'k (dyn Say + Send), x => keep(x);
    &'k &'k Kept, x => keep(keep(x));
    &'k mut &'k mut Kept, x => Box::leak(Box::new(Box::leak(Box::new(x))));
}

pub unsafe extern "C" fn foreign(x: i32) -> i32 {
    x
}

fn keep<T>(x: T) -> &'static T {
    Box::leak(Box::new(x))
}
pub fn text(s: &mut Src) -> &'static str {
    keep(gen::string(s))
}
pub fn text_v(t: &str) -> V {
    V::s(t)
}
pub fn leak<T: Typed>(s: &mut Src) -> &'static T {
    keep(T::gen(s))
}
pub fn slice<T: Typed>(s: &mut Src) -> &'static [T] {
    keep(s.vec(3, 8, T::gen))
}
pub fn slice_v<T: Typed>(x: &[T]) -> V {
    V::Arr(x.iter().map(|x| x.v()).collect())
}
pub fn pairs<T: Typed>(s: &mut Src) -> &'static [(String, T)] {
    keep(s.vec(3, 8, |s| (<String as Key>::gen(s), T::gen(s))))
}
pub fn pairs_v<T: Typed>(x: &[(String, T)]) -> V {
    V::Obj(x.iter().map(|(k, x)| (k.clone(), x.v())).collect())
}
pub fn texts(s: &mut Src) -> Vec<&'static str> {
    s.vec(3, 8, text)
}
pub fn texts_v(x: &[&str]) -> V {
    V::Arr(x.iter().map(|t| V::s(t)).collect())
}
pub fn maybe(s: &mut Src) -> Option<&'static str> {
    if s.flag() {
        Some(text(s))
    } else {
        None
    }
}
pub fn maybe_v(x: &Option<&str>) -> V {
    x.map_or(V::Null, V::s)
}
pub fn brw<T: Typed>(s: &mut Src) -> Brw<'static, T> {
    Brw(keep(T::gen(s)))
}

// ---------------------------------------------------------------------------------------------

pub fn encode_case<T: Enc>(s: &mut Src, cx: &mut Cx) -> Verdict {
    let x = T::gen(s);
    let v = x.v();
    let n = match &v {
        V::Obj(m) => m.len(),
        _ => 0,
    };
    cx.label_if(v.has_duplicates(), "repeated keys");
    cx.label_if(n > 10, "more than ten members");
    cx.label_if(n == 0, "no member");
    cx.case(n > 0, || show(&v));
    expect("to_json", &x.to_json(), &v)?;
    expect("to_json again", &x.to_json(), &v)?;
    let text = json::encode(&Ref(&x));
    if text != render_ref(&v) {
        return Err(format!("encoded as {:?}, expected {:?}", text, render_ref(&v)));
    }
    Ok(())
}

struct Ref<'a, T>(&'a T);
impl<'a, T: ToJson> ToJson for Ref<'a, T> {
    fn to_json(&self) -> Json {
        self.0.to_json()
    }
}

pub fn decode_case<T: Typed + Fields>(s: &mut Src, cx: &mut Cx) -> Verdict {
    let fs = T::fields();
    let x = T::gen(s);
    let mut v = x.v();
    let untouched;
    match s.below(12) {
        0 => {
            // the text of the value itself
            untouched = true;
            cx.label("as encoded");
        }
        1 => {
            untouched = false;
            v = match s.below(8) {
                0 => V::Null,
                1 => V::Arr(vec![v]),
                2 => V::Obj(vec![]),
                3 => V::Str(render_ref(&v)),
                4 => V::Num(1.0),
                5 => V::Arr(vec![]),
                6 => V::Bool(true),
                _ => gen::value(s, gen::SMALL),
            };
            cx.label("some other value");
        }
        _ => {
            untouched = false;
            if let V::Obj(m) = &mut v {
                let steps = s.range(1, 4);
                for _ in 0..steps {
                    step(s, cx, m, fs, &T::gen);
                }
            }
        }
    }
    let want = T::dec(&v);
    match &want {
        D::Is(_) => cx.label("reads"),
        D::No(k) => {
            cx.label_if(k & MISSING != 0, "missing key");
            cx.label_if(k & CONVERT != 0, "wrong shape");
        }
        D::Any => cx.label("not promised"),
    }
    cx.case(!fs.is_empty() && !matches!(want, D::Any), || show(&v));
    let j = v.to_json();
    let text = render_ref(&v);
    for (how, got) in [("from_json", T::from_json(&j)), ("convert", j.convert::<T>()), ("decode", json::decode::<T>(&text))] {
        match (&want, got) {
            (D::Any, _) => (),
            // `y` on the right: it is the one whose ignored fields must be the default
            (D::Is(x), Ok(y)) if x.same(&y) => (),
            (D::No(k), Err(e)) if kinds_of(&e) & k != 0 => {
                // what is missing, or found instead, is named
                let named = match &v {
                    V::Obj(m) => !m.is_empty() || fs.iter().any(|f| f.2 && (e.msg.contains(f.0) || e.msg.contains(format!("{:?}", f.0).trim_matches('"')))),
                    o => e.msg.contains(o.kind()),
                };
                if !named {
                    return Err(format!("{} of {} says only: {}", how, show(&v), e));
                }
            }
            (D::Is(x), o) => return Err(format!("{} of {} is {:?}, expected {:?}", how, show(&v), o, x)),
            (D::No(k), o) => {
                let kind = ["", "a ConvertError", "a MissingKey error", "a ConvertError or MissingKey error"][*k as usize & 3];
                return Err(format!("{} of {} is {:?}, expected {}", how, show(&v), o, kind));
            }
        }
    }
    expect("the value read", &j, &v)?;
    if untouched && !v.has_duplicates() {
        if let D::Is(_) = want {
            match json::decode::<T>(&json::encode(&Ref(&x))) {
                Ok(y) if y.v().canon() == v.canon() => cx.label("round trip"),
                o => return Err(format!("{:?} encoded and decoded is {:?}", x, o)),
            }
        }
    }
    Ok(())
}

fn step<T: Typed>(s: &mut Src, cx: &mut Cx, m: &mut Vec<(String, V)>, fs: &[(&str, &str, bool)], gen: &dyn Fn(&mut Src) -> T) {
    match s.below(7) {
        0 => {
            // another order
            cx.label("another order");
            for i in (1..m.len()).rev() {
                let j = s.below(i as u64 + 1) as usize;
                m.swap(i, j);
            }
        }
        1 => {
            // members of no field
            cx.label("surplus members");
            let n = s.range(1, 4);
            for _ in 0..n {
                let k = stray(s, fs);
                let v = gen::value(s, gen::SMALL);
                let at = s.below(m.len() as u64 + 1) as usize;
                m.insert(at, (k, v));
            }
        }
        2 | 3 => {
            // older or newer values of a key
            if m.is_empty() {
                return;
            }
            cx.label("repeated members");
            let n = s.range(1, 3);
            for _ in 0..n {
                let i = s.below(m.len() as u64) as usize;
                let k = m[i].0.clone();
                let v = match s.below(3) {
                    0 => gen::value(s, gen::SMALL),
                    _ => match gen(s).v() {
                        V::Obj(o) => o.into_iter().find(|x| x.0 == k).map_or(V::Null, |x| x.1),
                        o => o,
                    },
                };
                let at = if s.chance(2, 3) { s.below(i as u64 + 1) as usize } else { s.below(m.len() as u64 + 1) as usize };
                m.insert(at, (k, v));
            }
        }
        4 => {
            if m.is_empty() {
                return;
            }
            cx.label("member left out");
            let i = s.below(m.len() as u64) as usize;
            let k = m[i].0.clone();
            if s.chance(1, 4) {
                // under another name
                m[i].0 = stray(s, fs);
            } else {
                m.retain(|x| x.0 != k);
            }
        }
        _ => {
            if m.is_empty() {
                return;
            }
            cx.label("member damaged");
            let i = s.below(m.len() as u64) as usize;
            let other = match s.below(7) {
                0 => V::Null,
                1 => V::Bool(true),
                2 => V::Num(gen::number(s)),
                3 => V::Str(gen::string(s)),
                4 => V::Arr(vec![]),
                5 => V::Obj(vec![]),
                _ => gen::value(s, gen::SMALL),
            };
            let n = m[i].1.nodes() as u64;
            let at = s.below(n) as usize;
            damage(&mut m[i].1, at, &mut 0, &other, s);
        }
    }
}

/// Keys near those of the fields.
fn stray(s: &mut Src, fs: &[(&str, &str, bool)]) -> String {
    if fs.is_empty() || s.chance(1, 4) {
        return gen::key(s);
    }
    let f = s.pick(fs);
    match s.below(7) {
        0 | 1 => f.1.to_string(),
        2 => format!("r#{}", f.1),
        3 => format!("{} ", f.0),
        4 => f.0.to_uppercase(),
        5 => f.0.chars().skip(1).collect(),
        _ => f.0.to_string(),
    }
}

// ---------------------------------------------------------------------------------------------
// the program

pub fn quote_line(t: &str) -> String {
    t.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t")
}
pub fn unquote_line(t: &str) -> String {
    let mut o = String::new();
    let mut cs = t.chars();
    while let Some(c) = cs.next() {
        if c != '\\' {
            o.push(c);
            continue;
        }
        match cs.next() {
            Some('n') => o.push('\n'),
            Some('t') => o.push('\t'),
            Some(c) => o.push(c),
            None => (),
        }
    }
    o
}

// the macros

pub enum Want {
    K,
    I,
    Key(&'static str),
    Index(usize),
}

/// A path of that shape, and a document in which it mostly names something.
pub fn shaped(s: &mut Src, wants: &[Want]) -> (V, Vec<Seg>) {
    let p: Vec<Seg> = wants
        .iter()
        .map(|w| match w {
            Want::K => Seg::Key(gen::key(s)),
            Want::I => Seg::Index(s.below(5) as usize),
            Want::Key(k) => Seg::Key(k.to_string()),
            Want::Index(i) => Seg::Index(*i),
        })
        .collect();
    let mut v = if s.flag() { gen::scalar_value(s) } else { gen::value(s, gen::SMALL) };
    for seg in p.iter().rev() {
        if s.chance(1, 4 * wants.len() as u64) {
            v = gen::value(s, gen::SMALL);
            continue;
        }
        v = match seg {
            Seg::Key(k) => {
                let mut m = Vec::new();
                for _ in 0..s.below(3) {
                    let x = if s.chance(1, 3) { k.clone() } else { gen::key(s) };
                    m.push((x, gen::scalar_value(s)));
                }
                m.push((k.clone(), v));
                for _ in 0..s.below(2) {
                    let x = gen::key(s);
                    if x != *k {
                        m.push((x, gen::scalar_value(s)));
                    }
                }
                V::Obj(m)
            }
            Seg::Index(i) => {
                let mut a: Vec<V> = (0..*i).map(|_| gen::scalar_value(s)).collect();
                if s.chance(1, 12) {
                    a.pop();
                }
                a.push(v);
                for _ in 0..s.below(2) {
                    a.push(gen::scalar_value(s));
                }
                V::Arr(a)
            }
        };
    }
    (v, p)
}

pub fn refused(want: &Result<V, E>, e: &json::Error) -> Verdict {
    match want {
        Err(w) if kind_of(e) == *w => Ok(()),
        w => Err(format!("error {}, expected {:?}", e, w)),
    }
}

pub fn judge(what: &str, got: Result<V, json::Error>, want: &Result<V, E>) -> Verdict {
    match (&got, want) {
        (Ok(g), Ok(w)) if *g == w.canon() => Ok(()),
        (Err(e), Err(w)) if kind_of(e) == *w => Ok(()),
        _ => Err(format!("{}: {:?}, expected {:?}", what, got, want)),
    }
}

pub fn in_order(calls: &[usize], n: usize) -> Verdict {
    if calls.iter().copied().eq(0..n) {
        Ok(())
    } else {
        Err(format!("the arguments are evaluated in the order {:?}", calls))
    }
}

pub fn each_once(calls: &[usize], n: usize) -> Verdict {
    let mut c = calls.to_vec();
    c.sort();
    in_order(&c, n).map_err(|_| format!("of {} arguments, {:?} are evaluated", n, calls))
}

/// `run e|d seed count file` or `one unit entry e|d choices`
pub fn main(units: Vec<(u64, Vec<Entry>)>) {
    let args: Vec<String> = std::env::args().skip(1).collect();
    pbt::quiet_panics();
    let pick = |e: &Entry, m: &str| if m == "e" { e.enc } else { e.dec };
    match args[0].as_str() {
        "run" => {
            let (mode, seed, count) = (&args[1], args[2].parse::<u64>().unwrap(), args[3].parse::<u64>().unwrap());
            let mut out = std::fs::File::create(&args[4]).unwrap();
            for (u, es) in &units {
                for (i, e) in es.iter().enumerate() {
                    let f = match pick(e, mode) {
                        Some(f) => f,
                        None => continue,
                    };
                    let name: &'static str = Box::leak(format!("{}.{}.{}", u, i, mode).into_boxed_str());
                    writeln!(out, "START\t{}\t{}", u, i).unwrap();
                    let suite = Suite { name, kind: Kind::Random { quick: count, thorough: count, f } };
                    let r: SuiteReport = run_suite(&suite, 0, seed, count, 1, None);
                    writeln!(out, "DONE\t{}\t{}\t{}", r.stats.evaluations, r.stats.distinct_nontrivial(), e.name).unwrap();
                    for (l, n) in &r.stats.labels {
                        writeln!(out, "LABEL\t{}\t{}", n, l).unwrap();
                    }
                    for x in r.stats.samples.iter().take(1) {
                        writeln!(out, "SAMPLE\t{}: {}", e.name, quote_line(x)).unwrap();
                    }
                    if let Some(f) = r.failure {
                        let cs: Vec<String> = f.choices.iter().map(|c| c.to_string()).collect();
                        writeln!(out, "FAIL\t{}\t{}\t{}", cs.join(","), quote_line(&format!("{}: {}", e.name, f.msg)), quote_line(&f.desc)).unwrap();
                    }
                }
            }
            writeln!(out, "END").unwrap();
        }
        _ => {
            let e = &units[0].1[args[1].parse::<usize>().unwrap()];
            let f = pick(e, &args[2]).expect("mode");
            let choices: Vec<u64> = args[3].split(',').filter_map(|x| x.parse().ok()).collect();
            let mut cx = Cx { want_desc: true, announce: true, ..Cx::default() };
            match pbt::run_random(f, &mut Src::replay(choices), &mut cx) {
                Ok(()) => std::process::exit(0),
                Err(m) => {
                    println!("FAILS: {}: {}", e.name, m);
                    std::process::exit(1);
                }
            }
        }
    }
}

/// Traits for the bounds of type parameters. None holds for every type, so a
/// bound that gets lost is missed; some have the names of well-known ones.
pub mod named {
    pub trait Sized {}
    pub trait Fn {
        fn call() {}
    }
    pub trait Of<T: ?::core::marker::Sized> {}
    pub trait Two<A, B> {}
    pub trait Num<const N: usize> {}
    pub trait Neg<const N: i32> {}
    pub trait Chr<const C: char> {}
    pub trait Boo<const B: bool> {}
    pub trait Life<'a> {}
    pub trait Out {
        type Item;
        type Text: ?::core::marker::Sized;
    }
    #[allow(non_camel_case_types)]
    pub trait r#type {}
    pub trait Größe {}
    macro_rules! named {
        ($($t:ty),*) => {$(
            impl Sized for $t {}
            impl Fn for $t {}
            impl r#type for $t {}
            impl Größe for $t {}
            impl Of<$t> for $t {}
            impl Of<Vec<$t>> for $t {}
            impl Of<[$t]> for $t {}
            impl Of<[$t; 2]> for $t {}
            impl Of<($t, u8)> for $t {}
            impl Of<($t,)> for $t {}
            impl Of<()> for $t {}
            impl Of<str> for $t {}
            impl Of<*const $t> for $t {}
            impl Of<fn($t) -> Option<$t>> for $t {}
            impl Of<dyn ::std::ops::Fn($t) -> $t> for $t {}
            impl Of<Box<dyn ::std::ops::Fn(&$t) -> &$t + Send>> for $t {}
            impl<'z> Of<&'z $t> for $t {}
            impl<'z> Of<&'z mut [$t]> for $t {}
            impl Two<Vec<Vec<$t>>, $t> for $t {}
            impl Two<$t, fn()> for $t {}
            impl Num<3> for $t {}
            impl Neg<-1> for $t {}
            impl Chr<'>'> for $t {}
            impl Chr<','> for $t {}
            impl Boo<true> for $t {}
            impl<'a> Life<'a> for $t {}
            impl Out for $t {
                type Item = $t;
                type Text = str;
            }
        )*};
    }
    named!(i32, String, bool, f64, Vec<u8>, Option<i64>, u64);
}
