//! C08, C09: Rust values to JSON and back, and what does not fit.

use crate::gen;
use crate::model::*;
use json::{FromJson, Json, ToJson};
use pbt::run::Check;
use pbt::{Cx, Kind, Src, Suite, Verdict};
use std::collections::HashMap;
use std::fmt::Debug;

/// What decoding a value as T must give.
pub enum D<T> {
    Is(T),
    /// an error, of one of these kinds
    No(u8),
    /// not promised (e.g. a fraction as an integer), but no panic
    Any,
}

/// Kinds of errors a decoder may give.
pub const CONVERT: u8 = 1;
pub const MISSING: u8 = 2;

pub fn kinds_of(e: &json::Error) -> u8 {
    match kind_of(e) {
        E::ConvertError => CONVERT,
        E::MissingKey => MISSING,
        _ => 0,
    }
}

pub trait Typed: ToJson + FromJson + Debug + Sized {
    fn gen(s: &mut Src) -> Self;
    /// the JSON value that stands for it
    fn v(&self) -> V;
    fn dec(v: &V) -> D<Self>;
    fn same(&self, o: &Self) -> bool;
    fn name() -> String;
    /// written as null (so that an Option around it could not tell)
    fn nullish(&self) -> bool {
        false
    }
}

macro_rules! ints {
    ( $( $t:ident ),* ) => { $(
        impl Typed for $t {
            fn gen(s: &mut Src) -> $t {
                // what a double holds exactly
                let lo = if ($t::MIN as i128) < -9007199254740992 { -9007199254740992i128 } else { $t::MIN as i128 };
                let hi = if ($t::MAX as u128) > 9007199254740992 { 9007199254740992i128 } else { $t::MAX as i128 };
                match s.below(5) {
                    4 if std::mem::size_of::<$t>() >= 8 => {
                        // large, with trailing zero bits
                        let x = (s.bits() >> 11) as $t;
                        let room = (std::mem::size_of::<$t>() * 8 - 53) as u64 - ($t::MIN != 0) as u64;
                        let x = x << s.below(room + 1);
                        if $t::MIN != 0 && s.flag() { (0 as $t).wrapping_sub(x) } else { x }
                    }
                    0 | 4 => s.below(100) as $t,
                    1 => {
                        let c = [0, 1, lo, hi, lo + 1, hi - 1, 10, 99, hi / 2, lo / 2, 127, 7, (hi - 1).min(4294967296), (hi - 1).min(2147483648), lo.max(-2147483649)];
                        *s.pick(&c) as $t
                    }
                    2 => {
                        let bits = s.below(54);
                        let x = (s.bits() >> (63 - bits.min(63))) as i128;
                        (lo.max(if s.flag() { -x } else { x })).min(hi) as $t
                    }
                    _ => {
                        let span = (hi - lo + 1) as u128;
                        (lo + (s.bits() as u128 % span) as i128) as $t
                    }
                }
            }
            fn v(&self) -> V { V::Num(*self as f64) }
            fn dec(v: &V) -> D<$t> {
                match v {
                    V::Num(n) if n.fract() == 0.0 && *n >= $t::MIN as f64 && {
                        // the largest value may be no double
                        let hi = $t::MAX as f64;
                        if hi as u128 == $t::MAX as u128 && std::mem::size_of::<$t>() < 8 { *n <= hi } else { *n < hi }
                    } => D::Is(*n as $t),
                    V::Num(_) => D::Any,
                    _ => D::No(CONVERT),
                }
            }
            fn same(&self, o: &$t) -> bool { self == o }
            fn name() -> String { stringify!($t).to_string() }
        }
    )* };
}
ints!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);

impl Typed for f64 {
    fn gen(s: &mut Src) -> f64 {
        gen::number(s)
    }
    fn v(&self) -> V {
        V::Num(*self)
    }
    fn dec(v: &V) -> D<f64> {
        match v {
            V::Num(n) => D::Is(*n),
            _ => D::No(CONVERT),
        }
    }
    fn same(&self, o: &f64) -> bool {
        self.to_bits() == o.to_bits()
    }
    fn name() -> String {
        "f64".into()
    }
}

impl Typed for f32 {
    fn gen(s: &mut Src) -> f32 {
        let f = match s.below(3) {
            0 => s.below(100) as f32 / 4.0,
            1 => f32::from_bits(s.bits() as u32),
            _ => *s.pick(&[0.1f32, f32::MAX, f32::MIN, f32::MIN_POSITIVE, f32::from_bits(1), -0.0, 16777216.0, 1e-10, 3.4e38, 0.3]),
        };
        if f.is_finite() {
            f
        } else {
            0.5
        }
    }
    fn v(&self) -> V {
        V::Num(*self as f64)
    }
    fn dec(v: &V) -> D<f32> {
        match v {
            V::Num(n) if (*n as f32) as f64 == *n => D::Is(*n as f32),
            V::Num(_) => D::Any,
            _ => D::No(CONVERT),
        }
    }
    fn same(&self, o: &f32) -> bool {
        self.to_bits() == o.to_bits()
    }
    fn name() -> String {
        "f32".into()
    }
}

impl Typed for bool {
    fn gen(s: &mut Src) -> bool {
        s.flag()
    }
    fn v(&self) -> V {
        V::Bool(*self)
    }
    fn dec(v: &V) -> D<bool> {
        match v {
            V::Bool(b) => D::Is(*b),
            _ => D::No(CONVERT),
        }
    }
    fn same(&self, o: &bool) -> bool {
        self == o
    }
    fn name() -> String {
        "bool".into()
    }
}

impl Typed for String {
    fn gen(s: &mut Src) -> String {
        gen::string(s)
    }
    fn v(&self) -> V {
        V::Str(self.clone())
    }
    fn dec(v: &V) -> D<String> {
        match v {
            V::Str(t) => D::Is(t.clone()),
            _ => D::No(CONVERT),
        }
    }
    fn same(&self, o: &String) -> bool {
        self == o
    }
    fn name() -> String {
        "String".into()
    }
}

impl Typed for Json {
    fn gen(s: &mut Src) -> Json {
        gen::value(s, gen::SMALL).to_json()
    }
    fn v(&self) -> V {
        V::of_json(self)
    }
    fn dec(v: &V) -> D<Json> {
        D::Is(v.to_json())
    }
    fn same(&self, o: &Json) -> bool {
        V::of_json(self) == V::of_json(o)
    }
    fn name() -> String {
        "Json".into()
    }
    fn nullish(&self) -> bool {
        *self == Json::Null
    }
}

impl<T: Typed> Typed for Option<T> {
    fn gen(s: &mut Src) -> Option<T> {
        if s.chance(1, 3) {
            None
        } else {
            // Some(null) and None are one in JSON
            Some(T::gen(s)).filter(|x| !x.nullish())
        }
    }
    fn v(&self) -> V {
        match self {
            Some(x) => x.v(),
            None => V::Null,
        }
    }
    fn dec(v: &V) -> D<Option<T>> {
        match v {
            V::Null => D::Is(None),
            v => match T::dec(v) {
                D::Is(x) => D::Is(Some(x)),
                D::No(k) => D::No(k),
                D::Any => D::Any,
            },
        }
    }
    fn same(&self, o: &Option<T>) -> bool {
        match (self, o) {
            (Some(a), Some(b)) => a.same(b),
            (None, None) => true,
            _ => false,
        }
    }
    fn name() -> String {
        format!("Option<{}>", T::name())
    }
    fn nullish(&self) -> bool {
        self.as_ref().map_or(true, |x| x.nullish())
    }
}

impl<T: Typed> Typed for Vec<T> {
    fn gen(s: &mut Src) -> Vec<T> {
        if s.chance(1, 60) {
            let n = *s.pick(&[17usize, 32, 33, 64, 65, 100, 129, 256, 257]);
            return (0..n).map(|_| T::gen(s)).collect();
        }
        s.vec(3, 12, T::gen)
    }
    fn v(&self) -> V {
        V::Arr(self.iter().map(|x| x.v()).collect())
    }
    fn dec(v: &V) -> D<Vec<T>> {
        match v {
            V::Arr(a) => {
                let mut out = Vec::new();
                let mut any = false;
                let mut no = 0;
                for x in a {
                    match T::dec(x) {
                        D::Is(x) => out.push(x),
                        D::No(k) => no |= k,
                        D::Any => any = true,
                    }
                }
                if no != 0 {
                    D::No(no)
                } else if any {
                    D::Any
                } else {
                    D::Is(out)
                }
            }
            _ => D::No(CONVERT),
        }
    }
    fn same(&self, o: &Vec<T>) -> bool {
        self.len() == o.len() && self.iter().zip(o).all(|(a, b)| a.same(b))
    }
    fn name() -> String {
        format!("Vec<{}>", T::name())
    }
}

/// Keys: how they are written, and read again.
pub trait Key: ToString + std::str::FromStr + std::hash::Hash + Eq + Clone + Debug + Ord {
    fn gen(s: &mut Src) -> Self;
    fn name() -> &'static str;
}
impl Key for String {
    fn gen(s: &mut Src) -> String {
        gen::key(s)
    }
    fn name() -> &'static str {
        "String"
    }
}
impl Key for i32 {
    fn gen(s: &mut Src) -> i32 {
        match s.below(3) {
            0 => s.below(5) as i32,
            1 => -(s.below(5) as i32),
            _ => s.bits() as i32,
        }
    }
    fn name() -> &'static str {
        "i32"
    }
}
impl Key for u64 {
    fn gen(s: &mut Src) -> u64 {
        match s.below(2) {
            0 => s.below(5),
            _ => s.bits(),
        }
    }
    fn name() -> &'static str {
        "u64"
    }
}
impl Key for bool {
    fn gen(s: &mut Src) -> bool {
        s.flag()
    }
    fn name() -> &'static str {
        "bool"
    }
}
impl Key for char {
    fn gen(s: &mut Src) -> char {
        gen::ch(s)
    }
    fn name() -> &'static str {
        "char"
    }
}

/// Members by key, then age: the order between keys is free.
fn by_key<K: Key, T>(xs: Vec<(K, T)>) -> Vec<(K, T)> {
    let mut xs = xs;
    xs.sort_by(|a, b| a.0.cmp(&b.0));
    xs
}

impl<K: Key, T: Typed> Typed for Vec<(K, T)> {
    fn gen(s: &mut Src) -> Vec<(K, T)> {
        let mut out: Vec<(K, T)> = Vec::new();
        let max = if s.chance(1, 40) { 90 } else { 12 };
        while s.more(out.len(), if max > 12 { 60 } else { 3 }, max) {
            let k = if !out.is_empty() && s.chance(1, 3) { out[s.below(out.len() as u64) as usize].0.clone() } else { K::gen(s) };
            let t = T::gen(s);
            out.push((k, t));
        }
        out
    }
    fn v(&self) -> V {
        V::Obj(self.iter().map(|(k, x)| (k.to_string(), x.v())).collect())
    }
    fn dec(v: &V) -> D<Vec<(K, T)>> {
        match v {
            V::Obj(m) => {
                let mut out = Vec::new();
                let mut any = false;
                let mut no = 0;
                for (k, x) in m {
                    match (K::from_str(k), T::dec(x)) {
                        (Ok(k), D::Is(x)) => out.push((k, x)),
                        (Ok(_), D::No(k)) => no |= k,
                        (Ok(_), D::Any) => any = true,
                        (Err(_), D::No(k)) => no |= k | CONVERT,
                        (Err(_), _) => no |= CONVERT,
                    }
                }
                // two spellings of one key ("1", "01"): their order is free
                let mut texts: Vec<(String, String)> = m.iter().filter_map(|(k, _)| K::from_str(k).ok().map(|p| (p.to_string(), k.clone()))).collect();
                texts.sort();
                texts.dedup();
                any |= texts.windows(2).any(|w| w[0].0 == w[1].0);
                if no != 0 {
                    D::No(no)
                } else if any {
                    D::Any
                } else {
                    D::Is(out)
                }
            }
            _ => D::No(CONVERT),
        }
    }
    fn same(&self, o: &Vec<(K, T)>) -> bool {
        let idx = |v: &Vec<(K, T)>| by_key(v.iter().enumerate().map(|(i, x)| (x.0.clone(), i)).collect());
        let (a, b) = (idx(self), idx(o));
        a.len() == b.len() && a.iter().zip(&b).all(|(x, y)| x.0 == y.0 && self[x.1].1.same(&o[y.1].1))
    }
    fn name() -> String {
        format!("Vec<({}, {})>", K::name(), T::name())
    }
}

impl<K: Key, T: Typed> Typed for HashMap<K, T> {
    fn gen(s: &mut Src) -> HashMap<K, T> {
        let n = if s.chance(1, 40) { 80 } else { 12 };
        s.vec(if n > 12 { 50 } else { 3 }, n, |s| (K::gen(s), T::gen(s))).into_iter().collect()
    }
    fn v(&self) -> V {
        let mut m: Vec<(String, V)> = self.iter().map(|(k, x)| (k.to_string(), x.v())).collect();
        m.sort_by(|a, b| a.0.cmp(&b.0));
        V::Obj(m)
    }
    fn dec(v: &V) -> D<HashMap<K, T>> {
        match v {
            V::Obj(m) => {
                // the newest value of a key counts
                let mut newest: HashMap<&String, &V> = HashMap::new();
                for (k, x) in m {
                    newest.insert(k, x);
                }
                let mut out = HashMap::new();
                let mut any = false;
                let mut no = 0;
                for (k, x) in newest {
                    match (K::from_str(k), T::dec(x)) {
                        (Err(_), D::No(k)) => no |= k | CONVERT,
                        (Err(_), _) => no |= CONVERT,
                        (Ok(_), D::No(k)) => no |= k,
                        (Ok(k), D::Is(x)) => any |= out.insert(k, x).is_some(),
                        (Ok(_), D::Any) => any = true,
                    }
                }
                if no != 0 {
                    D::No(no)
                } else if any {
                    D::Any
                } else {
                    D::Is(out)
                }
            }
            _ => D::No(CONVERT),
        }
    }
    fn same(&self, o: &HashMap<K, T>) -> bool {
        self.len() == o.len() && self.iter().all(|(k, x)| o.get(k).map_or(false, |y| x.same(y)))
    }
    fn name() -> String {
        format!("HashMap<{}, {}>", K::name(), T::name())
    }
}

// ---------------------------------------------------------------------------------------------

fn round<T: Typed>(s: &mut Src, cx: &mut Cx) -> Verdict {
    let x = T::gen(s);
    let v = x.v();
    cx.label_if(v.is_container(), "container type");
    cx.label_if(v.has_duplicates(), "duplicate keys");
    cx.case(v.nodes() > 1 || !v.is_container(), || format!("{} {}", T::name(), show(&v)));
    let n = T::name();
    expect(&format!("{}: to_json of {:?}", n, x), &x.to_json(), &v)?;
    let text = json::encode(&x);
    if text != render_ref(&v) {
        return Err(format!("{}: {:?} is encoded as {:?}, expected {:?}", n, x, text, render_ref(&v)));
    }
    let fail = |how: &str, o: String| Err(format!("{}: {:?} encoded as {:?} {} gives {}", n, x, pbt::json_out::clip(&text, 500), how, o));
    match json::decode::<T>(&text) {
        Ok(y) if y.same(&x) => (),
        o => return fail("and decoded", format!("{:?}", o)),
    }
    match x.to_json().convert::<T>() {
        Ok(y) if y.same(&x) => (),
        o => return fail("converted from its Json", format!("{:?}", o)),
    }
    match T::from_json(&v.to_json()) {
        Ok(y) if y.same(&x) => (),
        o => return fail("and read by from_json", format!("{:?}", o)),
    }
    // inside a document
    let doc = json::set("{\"other\": [1]}", "at.#1", x).map_err(|e| e.to_string())?;
    match json::get::<T>(&doc, "at.#1") {
        Ok(y) if y.v().canon() == v.canon() => Ok(()),
        o => Err(format!("{}: set into and got from {:?}: {:?}", n, pbt::json_out::clip(&doc, 500), o)),
    }
}

/// Any JSON value read as T: the right value, or ConvertError.
fn fits<T: Typed>(s: &mut Src, cx: &mut Cx) -> Verdict {
    let v = match s.below(5) {
        0 => gen::value(s, gen::SMALL),
        1 => T::gen(s).v(),
        _ => {
            // the value of a T, damaged in one place
            let mut v = T::gen(s).v();
            let n = v.nodes() as u64;
            let at = s.below(n) as usize;
            let other = match s.below(7) {
                0 => V::Null,
                1 => V::Bool(true),
                2 => V::Num(gen::number(s)),
                3 => V::Str(gen::string(s)),
                4 => V::Arr(vec![]),
                5 => V::Obj(vec![]),
                _ => gen::value(s, gen::SMALL),
            };
            let mut k = 0;
            damage(&mut v, at, &mut k, &other, s);
            v
        }
    };
    let n = T::name();
    let want = T::dec(&v);
    match want {
        D::Is(_) => cx.label("fits"),
        D::No(_) => cx.label("does not fit"),
        D::Any => cx.label("not promised"),
    }
    cx.case(!matches!(want, D::Any), || format!("{} as {}", show(&v), n));
    let j = v.to_json();
    let text = render_ref(&v);
    let mut doc = Json::Object(Default::default());
    doc.append("older", 1).map_err(|e| e.to_string())?;
    doc.append("x", j.clone()).map_err(|e| e.to_string())?;
    let doctext = render_ref(&V::Obj(vec![("x".into(), v.clone())]));
    for (how, got) in [
        ("convert", j.convert::<T>()),
        ("from_json", T::from_json(&j)),
        ("decode", json::decode::<T>(&text)),
        ("get", json::get::<T>(&doctext, "x")),
        ("find and convert", doc.find("x").and_then(|x| x.convert::<T>())),
    ] {
        match (&want, got) {
            (D::Any, Ok(_)) | (D::Any, Err(_)) => (),
            (D::Is(x), Ok(y)) if y.same(x) => (),
            (D::No(k), Err(e)) if kinds_of(&e) & k != 0 => (),
            (D::Is(x), o) => return Err(format!("{} of {} as {}: {:?}, expected {:?}", how, show(&v), n, o, x)),
            (D::No(_), o) => return Err(format!("{} of {} as {}: {:?}, expected a ConvertError", how, show(&v), n, o)),
        }
    }
    expect("the value read", &j, &v)
}

pub fn damage(v: &mut V, at: usize, k: &mut usize, other: &V, s: &mut Src) {
    if *k == at {
        *k += 1;
        *v = other.clone();
        return;
    }
    *k += 1;
    match v {
        V::Arr(a) => {
            for x in a {
                damage(x, at, k, other, s);
                if *k > at {
                    return;
                }
            }
        }
        V::Obj(m) => {
            for (key, x) in m {
                if *k == at && s.chance(1, 3) {
                    *key = gen::key(s);
                    *k += 1;
                    return;
                }
                damage(x, at, k, other, s);
                if *k > at {
                    return;
                }
            }
        }
        _ => (),
    }
}

type RandomFn = fn(&mut Src, &mut Cx) -> Verdict;

macro_rules! types {
    ( $f:ident : $( $t:ty ),* $(,)? ) => { &[ $( $f::<$t> as RandomFn ),* ] };
}

macro_rules! with_types {
    ( $f:ident ) => {
        types!($f:
            u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64, bool, String, Json,
            Option<u8>, Option<i64>, Option<f64>, Option<f32>, Option<bool>, Option<String>, Option<Json>,
            Vec<u8>, Vec<i32>, Vec<u64>, Vec<i128>, Vec<f64>, Vec<f32>, Vec<bool>, Vec<String>, Vec<Json>,
            Vec<Option<i32>>, Option<Vec<String>>, Vec<Vec<u16>>, Vec<Vec<Vec<bool>>>, Vec<Option<Vec<Option<i8>>>>,
            HashMap<String, i32>, HashMap<String, String>, HashMap<String, Json>, HashMap<i32, bool>, HashMap<u64, String>,
            HashMap<bool, Vec<i32>>, HashMap<char, u8>, HashMap<String, Option<f64>>, HashMap<String, HashMap<String, u32>>,
            HashMap<String, Vec<HashMap<i32, String>>>, Vec<HashMap<String, bool>>, Option<HashMap<String, i16>>,
            Vec<(String, i32)>, Vec<(String, String)>, Vec<(String, Json)>, Vec<(i32, String)>, Vec<(u64, bool)>,
            Vec<(char, f64)>, Vec<(bool, Vec<u8>)>, Vec<(String, Option<i32>)>, Vec<(String, Vec<(String, u8)>)>,
            Vec<Vec<(String, bool)>>, Option<Vec<(String, f64)>>, HashMap<String, Vec<(i32, String)>>,
            Vec<(String, HashMap<String, Vec<Option<String>>>)>,
        )
    };
}

fn c08_round(s: &mut Src, cx: &mut Cx) -> Verdict {
    let fs: &[RandomFn] = with_types!(round);
    let f = s.below(fs.len() as u64) as usize;
    fs[f](s, cx)
}

fn c09_fits(s: &mut Src, cx: &mut Cx) -> Verdict {
    let fs: &[RandomFn] = with_types!(fits);
    let f = s.below(fs.len() as u64) as usize;
    fs[f](s, cx)
}

/// Large values, right or with one part of another shape.
fn c09_large(i: u64, cx: &mut Cx) -> Verdict {
    const N: [usize; 8] = [17, 65, 257, 1_025, 2_049, 4_097, 20_000, 65_537];
    let n = N[i as usize % 8];
    let i = i / 8;
    // none, first, last, in the middle, near the end
    let at = [None, Some(0), Some(n - 1), Some(n / 2), Some(n - n / 8 - 1)][i as usize % 5];
    let i = i / 5;
    let bad = [Json::Null, Json::Boolean(true), Json::Array(vec![]), json::object!()][i as usize % 4].clone();
    let what = i as usize / 4;
    let item = |k: usize| if Some(k) == at { bad.clone() } else { Json::Number(k as f64) };
    let inner = |k: usize| json::array![Json::Number(1.0), item(k)];
    let arr = |f: &dyn Fn(usize) -> Json| Json::Array((0..n).map(f).collect());
    let obj = |f: &dyn Fn(usize) -> Json, key: &dyn Fn(usize) -> String| {
        let mut j = json::object!();
        for k in 0..n {
            j.append(key(k), f(k)).expect("an object");
        }
        j
    };
    let own = |k: usize| format!("k{}", k);
    let same = |_: usize| "k".to_string();
    fn sum(x: Result<Vec<i64>, json::Error>) -> Result<(usize, i64), json::Error> {
        x.map(|x| (x.len(), x.iter().sum()))
    }
    let total = (n * (n - 1) / 2) as i64;
    let (name, got) = match what {
        0 => ("Vec<i64>", sum(arr(&item).convert::<Vec<i64>>())),
        1 => ("Vec<Vec<i64>>", sum(arr(&inner).convert::<Vec<Vec<i64>>>().map(|v| v.into_iter().map(|x| x[1] * (x.len() == 2) as i64).collect()))),
        2 => ("HashMap<String, i64>", sum(obj(&item, &own).convert::<HashMap<String, i64>>().map(|m| m.into_values().collect()))),
        3 => ("Vec<(String, i64)>", sum(obj(&item, &own).convert::<Vec<(String, i64)>>().map(|m| m.into_iter().map(|x| x.1).collect()))),
        _ => ("Vec<(String, i64)> of one key", sum(obj(&item, &same).convert::<Vec<(String, i64)>>().map(|m| m.into_iter().map(|x| x.1).collect()))),
    };
    let told = || format!("{} of {} parts, {}", name, n, match at { Some(k) => format!("{} at {}", bad.to_string(), k), None => "all right".into() });
    cx.case(at.is_some(), told);
    match (got, at) {
        (Ok(x), None) if x == (n, total) => Ok(()),
        (Err(e), Some(_)) if kind_of(&e) == E::ConvertError => Ok(()),
        (got, _) => Err(format!("{}: number and sum {:?}, of {:?}", told(), got, (n, total))),
    }
}

fn c09_scalars(s: &mut Src, cx: &mut Cx) -> Verdict {
    let fs: &[RandomFn] = types!(fits: u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64, bool, String, Option<i32>, Option<bool>, Vec<i32>, HashMap<String, i32>, Vec<(String, i32)>, Vec<(i32, i32)>, HashMap<i32, i32>);
    let f = s.below(fs.len() as u64) as usize;
    fs[f](s, cx)
}

/// Borrowed forms are written as the owned ones.
fn c08_borrowed(s: &mut Src, cx: &mut Cx) -> Verdict {
    fn check<A: ToJson + ?Sized>(what: &str, a: &A, v: &V) -> Verdict {
        expect(what, &a.to_json(), v)?;
        let t = json::encode(a);
        if t != render_ref(v) {
            return Err(format!("{}: encoded as {:?}, expected {:?}", what, t, render_ref(v)));
        }
        Ok(())
    }
    macro_rules! num {
        ( $( $t:ident ),* ) => { $( {
            let x = <$t as Typed>::gen(s);
            check(concat!("&", stringify!($t)), &&x, &x.v())?;
            let xs: Vec<$t> = s.vec(3, 10, <$t as Typed>::gen);
            check(concat!("&[", stringify!($t), "]"), &&xs[..], &xs.v())?;
            let refs: Vec<&$t> = xs.iter().collect();
            check(concat!("Vec<&", stringify!($t), ">"), &refs, &xs.v())?;
        } )* };
    }
    match s.below(3) {
        0 => {
            let x: Vec<String> = s.vec(4, 10, gen::string);
            let v = x.v();
            cx.case(!x.is_empty(), || show(&v));
            let refs: Vec<&str> = x.iter().map(|t| &t[..]).collect();
            check("Vec<&str>", &refs, &v)?;
            check("&[&str]", &&refs[..], &v)?;
            check("&[String]", &&x[..], &v)?;
            for t in &x {
                check("str", &t[..], &t.v())?;
                check("&str", &&t[..], &t.v())?;
                check("Option<&str>", &Some(&t[..]), &t.v())?;
            }
            let b = s.flag();
            check("&bool", &&b, &b.v())
        }
        1 => {
            let x = <Vec<(String, i32)> as Typed>::gen(s);
            let v = x.v();
            cx.label_if(v.has_duplicates(), "duplicate keys");
            cx.case(!x.is_empty(), || show(&v));
            check("&[(String, i32)]", &&x[..], &v)?;
            let refs: Vec<(&str, &i32)> = x.iter().map(|(k, n)| (&k[..], n)).collect();
            check("Vec<(&str, &i32)>", &refs, &v)?;
            check("&[(&str, &i32)]", &&refs[..], &v)?;
            let m: HashMap<String, i32> = x.into_iter().collect();
            let r: HashMap<&str, &i32> = m.iter().map(|(k, n)| (&k[..], n)).collect();
            check("HashMap<&str, &i32>", &r, &m.v())
        }
        _ => {
            num!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64);
            cx.case(true, || format!("numbers by reference, {} choices", s.rec.len()));
            Ok(())
        }
    }
}

/// Any integer: what comes back is the same up to the precision of a double.
fn c08_wide(s: &mut Src, cx: &mut Cx) -> Verdict {
    macro_rules! wide {
        ( $( $t:ident ),* ) => { $( {
            let bits = std::mem::size_of::<$t>() as u64 * 8;
            let mut x = (s.bits() as $t) << (bits / 2) ^ s.bits() as $t;
            match s.below(4) {
                0 => x >>= s.below(bits) as u32,
                1 => x = if s.flag() { $t::MAX - (s.below(3000) as $t) } else { $t::MIN + (s.below(3000) as $t) },
                2 => x = ((1 as $t) << s.below(bits) as u32).wrapping_add(s.below(5) as $t).wrapping_sub(2),
                _ => (),
            }
            cx.case(true, || format!("{} of type {}", x, stringify!($t)));
            cx.label_if(x as f64 as $t != x || x == $t::MAX, "no double is it");
            let what = |how: &str, y: $t| format!("{} of type {}: {} gives {}", x, stringify!($t), how, y);
            let want = V::Num(x as f64);
            let t = json::encode(&x);
            if t != render_ref(&want) {
                return Err(format!("{} of type {} is encoded as {}", x, stringify!($t), t));
            }
            expect("to_json", &(&x).to_json(), &want)?;
            let j = x.to_json();
            let list = format!("[{}, null, {}]", t, t);
            let mut all: Vec<(&str, Result<$t, json::Error>)> = vec![
                ("decode", json::decode::<$t>(&t)), ("convert", j.convert::<$t>()),
                ("get", json::get::<$t>(&list, "#2")),
                ("decode of Some", json::decode::<Option<$t>>(&t).map(|y| y.unwrap())),
            ];
            match json::decode::<Vec<Option<$t>>>(&list) {
                Ok(v) if v.len() == 3 && v[1].is_none() && v[0].is_some() => all.push(("decode of a Vec", Ok(v[0].unwrap()))),
                o => return Err(format!("{} as Vec<Option<{}>>: {:?}", list, stringify!($t), o)),
            }
            for (how, y) in all {
                let y = y.map_err(|e| format!("{} of {} as {}: {}", how, t, stringify!($t), e))?;
                if y as f64 != x as f64 {
                    return Err(what(how, y));
                }
            }
            // as a key it is written out in full
            let m: HashMap<$t, $t> = vec![(x, 0 as $t), (x ^ 1, 1 as $t)].into_iter().collect();
            match json::decode::<HashMap<$t, $t>>(&json::encode(&m)) {
                Ok(n) if n == m => (),
                o => return Err(format!("keys {} and {} come back as {:?}", x, x ^ 1, o)),
            }
            let ps = vec![(x, true), (x ^ 1, false), (x, false)];
            match json::decode::<Vec<($t, bool)>>(&json::encode(&ps)) {
                Ok(n) if n.len() == 3 && n.iter().filter(|p| p.0 == x).map(|p| p.1).eq([true, false]) && n.contains(&(x ^ 1, false)) => (),
                o => return Err(format!("pairs of {} and {} come back as {:?}", x, x ^ 1, o)),
            }
        } ; )* };
    }
    match s.below(4) {
        0 => { wide!(u64, i64); }
        1 => { wide!(u128, i128); }
        2 => { wide!(usize, isize); }
        _ => { wide!(u32, i32); }
    }
    Ok(())
}

pub fn c08() -> Check {
    Check {
        id: "C08",
        rule: "values of 65 types (scalars, Option, Vec, pairs, HashMap, Json, and nestings of them), and borrowed forms, and any integers of 32 to 128 bits; each encoded, compared with the reference text, decoded, converted, set into and got from a document. Non-trivial: not an empty container",
        assumptions: &["integers that no double is come back as one that rounds to the same double; finite floats; no Some(null)", "the order between different keys of decoded pairs is free"],
        suites: vec![
            Suite { name: "round-trip", kind: Kind::Random { quick: 1_200_000, thorough: 16_000_000, f: c08_round } },
            Suite { name: "borrowed", kind: Kind::Random { quick: 320_000, thorough: 4_000_000, f: c08_borrowed } },
            Suite { name: "wide", kind: Kind::Random { quick: 200_000, thorough: 4_000_000, f: c08_wide } },
        ],
    }
}

pub fn c09() -> Check {
    Check {
        id: "C09",
        rule: "JSON values decoded as each of 65 types: values of the type, such values damaged in one place (element, member, key), and any others; a reference decoder says which value or ConvertError; lists and maps of up to 65537 parts, one of another shape. Non-trivial: the outcome is promised",
        assumptions: &["numbers that are not exactly a value of the numeric type decode to something unspecified"],
        suites: vec![
            Suite { name: "fits", kind: Kind::Random { quick: 1_500_000, thorough: 16_000_000, f: c09_fits } },
            Suite { name: "scalars", kind: Kind::Random { quick: 500_000, thorough: 4_000_000, f: c09_scalars } },
            Suite { name: "large", kind: Kind::Enumerated { quick: 8 * 5 * 4 * 5, thorough: 8 * 5 * 4 * 5, f: c09_large } },
        ],
    }
}
