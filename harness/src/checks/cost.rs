//! C31: the cost of an operation grows in proportion to what it is given.
//!
//! The same kind of input is made in four sizes, each four times the one before; what a step
//! allocates (exact) and how long it takes (of the processor's time of this thread) per element has
//! to stay about the same.

use crate::gen;
use crate::model::*;
use json::Json;
use pbt::run::Check;
use pbt::{Cx, Kind, Src, Suite, Verdict};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::HashMap;
use std::hint::black_box;
use std::sync::{Mutex, OnceLock};

// ---------------------------------------------------------------------------------------------
// measuring

pub struct Counting;

thread_local! {
    static BYTES: Cell<u64> = const { Cell::new(0) };
}

fn count(n: usize) {
    let _ = BYTES.try_with(|b| b.set(b.get() + 32 + n as u64));
}

// every request is one of at least 32 bytes, so that the number of requests counts, too
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count(n);
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}

#[global_allocator]
static ALLOCATOR: Counting = Counting;

#[repr(C)]
struct Time {
    s: i64,
    ns: i64,
}

extern "C" {
    fn clock_gettime(clock: i32, t: *mut Time) -> i32;
}

/// Processor time of this thread, in nanoseconds.
fn now() -> u64 {
    let mut t = Time { s: 0, ns: 0 };
    // CLOCK_THREAD_CPUTIME_ID
    unsafe { clock_gettime(3, &mut t) };
    t.s as u64 * 1_000_000_000 + t.ns as u64
}

struct Run {
    bytes: u64,
    ns: u64,
}

pub struct Meter {
    run: Run,
    expect: Option<String>,
}

impl Meter {
    /// What is measured of a case.
    pub fn of<T>(&mut self, f: impl FnOnce() -> T) -> T {
        let (b, t) = (BYTES.with(|x| x.get()), now());
        let r = black_box(f());
        self.run.ns += now() - t;
        self.run.bytes += BYTES.with(|x| x.get()) - b;
        r
    }
    pub fn check(&mut self, ok: bool, what: &str) {
        if !ok && self.expect.is_none() {
            self.expect = Some(what.to_string());
        }
    }
}

fn once(f: &dyn Fn(usize, &mut Meter), n: usize) -> Result<Run, String> {
    let mut m = Meter { run: Run { bytes: 0, ns: 0 }, expect: None };
    f(n, &mut m);
    match m.expect {
        Some(e) => Err(format!("with {} of them: {}", n, e)),
        None => Ok(m.run),
    }
}

const BASE: usize = 750;
const MORE: f64 = 3.0;
const SLOWER: f64 = 16.0;
/// differences below it do not count
const SHORT: u64 = 15_000_000;

static ALONE: Mutex<()> = Mutex::new(());

fn grows(what: &str, f: &dyn Fn(usize, &mut Meter)) -> Verdict {
    let mut first: Option<Run> = None;
    for n in [BASE, BASE * 4, BASE * 16, BASE * 64] {
        let mut r = once(f, n)?;
        if n == BASE {
            for _ in 0..3 {
                r.ns = r.ns.min(once(f, n)?.ns);
            }
        }
        let a = match &first {
            None => {
                first = Some(r);
                continue;
            }
            Some(a) => a,
        };
        let k = (n / BASE) as f64;
        let more = r.bytes as f64 / (a.bytes.max(2000) as f64 * k);
        if more > MORE {
            return Err(format!("{}: {} elements take {} bytes, {} take {}: {:.1} times as much for each", what, BASE, a.bytes, n, r.bytes, more));
        }
        let slow = |a: u64, b: u64| b as f64 / (a.max(2000) as f64 * k);
        if slow(a.ns, r.ns) > SLOWER && r.ns > SHORT {
            // the machine may have been busy
            let _g = ALONE.lock();
            let (mut x, mut y) = (a.ns, r.ns);
            for _ in 0..4 {
                for _ in 0..3 {
                    x = x.max(once(f, BASE)?.ns);
                }
                y = y.min(once(f, n)?.ns);
                if !(slow(x, y) > SLOWER && y > SHORT) {
                    break;
                }
            }
            if slow(x, y) > SLOWER && y > SHORT {
                return Err(format!("{}: {} elements take {} us, {} take {} us: more than {} times as long for each", what, BASE, x / 1000, n, y / 1000, SLOWER));
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// what grows

/// The text of a small value.
fn unit(s: &mut Src) -> String {
    let v = match s.weighted(&[3, 1, 1]) {
        0 => gen::scalar_value(s),
        1 => V::Arr((0..s.below(3)).map(|_| gen::scalar_value(s)).collect()),
        _ => V::Obj((0..s.below(3)).map(|i| (format!("k{}", i), gen::scalar_value(s))).collect()),
    };
    let t = gen::spell(s, &v);
    if t.chars().count() > 60 {
        "1".into()
    } else {
        t
    }
}

/// How the keys look like.
#[derive(Clone)]
pub struct Keys {
    before: &'static str,
    after: &'static str,
    /// so many are different
    of: usize,
}

impl Keys {
    fn new(s: &mut Src) -> Keys {
        Keys {
            before: *s.pick(&["", "k", "key_", "é", "a b", "\u{1F600}"]),
            after: *s.pick(&["", "x", "ß", "_"]),
            of: *s.pick(&[usize::MAX, usize::MAX, 1, 2, 7]),
        }
    }
    pub fn at(&self, i: usize) -> String {
        format!("{}{}{}", self.before, i % self.of, self.after)
    }
}

fn object(k: &Keys, unit: &str, n: usize, blank: &str) -> String {
    let mut t = String::from("{");
    for i in 0..n {
        if i > 0 {
            t.push(',');
        }
        t.push_str(&format!("{}\"{}\"{}:{}", blank, k.at(i), blank, unit));
    }
    t.push('}');
    t
}

fn array(unit: &str, n: usize, blank: &str) -> String {
    let mut t = String::from("[");
    for i in 0..n {
        if i > 0 {
            t.push(',');
        }
        t.push_str(blank);
        t.push_str(unit);
        t.push_str(blank);
    }
    t.push(']');
    t
}

const PIECES: &[&str] = &["a", "é", "\u{4e2d}", "\u{1F600}", "\\n", "\\\"", "\\\\", "\\/", "\\u0041", "\\ud83d\\ude00", "\\u00e9", " ", "{", "]", "a,b:"];
const BLANKS: &[&str] = &["", " ", "\n\t ", "\r\n"];

/// A text of n elements, and what kind it is.
fn text(s: &mut Src) -> (String, Box<dyn Fn(usize) -> String>) {
    let u = unit(s);
    let blank = *s.pick(BLANKS);
    match s.weighted(&[3, 4, 2, 1, 1, 1]) {
        0 => (format!("an array of {}{}", blank, u), Box::new(move |n| array(&u, n, blank))),
        1 => {
            let k = Keys::new(s);
            (format!("an object with {} in {}", if k.of > 7 { "a key each" } else { "few keys" }, k.at(0)), Box::new(move |n| object(&k, &u, n, blank)))
        }
        2 => {
            let p: Vec<&str> = (0..s.range(1, 3)).map(|_| *s.pick(PIECES)).collect();
            let p = p.concat();
            let key = s.chance(1, 4);
            (format!("a string of {}", p), Box::new(move |n| if key { format!("{{\"{}\":1}}", p.repeat(n)) } else { format!("\"{}\"", p.repeat(n)) }))
        }
        3 => {
            let b = if blank.is_empty() { " " } else { blank };
            let t = *s.pick(&["[@1]", "[1@,@2]", "@1@", "{@\"a\"@:@1@}", "{@}", "[@]", "[[@],{@}]"]);
            (format!("blanks in {}", t), Box::new(move |n| t.replace('@', &b.repeat(n))))
        }
        4 => {
            let t = *s.pick(&["-0.@", "0.@1", "1@.5", "1.5e-@", "-1@e-@", "[1,1@.0]", "1e@", "1@"]);
            let d = *s.pick(&["0", "1", "9", "37"]);
            (format!("digits {} in {}", d, t), Box::new(move |n| t.replace('@', &d.repeat(n))))
        }
        _ => {
            let d = s.range(1, 20);
            (format!("an array of {} in {} arrays", u, d), Box::new(move |n| format!("{}{}{}", "[".repeat(d), array(&u, n, blank), "]".repeat(d))))
        }
    }
}

// ---------------------------------------------------------------------------------------------
// operations

fn texts(s: &mut Src, cx: &mut Cx) -> Verdict {
    let (what, make) = text(s);
    let op = s.below(8);
    let name = ["reading", "reading what breaks off", "reading what does not end", "rendering", "copying", "comparing", "one-shot get", "one-shot set and del"][op as usize];
    cx.label(name);
    cx.case(true, || format!("{}: {}", name, what));
    let tail = *s.pick(&["]", "x", ",", "\"", "\\", "}", "1"]);
    grows(&format!("{}: {}", name, what), &|n, m| {
        let t = make(n);
        match op {
            0 => drop(m.of(|| Json::parse(&t))),
            1 => {
                let mut end = t.len() - 1;
                while !t.is_char_boundary(end) {
                    end -= 1;
                }
                drop(m.of(|| Json::parse(&t[..end])))
            }
            2 => {
                let t = t + tail;
                drop(m.of(|| Json::parse(&t)))
            }
            6 | 7 => {
                let t = format!("{{\"a\":{},\"b\":2}}", t);
                if op == 6 {
                    drop(m.of(|| json::get::<Json>(&t, "a")));
                    drop(m.of(|| json::get::<f64>(&t, "b")));
                    drop(m.of(|| json::get::<f64>(&t, "c")));
                } else {
                    drop(m.of(|| json::set(&t, "b", 1)));
                    drop(m.of(|| json::del(&t, "a")));
                    drop(m.of(|| json::del(&t, "b")));
                }
            }
            _ => {
                let v = match Json::parse(&t) {
                    Ok(v) => v,
                    // a number may be too large
                    Err(_) => return,
                };
                match op {
                    3 => drop(m.of(|| (v.to_string(), json::encode(&v)))),
                    4 => drop(m.of(|| v.clone())),
                    _ => {
                        let w = v.clone();
                        let same = m.of(|| v == w);
                        m.check(same, "a copy is another");
                    }
                }
            }
        }
    })
}

/// What the derived structures cost, in a program of their own (src/bin/vtd.rs): whether derives compile at
/// all is not for this property to say.
pub struct Derived {
    pub items: fn(&mut Meter, &Keys, f64, usize),
    pub nested: fn(&mut Meter, &Keys, f64, usize, usize),
}
pub static DERIVED: OnceLock<Derived> = OnceLock::new();

#[macro_export]
macro_rules! roundtrip {
    ( $m:expr, $v:expr, $t:ty ) => {{
        let v: $t = $v;
        let text = $m.of(|| json::encode(&v));
        let back = $m.of(|| json::decode::<$t>(&text));
        $m.check(matches!(&back, Ok(b) if *b == v), "decoding gives another value");
        let j = json::Json::parse(&text).unwrap();
        drop($m.of(|| j.convert::<$t>()));
    }};
}

fn typed(s: &mut Src, cx: &mut Cx) -> Verdict {
    let k = Keys { of: usize::MAX, ..Keys::new(s) };
    let x = gen::number(s);
    let x = if x.is_finite() { x } else { 1.0 };
    let mut op = s.below(10);
    if DERIVED.get().is_none() && (op == 6 || op == 7) {
        op = 8;
    }
    let name = ["Vec<f64>", "Vec<String>", "HashMap<String, f64>", "HashMap<u32, bool>", "Vec<(String, f64)>", "Vec<Option<bool>>", "a structure in a Vec", "a structure with a Vec and a HashMap", "Vec<Vec<u8>>", "Option<Vec<bool>>"][op as usize];
    cx.label(name);
    cx.case(true, || format!("{} of {:?} or {}", name, k.at(0), x));
    let depth = s.range(0, 3);
    grows(&format!("encoding and decoding {}", name), &|n, m| match op {
        0 => roundtrip!(m, vec![x; n], Vec<f64>),
        1 => roundtrip!(m, (0..n).map(|i| k.at(i)).collect(), Vec<String>),
        2 => roundtrip!(m, (0..n).map(|i| (k.at(i), x)).collect(), HashMap<String, f64>),
        3 => roundtrip!(m, (0..n).map(|i| (i as u32, i % 3 == 0)).collect(), HashMap<u32, bool>),
        4 => {
            let v: Vec<(String, f64)> = (0..n).map(|i| (k.at(i), x)).collect();
            let t = m.of(|| json::encode(&v));
            drop(m.of(|| json::decode::<Vec<(String, f64)>>(&t)));
        }
        5 => roundtrip!(m, (0..n).map(|i| Some(i % 2 == 0).filter(|_| i % 3 > 0)).collect(), Vec<Option<bool>>),
        6 => (DERIVED.get().unwrap().items)(m, &k, x, n),
        7 => (DERIVED.get().unwrap().nested)(m, &k, x, n, depth),
        8 => roundtrip!(m, (0..n / 4).map(|i| vec![i as u8; 4]).collect(), Vec<Vec<u8>>),
        _ => roundtrip!(m, Some((0..n).map(|i| i % 2 == 0).collect()), Option<Vec<bool>>),
    })
}

fn edits(s: &mut Src, cx: &mut Cx) -> Verdict {
    let k = Keys::new(s);
    let u = Json::parse(&unit(s)).unwrap();
    let op = s.below(14);
    let name = [
        "insert", "append", "push", "replace", "remove the last", "get each", "set each", "del each", "delete each", "index_and_merge", "get by index", "set by index", "path text", "del the last",
    ][op as usize];
    cx.label(name);
    cx.label_if(k.of <= 7, "few keys");
    cx.case(true, || format!("{} {} of {:?}", name, u.to_string(), k.at(0)));
    let deep = s.range(0, 3);
    let piece = *s.pick(&["a", "é", "\\.", "\\", "#", "1", " ", "ab\\.c"]);
    grows(&format!("{} {} of {:?}", name, u.to_string(), k.at(0)), &|n, m| {
        let ok = |m: &mut Meter, ok: bool| m.check(ok, "it fails");
        let mut o = Json::Object(HashMap::new());
        let mut a = Json::Array(Vec::new());
        if (5..=9).contains(&op) {
            for i in 0..n {
                let _ = o.append(k.at(i), u.clone());
            }
        }
        if [3, 4, 10, 11, 13].contains(&op) {
            for _ in 0..n {
                let _ = a.push(u.clone());
            }
        }
        let up = vec!["up"; deep].iter().map(|x| format!("{}.", x)).collect::<String>();
        for _ in 0..deep {
            let wrap = |v: Json| {
                let mut w = Json::Object(HashMap::new());
                let _ = w.insert("up", v);
                w
            };
            if op > 4 && op != 8 && op != 9 {
                o = wrap(o);
                a = wrap(a);
            }
        }
        // no key is made while it is measured
        let keys: Vec<String> = (0..n).map(|i| k.at(i)).collect();
        let paths: Vec<String> = (0..n).map(|i| if [10, 11, 13].contains(&op) { format!("{}#{}", up, i) } else { format!("{}{}", up, k.at(i)) }).collect();
        let r = match op {
            0 => m.of(|| (0..n).all(|i| o.insert(&keys[i], u.clone()).is_ok())),
            1 => m.of(|| (0..n).all(|i| o.append(&keys[i], u.clone()).is_ok())),
            2 => m.of(|| (0..n).all(|_| a.push(u.clone()).is_ok())),
            3 => m.of(|| (0..n).all(|i| a.replace(i, 1).is_ok())),
            4 => m.of(|| (0..n).rev().all(|i| a.remove(i).is_ok())),
            5 => m.of(|| (0..n).all(|i| o.get(&paths[i]).is_ok())),
            6 => m.of(|| (0..n).all(|i| o.set(&paths[i], 1).is_ok())),
            7 => m.of(|| (0..n.min(k.of)).all(|i| o.del(&paths[i]).is_ok())),
            8 => m.of(|| (0..n).all(|i| o.delete(&keys[i]).is_ok())),
            9 => {
                let found = m.of(|| o.index_and_merge(&keys[0]).map_or(0, |v| v.len()));
                found >= n / k.of.min(n)
            }
            10 => m.of(|| (0..n).all(|i| a.get(&paths[i]).is_ok())),
            11 => m.of(|| (0..n).all(|i| a.set(&paths[i], 1).is_ok())),
            12 => {
                let p = piece.repeat(n);
                let q = format!("{}{}", up, vec!["a"; n].join("."));
                m.of(|| (o.get(&p).is_ok(), o.get(&q).is_ok(), o.set(&p, 1).is_ok(), o.del(&q).is_ok()));
                true
            }
            _ => m.of(|| (0..n).rev().all(|i| a.del(&paths[i]).is_ok())),
        };
        ok(m, r);
    })
}

pub fn c31() -> Check {
    Check {
        id: "C31",
        rule: "every case: a generated element, made 750, 3000, 12000 and 48000 times",
        assumptions: &[
            "what an operation costs is the bytes it requests from the allocator, and the time of the processor; time may be sixteen times as long for each of 64 times as many elements (caches, a busy machine), bytes three times as many",
            "an operation on one element of an array or object of n may cost what the element costs, except taking one out of the middle of an array",
        ],
        suites: vec![
            Suite { name: "texts", kind: Kind::Random { quick: 900, thorough: 20_000, f: texts } },
            Suite { name: "typed", kind: Kind::Random { quick: 300, thorough: 8_000, f: typed } },
            Suite { name: "edits", kind: Kind::Random { quick: 700, thorough: 16_000, f: edits } },
        ],
    }
}
