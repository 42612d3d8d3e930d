//! C28: what a failure says.

use crate::gen;
use crate::model::*;
use json::{ErrorKind, Json};
use pbt::run::Check;
use pbt::{Cx, Kind, Src, Suite, Verdict};
use std::collections::HashMap;

/// The name of a kind is the name of its variant.
fn name(k: &ErrorKind) -> &'static str {
    use json::ErrorKind::*;
    match k {
        InvalidJson => "InvalidJson",
        ParseObjectError => "ParseObjectError",
        ParseArrayError => "ParseArrayError",
        ParseStringError => "ParseStringError",
        ParseNumberError => "ParseNumberError",
        ParseBooleanError => "ParseBooleanError",
        ParseNullError => "ParseNullError",
        MissingKey => "MissingKey",
        IndexOutOfRange => "IndexOutOfRange",
        InvalidValueKind => "InvalidValueKind",
        PathSyntaxError => "PathSyntaxError",
        ConvertError => "ConvertError",
    }
}

/// Kind, and what the message has to name.
struct Cause {
    kind: E,
    names: Vec<String>,
}

fn wrong(expected: &str, found: &V) -> Cause {
    Cause { kind: E::InvalidValueKind, names: vec![expected.into(), found.kind().into()] }
}

fn missing(k: &str) -> Cause {
    Cause { kind: E::MissingKey, names: vec![k.into()] }
}

fn out_of_range(i: usize) -> Cause {
    Cause { kind: E::IndexOutOfRange, names: vec![i.to_string()] }
}

/// Why there is nothing at a path.
fn lookup(v: &V, p: &[Seg]) -> Option<Cause> {
    let mut at = v;
    for s in p {
        at = match at.child(s) {
            Ok(x) => x,
            Err(_) => {
                return Some(match (s, at) {
                    (Seg::Key(k), V::Obj(_)) => missing(k),
                    (Seg::Index(i), V::Arr(_)) => out_of_range(*i),
                    (Seg::Key(k), o) => {
                        let mut c = wrong("object", o);
                        c.names.push(k.clone());
                        c
                    }
                    (Seg::Index(i), o) => {
                        let mut c = wrong("array", o);
                        c.names.push(i.to_string());
                        c
                    }
                })
            }
        }
    }
    None
}

/// What every error shows, whatever it is.
fn shows(what: &str, e: json::Error) -> Verdict {
    let n = name(&e.kind);
    let d = e.to_string();
    if d != format!("{}: {}", n, e.msg) {
        return Err(format!("{}: kind {}, message {:?}, displayed as {:?}", what, n, e.msg, d));
    }
    if e.kind.to_string() != n || format!("{:?}", e.kind) != n {
        return Err(format!("{}: kind {} displays as {}", what, n, e.kind));
    }
    if e.msg.trim().is_empty() {
        return Err(format!("{}: kind {} with an empty message", what, n));
    }
    let debug = format!("{:?}", e);
    if !debug.contains(n) || !debug.contains(&format!("{:?}", e.msg)) {
        return Err(format!("{}: {} is shown for debugging as {}", what, d, debug));
    }
    // as the standard library passes errors on
    let boxed: Box<dyn std::error::Error + Send + Sync> = Box::new(e);
    if boxed.to_string() != d {
        return Err(format!("{}: {} boxed is {}", what, d, boxed));
    }
    match boxed.downcast::<json::Error>() {
        Ok(e) if e.to_string() == d => Ok(()),
        _ => Err(format!("{}: {} does not come out of its box", what, d)),
    }
}

fn says<T: std::fmt::Debug>(what: &str, got: Result<T, json::Error>, want: Option<&Cause>) -> Verdict {
    match (got, want) {
        (Ok(_), None) => Ok(()),
        (Err(e), None) => Err(format!("{}: fails with {}", what, e)),
        (Ok(x), Some(c)) => Err(format!("{}: succeeds with {:?}, expected {:?}", what, x, c.kind)),
        (Err(e), Some(c)) => {
            if kind_of(&e) != c.kind {
                return Err(format!("{}: the error is {}, expected {:?}", what, e, c.kind));
            }
            for n in &c.names {
                // as it is, or quoted
                let quoted = format!("{:?}", n);
                if !e.msg.contains(n.as_str()) && !e.msg.contains(&quoted[1..quoted.len() - 1]) {
                    return Err(format!("{}: the message {:?} ({:?}) does not name {:?}", what, e.msg, e.kind, n));
                }
            }
            shows(what, e)
        }
    }
}

fn place(s: &mut Src, v: &V) -> Vec<Seg> {
    if s.chance(1, 3) {
        return vec![];
    }
    let p = gen::path(s, v, 0);
    let mut n = p.len();
    while v.at(&p[..n]).is_err() {
        n -= 1;
    }
    p[..n].to_vec()
}

fn c28_operations(s: &mut Src, cx: &mut Cx) -> Verdict {
    let v = gen::document(s);
    let mut j = v.to_json();
    let at = place(s, &v);
    let here = v.at(&at).unwrap().clone();
    if (&j)._kind() != v.kind() {
        return Err(format!("the kind of {} is {}", show(&v), j._kind()));
    }
    let k = gen::key(s);
    let i = match (s.below(3), &here) {
        (0, _) => s.below(5) as usize,
        (1, V::Arr(a)) => a.len() + s.below(3) as usize,
        _ => *s.pick(&[0usize, 10, 1000, 19_999, u32::MAX as usize, usize::MAX]),
    };
    let p = gen::path(s, &here, 5);
    let x = gen::scalar_value(s);
    let target: &mut Json = if at.is_empty() { &mut j } else { j.find_mut(to_path(&at)).map_err(|e| e.to_string())? };
    let object = if matches!(here, V::Obj(_)) { None } else { Some(wrong("object", &here)) };
    let array = if matches!(here, V::Arr(_)) { None } else { Some(wrong("array", &here)) };
    let index = match &here {
        V::Arr(a) if i >= a.len() => Some(out_of_range(i)),
        V::Arr(_) => None,
        o => Some(wrong("array", o)),
    };
    let key = lookup(&here, &[Seg::Key(k.clone())]);
    let path = lookup(&here, &p);
    let (what, want, got): (&'static str, Option<Cause>, Result<(), json::Error>) = match s.below(14) {
        0 => ("insert", object, target.insert(k.clone(), x.to_json())),
        1 => ("append", object, target.append(&k, x.to_json())),
        2 => ("delete", object, target.delete(&k)),
        3 => ("push", array, target.push(x.to_json())),
        4 => ("replace", index, target.replace(i, x.to_json())),
        5 => ("remove", index, target.remove(i)),
        6 => ("index_and_merge", lookup(&here, &[Seg::Key(k.clone())]).map(|mut c| {
            if c.kind == E::InvalidValueKind {
                c.names.truncate(2);
            }
            c
        }), target.index_and_merge(&k).map(|_| ())),
        7 => ("find a key", key, target.find(&k).map(|_| ())),
        8 => ("find_mut a key", key, target.find_mut(&k).map(|_| ())),
        9 => ("discard a key", key, target.discard(&k).map(|_| ())),
        10 => ("find a path", path, target.find(to_path(&p)).map(|_| ())),
        11 => ("discard a path", path, target.discard(to_path(&p)).map(|_| ())),
        12 if gen::expressible(&p) => ("get", path, target.get(&gen::spell_path(&p)).map(|_| ())),
        13 if gen::expressible(&p) => ("del", path, target.del(&gen::spell_path(&p)).map(|_| ())),
        _ => ("find_mut a path", path, target.find_mut(to_path(&p)).map(|_| ())),
    };
    cx.label(what);
    cx.label(match want.as_ref().map(|c| c.kind) {
        None => "succeeds",
        Some(E::MissingKey) => "missing key",
        Some(E::IndexOutOfRange) => "index out of range",
        _ => "wrong kind",
    });
    let text = || format!("{} (key {:?}, index {}, path {}) at [{}] in {}", what, k, i, show_segs(&p), show_segs(&at), show(&v));
    cx.case(want.is_some(), text);
    match got {
        Ok(()) if want.is_none() => Ok(()),
        got => says(&text(), got, want.as_ref()),
    }
}

/// An error under the name of a part of JSON is about a text that has that part.
fn about(what: &str, text: &str, e: json::Error) -> Verdict {
    use json::ErrorKind::*;
    let has: &[char] = match e.kind {
        InvalidJson => return shows(what, e),
        ParseObjectError => &['{'],
        ParseArrayError => &['['],
        ParseStringError => &['"'],
        ParseNumberError => &['-', '0', '1', '2', '3', '4', '5', '6', '7', '8', '9'],
        ParseBooleanError => &['t', 'f'],
        ParseNullError => &['n'],
        _ => return Err(format!("{}: the error is {}, no error about text", what, e)),
    };
    if !text.contains(has) {
        return Err(format!("{}: the error is {}, but there is no {:?} in it", what, e, has));
    }
    shows(what, e)
}

fn c28_text(s: &mut Src, cx: &mut Cx) -> Verdict {
    let text = match s.below(4) {
        0 => gen::token_soup(s),
        1 => {
            let v = gen::scalar_value(s);
            let t = gen::spell(s, &v);
            gen::mutate(s, &t)
        }
        _ => {
            let v = gen::document(s);
            let mut t = gen::spell(s, &v);
            for _ in 0..s.range(1, 2) {
                t = gen::mutate(s, &t);
            }
            t
        }
    };
    let bad = parse_ref(&text).is_err();
    cx.label(if bad { "not JSON" } else { "JSON after all" });
    cx.case(bad, || text.clone());
    if !bad {
        return Ok(());
    }
    let path = *s.pick(&["a", "#0", "a.b", "#1.c"]);
    let got: [(&str, Result<(), json::Error>); 5] = [
        ("Json::parse", Json::parse(&text).map(|_| ())),
        ("decode", json::decode::<i32>(&text).map(|_| ())),
        ("get", json::get::<String>(&text, path).map(|_| ())),
        ("set", json::set(&text, path, 1).map(|_| ())),
        ("del", json::del(&text, path).map(|_| ())),
    ];
    let mut first = None;
    for (n, r) in got {
        let what = format!("{} of {:?}", n, pbt::json_out::clip(&text, 600));
        let e = match r {
            Ok(()) => return Err(format!("{} succeeds", what)),
            Err(e) => e,
        };
        // the same text fails the same way everywhere
        let d = e.to_string();
        if *first.get_or_insert_with(|| d.clone()) != d {
            return Err(format!("{}: {}, but Json::parse says {}", what, d, first.unwrap()));
        }
        about(&what, &text, e)?;
    }
    cx.label(match first.as_deref().map(|x| x.split(':').next().unwrap_or("")) {
        Some("InvalidJson") => "InvalidJson",
        Some("ParseObjectError") => "ParseObjectError",
        Some("ParseArrayError") => "ParseArrayError",
        Some("ParseStringError") => "ParseStringError",
        Some("ParseNumberError") => "ParseNumberError",
        Some("ParseBooleanError") => "ParseBooleanError",
        _ => "ParseNullError",
    });
    Ok(())
}

/// One scalar of a document is broken: the error is about that kind of scalar.
fn c28_scalar(s: &mut Src, cx: &mut Cx) -> Verdict {
    let mut v = gen::document(s);
    let at = place(s, &v);
    let at = if s.chance(1, 4) { vec![] } else { at };
    let top = at.is_empty();
    // what is replaced is unlike anything else in the text
    let mark = 0.0625 + 1234567890.0;
    *v.at_mut(&at).unwrap() = V::Num(mark);
    let text = render_ref(&v);
    let shown = number_ref(mark);
    if text.matches(&shown).count() != 1 {
        return Ok(());
    }
    let (kind, scalar) = match s.below(4) {
        0 => {
            let x = s.chance(1, 2).then(|| gen::number(s)).filter(|x| x.is_finite()).map_or("1".to_string(), number_ref);
            let tail = ["e", "e+", "E-", ".", "x", "-", ".e1", "e1.0", "e99999", "_000", "f64", "+1", "..5", "é"];
            let all = ["-", "01", "-x", "-.5", "1.", "00", "0x10", "1e+-2", "-e1", "1e400", "--1", "-Infinity", "1٣"];
            let t = if s.chance(1, 2) { s.pick(&all).to_string() } else { format!("{}{}", x, s.pick(&tail)) };
            ("ParseNumberError", t)
        }
        1 => ("ParseBooleanError", s.pick(&["t", "tr", "tru", "truE", "truex", "true1", "trues", "tRUE", "f", "fals", "falsey", "faLse", "false_", "truefalse", "fa1se", "trué"]).to_string()),
        2 => ("ParseNullError", s.pick(&["n", "nu", "nul", "nulL", "nUll", "nulll", "nan", "nil", "none", "null0", "nullnull", "nüll"]).to_string()),
        _ => {
            let inner = *s.pick(&["\\x", "\\u12", "\\u12g4", "\\ud800", "\\udc00", "\\ud800\\n", "\\ud800\\ud800", "\n", "\u{0}", "\u{1f}", "\t", "\\'", "\\U0041", "\\ud800x", "\\ud83d\\u0041", "\\u+123", "\\0"]);
            let (a, b) = (*s.pick(&["", "a", "é", " ", "1"]), *s.pick(&["", "b", "\u{10000}", " ", "1"]));
            ("ParseStringError", format!("\"{}{}{}\"", a, inner, b))
        }
    };
    let text = text.replace(&shown, &scalar);
    if parse_ref(&text).is_ok() {
        return Ok(());
    }
    cx.label(kind);
    cx.label_if(top, "alone");
    cx.case(true, || text.clone());
    let what = format!("Json::parse of {:?}", pbt::json_out::clip(&text, 600));
    match Json::parse(&text) {
        Ok(j) => Err(format!("{} gives {:?}", what, j)),
        Err(e) if name(&e.kind) != kind => Err(format!("{}: the error is {}, but {} is what is broken", what, e, scalar)),
        Err(e) => about(&what, &text, e),
    }
}

fn convert(found: &V) -> Option<Cause> {
    Some(Cause { kind: E::ConvertError, names: vec![found.kind().into()] })
}

fn c28_decode(s: &mut Src, cx: &mut Cx) -> Verdict {
    let v = gen::document(s);
    let text = gen::spell(s, &v);
    let j = v.to_json();
    cx.case_ref(true, &text);
    macro_rules! is {
        ( $t:ty, $want:expr ) => {
            let want: Option<Cause> = $want;
            let what = format!("{} as {}", pbt::json_out::clip(&text, 600), stringify!($t));
            says(&what, json::decode::<$t>(&text).map(|_| ()), want.as_ref())?;
            says(&what, j.convert::<$t>().map(|_| ()), want.as_ref())?;
        };
    }
    is!(String, if let V::Str(_) = v { None } else { convert(&v) });
    is!(bool, if let V::Bool(_) = v { None } else { convert(&v) });
    is!(f64, if let V::Num(_) = v { None } else { convert(&v) });
    is!(Option<bool>, if let V::Bool(_) | V::Null = v { None } else { convert(&v) });
    is!(Vec<Json>, if let V::Arr(_) = v { None } else { convert(&v) });
    is!(HashMap<String, Json>, if let V::Obj(_) = v { None } else { convert(&v) });
    is!(Vec<(String, Json)>, if let V::Obj(_) = v { None } else { convert(&v) });
    // the first element that does not fit
    let first = |a: &Vec<V>, fits: fn(&V) -> bool| a.iter().find(|x| !fits(x)).and_then(convert);
    is!(Vec<f64>, match &v {
        V::Arr(a) => first(a, |x| matches!(x, V::Num(_))),
        o => convert(o),
    });
    is!(Vec<String>, match &v {
        V::Arr(a) => first(a, |x| matches!(x, V::Str(_))),
        o => convert(o),
    });
    is!(Vec<Option<bool>>, match &v {
        V::Arr(a) => first(a, |x| matches!(x, V::Bool(_) | V::Null)),
        o => convert(o),
    });
    // the only member, and its key
    if let V::Obj(m) = &v {
        if m.len() == 1 {
            cx.label("one member");
            let (k, x) = &m[0];
            is!(HashMap<String, bool>, if let V::Bool(_) = x { None } else { convert(x) });
            is!(Vec<(String, bool)>, if let V::Bool(_) = x { None } else { convert(x) });
            if k.parse::<i64>().is_err() {
                let key = || Some(Cause { kind: E::ConvertError, names: vec![k.clone()] });
                is!(HashMap<i64, Json>, key());
                is!(Vec<(i64, Json)>, key());
            }
        }
    }
    Ok(())
}

/// Paths that are none.
fn c28_paths(s: &mut Src, cx: &mut Cx) -> Verdict {
    let v = gen::document(s);
    let text = gen::spell(s, &v);
    let mut p = gen::path(s, &v, 5);
    p.retain(|x| gen::expressible(&[x.clone()]));
    let bad = *s.pick(&["#", "#a", "#-1", "#99999999999999999999", "#1e1", "#0x1", "# 1", "#1 ", "#1_0", "##1"]);
    let at = s.below(p.len() as u64 + 1) as usize;
    let mut parts: Vec<String> = Vec::new();
    for (i, seg) in p.iter().enumerate() {
        if i == at {
            parts.push(bad.into());
        }
        if let Seg::Key(k) = seg {
            if k.ends_with('\\') || k.is_empty() {
                continue;
            }
        }
        parts.push(gen::spell_path(&[seg.clone()]));
    }
    if at == p.len() {
        parts.push(bad.into());
    }
    let path = parts.join(".");
    cx.label_if(parts.len() > 1, "among others");
    cx.case(true, || format!("{:?} in {}", path, text));
    let c = Cause { kind: E::PathSyntaxError, names: vec![bad[1..].to_string()] };
    let what = format!("the path {:?} in {}", path, pbt::json_out::clip(&text, 600));
    let mut j = v.to_json();
    says(&format!("get, {}", what), j.get(&path).map(|_| ()), Some(&c))?;
    says(&format!("set, {}", what), j.set(&path, 1).map(|_| ()), Some(&c))?;
    says(&format!("del, {}", what), j.del(&path).map(|_| ()), Some(&c))?;
    says(&format!("json::get, {}", what), json::get::<Json>(&text, &path), Some(&c))?;
    says(&format!("json::set, {}", what), json::set(&text, &path, 1), Some(&c))?;
    says(&format!("json::del, {}", what), json::del(&text, &path), Some(&c))
}

pub fn c28() -> Check {
    Check {
        id: "C28",
        rule: "every operation with arguments that may fail, at a place in a generated document; damaged texts; documents with one broken scalar; documents decoded as types they are not; paths with a part that is none. The kind of each error, the key, index or kind of value its message has to name, and how it is shown are compared with the reference. Non-trivial: the operation fails",
        assumptions: &["messages name a key, an index or a kind of value as it is, or quoted"],
        suites: vec![
            Suite { name: "operations", kind: Kind::Random { quick: 800_000, thorough: 12_000_000, f: c28_operations } },
            Suite { name: "texts", kind: Kind::Random { quick: 300_000, thorough: 6_000_000, f: c28_text } },
            Suite { name: "scalars", kind: Kind::Random { quick: 200_000, thorough: 4_000_000, f: c28_scalar } },
            Suite { name: "decoding", kind: Kind::Random { quick: 100_000, thorough: 2_000_000, f: c28_decode } },
            Suite { name: "bad-paths", kind: Kind::Random { quick: 100_000, thorough: 2_000_000, f: c28_paths } },
        ],
    }
}
