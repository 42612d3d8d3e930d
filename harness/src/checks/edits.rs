//! C14–C16, C26: histories of edits, duplicate keys, equality and copies.

use crate::gen;
use crate::model::*;
use json::{FromJson, Json, ToJson};
use pbt::run::Check;
use pbt::{Cx, Kind, Src, Suite, Verdict};
use std::collections::HashMap;

fn clip(t: &str) -> String {
    pbt::json_out::clip(t, 1500)
}

/// Both results agree: both fine, or the same kind of error.
fn agree(what: &str, want: Result<(), E>, got: Result<(), json::Error>) -> Verdict {
    match (want, got) {
        (Ok(()), Ok(())) => Ok(()),
        (Err(e), Err(g)) if kind_of(&g) == e => Ok(()),
        (w, g) => Err(format!("{}: {:?}, expected {:?}", what, g, w)),
    }
}

fn observe_object(v: &V, j: &Json, keys: &[String], what: &dyn Fn() -> String) -> Verdict {
    if V::of_json(j) != v.canon() {
        return expect(&what(), j, v);
    }
    for k in keys {
        match (v.merged(k), j.index_and_merge(k)) {
            (Ok(w), Ok(g)) if w.len() == g.len() && w.iter().zip(&g).all(|(a, b)| is(b, a)) => (),
            (Err(e), Err(g)) if kind_of(&g) == e => (),
            (w, g) => return Err(format!("{}: index_and_merge({:?}) gives {:?}, expected {:?}", what(), k, g, w)),
        }
        match (v.child(&Seg::Key(k.clone())), j.find(k)) {
            (Ok(w), Ok(g)) if is(g, w) => (),
            (Err(e), Err(g)) if kind_of(&g) == e => (),
            (w, g) => return Err(format!("{}: find({:?}) gives {:?}, expected {:?}", what(), k, g, w)),
        }
    }
    Ok(())
}

/// The calls take any ToString key and any ToJson value.
fn put(s: &mut Src, j: &mut Json, k: &str, x: &V, append: bool) -> Result<(), json::Error> {
    match (s.below(4), x) {
        (0, V::Str(t)) if append => j.append(k, t.as_str()),
        (0, V::Str(t)) => j.insert(k, t.as_str()),
        (0, V::Num(n)) if append => j.append(k.to_string(), *n),
        (0, V::Num(n)) => j.insert(k.to_string(), *n),
        (1, x) => j.add_option(k.to_string(), x.to_json(), append),
        (2, V::Bool(b)) if append => j.append(&k, b),
        (2, V::Bool(b)) => j.insert(&k, *b),
        (_, x) if append => j.append(k, x.to_json()),
        (_, x) => j.insert(k, x.to_json()),
    }
}

fn c14_history(s: &mut Src, cx: &mut Cx) -> Verdict {
    let mut v = match s.below(6) {
        0 => gen::document(s),
        1 => {
            let v = gen::document(s);
            if let V::Obj(_) = v {
                v
            } else {
                V::Obj(vec![])
            }
        }
        _ => V::Obj(vec![]),
    };
    let mut j = match s.below(3) {
        0 => v.to_json(),
        1 => super::text::build(s, &v),
        _ => {
            let t = gen::spell(s, &v);
            Json::parse(&t).map_err(|e| format!("{:?}: {}", t, e))?
        }
    };
    let mut keys: Vec<String> = s.vec(3, 5, gen::key);
    keys.push("a".into());
    if let V::Obj(m) = &v {
        keys.extend(m.iter().take(3).map(|x| x.0.clone()));
    }
    let mut log = vec![format!("start {}", show(&v))];
    let mut n = 0;
    let long = s.chance(1, 25);
    let (mut dup, mut gone) = (false, false);
    while s.more(n, if long { 150 } else { 10 }, if long { 600 } else { 40 }) {
        n += 1;
        let k = s.pick(&keys).clone();
        match s.weighted(&[4, 7, 2, 1, 1, 1]) {
            0 => {
                let x = gen::scalar_value(s);
                log.push(format!("insert({:?}, {})", k, show(&x)));
                gone |= v.merged(&k).map_or(false, |m| m.len() > 1);
                agree(&log.join("; "), v.insert(&k, x.clone()), put(s, &mut j, &k, &x, false))?;
            }
            1 => {
                let x = if s.chance(1, 6) { gen::value(s, gen::SMALL) } else { gen::scalar_value(s) };
                log.push(format!("append({:?}, {})", k, show(&x)));
                dup |= v.merged(&k).is_ok();
                agree(&log.join("; "), v.append(&k, x.clone()), put(s, &mut j, &k, &x, true))?;
            }
            2 => {
                log.push(format!("delete({:?})", k));
                gone |= v.merged(&k).is_ok();
                agree(&log.join("; "), v.delete(&k), j.delete(&k))?;
            }
            3 => {
                log.push(format!("discard({:?})", k));
                let p = [Seg::Key(k.clone())];
                match (v.del(&p), j.discard(&k)) {
                    (Ok(w), Ok(g)) => expect(&log.join("; "), &g, &w)?,
                    (Err(e), Err(g)) if kind_of(&g) == e => (),
                    (w, g) => return Err(format!("{}: {:?}, expected {:?}", log.join("; "), g, w)),
                }
            }
            4 => {
                if matches!(v, V::Obj(_)) {
                    let x = gen::scalar_value(s);
                    log.push(format!("update({:?}, {})", k, show(&x)));
                    v.set(&[Seg::Key(k.clone())], x.clone());
                    j.update(&k, x.to_json()).map_err(|e| format!("{}: {}", log.join("; "), e))?;
                }
            }
            _ => {
                // through a mutable reference: the newest value only
                let p = [Seg::Key(k.clone())];
                if v.at(&p).is_ok() {
                    let x = gen::scalar_value(s);
                    log.push(format!("[{:?}] = {}", k, show(&x)));
                    *v.at_mut(&p).unwrap() = x.clone();
                    j[k.as_str()] = x.to_json();
                }
            }
        }
        let full = n % 16 == 0 || n < 30;
        if full {
            observe_object(&v, &j, &keys, &|| log.join("; "))?;
        }
    }
    observe_object(&v, &j, &keys, &|| clip(&log.join("; ")))?;
    if j.to_string() != render_ref(&v) {
        return Err(format!("{}: rendered as {}, expected {}", clip(&log.join("; ")), clip(&j.to_string()), clip(&render_ref(&v))));
    }
    cx.extra_evals += n as u64;
    cx.label_if(dup, "a key got a second value");
    cx.label_if(gone, "values were dropped");
    cx.label_if(n >= 100, "a hundred steps or more");
    cx.label_if(!matches!(v, V::Obj(_)), "not an object");
    cx.case(n >= 2, || clip(&log.join("; ")));
    Ok(())
}

/// Every history of five operations on two keys.
fn c14_every(mut i: u64, cx: &mut Cx) -> Verdict {
    let mut v = V::Obj(vec![]);
    let mut j = json::Json::Object(Default::default());
    let keys = ["a".to_string(), "b".to_string()];
    let mut log = Vec::new();
    for step in 0..6 {
        let (op, k) = ((i % 8) / 2, &keys[(i % 2) as usize]);
        i /= 8;
        let x = V::Num(step as f64);
        match op {
            0 => {
                log.push(format!("append {}", k));
                agree(&log.join("; "), v.append(k, x.clone()), j.append(k, x.to_json()))?;
            }
            1 => {
                log.push(format!("insert {}", k));
                agree(&log.join("; "), v.insert(k, x.clone()), j.insert(k, x.to_json()))?;
            }
            2 => {
                log.push(format!("delete {}", k));
                agree(&log.join("; "), v.delete(k), j.delete(k))?;
            }
            _ => {
                log.push(format!("set {}", k));
                v.set(&[Seg::Key(k.clone())], x.clone());
                j.set(k, x.to_json()).map_err(|e| e.to_string())?;
            }
        }
        observe_object(&v, &j, &keys, &|| log.join("; "))?;
    }
    cx.case(true, || log.join("; "));
    Ok(())
}

/// A few edits of large objects.
fn c14_large(i: u64, cx: &mut Cx) -> Verdict {
    let n = [65, 257, 1_025, 2_049, 4_097, 9_000][i as usize % 6];
    let mut s = Src::random(i ^ 0xC14);
    // all keys different, or few with many values, or both
    let few = *s.pick(&[n, n, 1, 7, n / 2 + 1]);
    let key = |k: usize| format!("key{}", k % few);
    let mut v = V::Obj((0..n).map(|k| (key(k), V::Num(k as f64))).collect());
    let mut j = v.to_json();
    let mut log = vec![format!("{} values of {} keys", n, few)];
    for step in 0..8 {
        let k = key(s.below(n as u64 + 3) as usize);
        let k = if s.chance(1, 4) { format!("{}x", k) } else { k };
        let x = V::Num(-1.0 - step as f64);
        match s.below(5) {
            0 => {
                log.push(format!("append {}", k));
                agree(&log.join("; "), v.append(&k, x.clone()), j.append(&k, x.to_json()))?;
            }
            1 => {
                log.push(format!("insert {}", k));
                agree(&log.join("; "), v.insert(&k, x.clone()), j.insert(&k, x.to_json()))?;
            }
            2 => {
                log.push(format!("delete {}", k));
                agree(&log.join("; "), v.delete(&k), j.delete(&k))?;
            }
            3 => {
                log.push(format!("del {}", k));
                agree(&log.join("; "), v.del(&[Seg::Key(k.clone())]).map(|_| ()), j.del(&k).map(|_| ()))?;
            }
            _ => {
                log.push(format!("set {}", k));
                v.set(&[Seg::Key(k.clone())], x.clone());
                j.set(&k, x.to_json()).map_err(|e| e.to_string())?;
            }
        }
        expect(&log.join("; "), &j, &v)?;
    }
    cx.case(true, || log.join("; "));
    Ok(())
}

pub fn c14() -> Check {
    Check {
        id: "C14",
        rule: "histories of insert, append, add_option, delete, discard, update and assignment on objects (built, parsed or empty) and on other kinds, with few keys, checked after every step against an ordered multimap through the whole value, index_and_merge and find, and at the end through the text; all histories of six operations on two keys. Non-trivial: two steps or more",
        assumptions: &[],
        suites: vec![
            Suite { name: "history", kind: Kind::Random { quick: 480_000, thorough: 4_000_000, f: c14_history } },
            Suite { name: "every-history", kind: Kind::Enumerated { quick: 8u64.pow(6), thorough: 8u64.pow(6), f: c14_every } },
            Suite { name: "large", kind: Kind::Enumerated { quick: 6 * 40, thorough: 6 * 400, f: c14_large } },
        ],
    }
}

// ------------------------------------------------------------------------------------------ C15

fn c15_history(s: &mut Src, cx: &mut Cx) -> Verdict {
    let mut v = match s.below(6) {
        0 => gen::document(s),
        1 => V::Arr(s.vec(6, 40, gen::scalar_value)),
        _ => V::Arr(vec![]),
    };
    let mut j = match s.below(3) {
        0 => v.to_json(),
        1 => super::text::build(s, &v),
        _ => {
            let t = gen::spell(s, &v);
            Json::parse(&t).map_err(|e| format!("{:?}: {}", t, e))?
        }
    };
    let mut log = vec![format!("start {}", show(&v))];
    let mut n = 0;
    let long = s.chance(1, 25);
    let (mut took, mut put) = (0, 0);
    while s.more(n, if long { 150 } else { 12 }, if long { 600 } else { 50 }) {
        n += 1;
        let len = if let V::Arr(a) = &v { a.len() } else { 3 };
        let i = match s.below(8) {
            0 => len,
            1 => len + s.below(3) as usize,
            2 => 0,
            3 if len > 0 => len - 1,
            _ if len > 0 => s.below(len as u64) as usize,
            _ => 0,
        };
        let x = if s.chance(1, 8) { gen::value(s, gen::SMALL) } else { gen::scalar_value(s) };
        match s.weighted(&[6, 3, 3, 2, 2, 1]) {
            0 => {
                log.push(format!("push({})", show(&x)));
                put += 1;
                let got = match (s.below(2), &x) {
                    (0, V::Str(t)) => j.push(t.as_str()),
                    (0, V::Num(f)) => j.push(*f),
                    (_, x) => j.push(x.to_json()),
                };
                agree(&log.join("; "), v.push(x.clone()), got)?;
            }
            1 => {
                log.push(format!("replace({}, {})", i, show(&x)));
                let got = match (s.below(2), &x) {
                    (0, V::Str(t)) => j.replace(i, t.as_str()),
                    (_, x) => j.replace(i, x.to_json()),
                };
                agree(&log.join("; "), v.replace(i, x.clone()), got)?;
            }
            2 => {
                log.push(format!("remove({})", i));
                took += 1;
                agree(&log.join("; "), v.remove(i), j.remove(i))?;
            }
            3 => {
                log.push(format!("discard({})", i));
                took += 1;
                match (v.del(&[Seg::Index(i)]), j.discard(i)) {
                    (Ok(w), Ok(g)) => expect(&log.join("; "), &g, &w)?,
                    (Err(e), Err(g)) if kind_of(&g) == e => (),
                    (w, g) => return Err(format!("{}: {:?}, expected {:?}", log.join("; "), g, w)),
                }
            }
            4 => {
                if matches!(v, V::Arr(_)) {
                    log.push(format!("update({}, {})", i, show(&x)));
                    v.set(&[Seg::Index(i)], x.clone());
                    j.update(i, x.to_json()).map_err(|e| format!("{}: {}", log.join("; "), e))?;
                }
            }
            _ => {
                if v.child(&Seg::Index(i)).is_ok() {
                    log.push(format!("[{}] = {}", i, show(&x)));
                    *v.child_mut(&Seg::Index(i)).unwrap() = x.clone();
                    j[i] = x.to_json();
                }
            }
        }
        if (n < 40 || n % 8 == 0) && V::of_json(&j) != v.canon() {
            return expect(&log.join("; "), &j, &v);
        }
    }
    expect(&clip(&log.join("; ")), &j, &v)?;
    if j.to_string() != render_ref(&v) {
        return Err(format!("{}: rendered as {}, expected {}", clip(&log.join("; ")), clip(&j.to_string()), clip(&render_ref(&v))));
    }
    // element by element
    if let V::Arr(a) = &v {
        for (i, x) in a.iter().enumerate().take(60) {
            match j.find(i) {
                Ok(g) if is(g, x) => (),
                o => return Err(format!("{}: find({}) gives {:?}", clip(&log.join("; ")), i, o)),
            }
        }
        if j.find(a.len()).is_ok() {
            return Err(format!("{}: find({}) beyond the end", clip(&log.join("; ")), a.len()));
        }
    }
    cx.extra_evals += n as u64;
    cx.label_if(took > 0 && put > 0, "elements came and went");
    cx.label_if(n >= 100, "a hundred steps or more");
    cx.label_if(!matches!(v, V::Arr(_)), "not an array");
    cx.case(n >= 2, || clip(&log.join("; ")));
    Ok(())
}

fn c15_every(mut i: u64, cx: &mut Cx) -> Verdict {
    let mut v = V::Arr(vec![]);
    let mut j = json::Json::Array(vec![]);
    let mut log = Vec::new();
    for step in 0..6 {
        let op = i % 8;
        i /= 8;
        let x = V::Num(step as f64);
        match op {
            0 | 1 => {
                log.push("push".to_string());
                agree(&log.join("; "), v.push(x.clone()), j.push(x.to_json()))?;
            }
            2..=4 => {
                let k = op as usize - 2;
                log.push(format!("remove {}", k));
                agree(&log.join("; "), v.remove(k), j.remove(k))?;
            }
            5 | 6 => {
                let k = op as usize - 5;
                log.push(format!("replace {}", k));
                agree(&log.join("; "), v.replace(k, x.clone()), j.replace(k, x.to_json()))?;
            }
            _ => {
                log.push("set #2".to_string());
                v.set(&[Seg::Index(2)], x.clone());
                j.set("#2", x.to_json()).map_err(|e| e.to_string())?;
            }
        }
        expect(&log.join("; "), &j, &v)?;
    }
    cx.case(true, || log.join("; "));
    Ok(())
}

const LARGE: [usize; 6] = [65, 257, 1_025, 2_049, 4_097, 20_000];

/// A few edits of large arrays.
fn c15_large(i: u64, cx: &mut Cx) -> Verdict {
    let n = LARGE[i as usize % LARGE.len()];
    let mut s = Src::random(i ^ 0xC15);
    let mut v = V::Arr((0..n).map(|k| if k % 4 == 3 { V::Null } else { V::Num(k as f64) }).collect());
    let mut j = v.to_json();
    let mut log = vec![format!("{} elements", n)];
    for step in 0..8 {
        let len = match &v {
            V::Arr(a) => a.len(),
            _ => 0,
        };
        let k = *s.pick(&[0, 1, 7, len / 2, len - 2, len - 1, len, len + 1, 2 * len]);
        let x = V::Num(-1.0 - step as f64);
        match s.below(6) {
            0 => {
                log.push("push".to_string());
                agree(&log.join("; "), v.push(x.clone()), j.push(x.to_json()))?;
            }
            1 | 2 => {
                log.push(format!("remove {}", k));
                agree(&log.join("; "), v.remove(k), j.remove(k))?;
            }
            3 => {
                log.push(format!("replace {}", k));
                agree(&log.join("; "), v.replace(k, x.clone()), j.replace(k, x.to_json()))?;
            }
            4 => {
                log.push(format!("discard {}", k));
                agree(&log.join("; "), v.del(&[Seg::Index(k)]).map(|_| ()), j.discard(k).map(|_| ()))?;
            }
            _ => {
                log.push(format!("update {}", k));
                v.set(&[Seg::Index(k)], x.clone());
                j.update(k, x.to_json()).map_err(|e| e.to_string())?;
            }
        }
        expect(&log.join("; "), &j, &v)?;
    }
    cx.case(true, || log.join("; "));
    Ok(())
}

pub fn c15() -> Check {
    Check {
        id: "C15",
        rule: "histories of push, replace, remove, discard, update and assignment on arrays (built, parsed or empty) and on other kinds, with indices within, at and beyond the end, checked after every step against a sequence; all histories of six operations of eight; histories of eight edits on arrays of 65 to 20000 elements. Non-trivial: two steps or more",
        assumptions: &[],
        suites: vec![
            Suite { name: "history", kind: Kind::Random { quick: 600_000, thorough: 4_000_000, f: c15_history } },
            Suite { name: "every-history", kind: Kind::Enumerated { quick: 8u64.pow(6), thorough: 8u64.pow(6), f: c15_every } },
            Suite { name: "large", kind: Kind::Enumerated { quick: 6 * 40, thorough: 6 * 400, f: c15_large } },
        ],
    }
}

// ------------------------------------------------------------------------------------------ C16

/// Pairs with few keys, each value numbered.
fn pairs(s: &mut Src) -> Vec<(String, V)> {
    let mut keys: Vec<String> = s.vec(2, 4, gen::key);
    keys.push("name".into());
    if s.chance(1, 40) {
        let n = *s.pick(&[13u64, 15, 16, 17, 29, 33, 57, 65, 113, 129]);
        keys.extend((0..n).map(|i| format!("k{}", i)));
    }
    let many = s.chance(1, 30);
    let mut m: Vec<(String, V)> = Vec::new();
    while s.more(m.len(), if many { 120 } else { 6 }, if many { 700 } else { 24 }) {
        let k = s.pick(&keys).clone();
        let x = if s.chance(1, 4) { gen::value(s, gen::SMALL) } else { V::Num(m.len() as f64) };
        m.push((k, x));
    }
    m
}

fn c16_everywhere(s: &mut Src, cx: &mut Cx) -> Verdict {
    let m = pairs(s);
    let v = V::Obj(m.clone());
    let c = match v.canon() {
        V::Obj(c) => c,
        _ => unreachable!(),
    };
    cx.label_if(v.has_duplicates(), "duplicate keys");
    cx.label_if(m.len() > 50, "over fifty members");
    cx.case(v.has_duplicates(), || show(&v));
    // the ways in
    let text = gen::spell(s, &v);
    let parsed = Json::parse(&text).map_err(|e| format!("{:?}: {}", clip(&text), e))?;
    let mut appended = json::Json::Object(Default::default());
    for (k, x) in &m {
        appended.append(k, x.to_json()).map_err(|e| e.to_string())?;
    }
    let list: Vec<(String, Json)> = m.iter().map(|(k, x)| (k.clone(), x.to_json())).collect();
    let from_vec = list.to_json();
    let from_slice = (&list[..]).to_json();
    let strs: Vec<(&str, Json)> = m.iter().map(|(k, x)| (&k[..], x.to_json())).collect();
    let from_strs = strs.to_json();
    for (how, j) in [("parsed", &parsed), ("appended", &appended), ("from Vec", &from_vec), ("from slice", &from_slice), ("from &str pairs", &from_strs)] {
        let what = |w: &str| format!("{}: {} of {}", how, w, show(&v));
        expect(&what("value"), j, &v)?;
        // the ways out
        if j.to_string() != render_ref(&v) {
            return Err(format!("{}: {:?}", what("text"), clip(&j.to_string())));
        }
        let mut back = <Vec<(String, Json)>>::from_json(j).map_err(|e| format!("{}: {}", what("pairs"), e))?;
        back.sort_by(|a, b| a.0.cmp(&b.0));
        if back.len() != c.len() || !back.iter().zip(&c).all(|(a, b)| a.0 == b.0 && is(&a.1, &b.1)) {
            return Err(format!("{}: {:?}", what("pairs"), back));
        }
        let map = <HashMap<String, Json>>::from_json(j).map_err(|e| format!("{}: {}", what("map"), e))?;
        let mut keys: Vec<&String> = c.iter().map(|x| &x.0).collect();
        keys.dedup();
        if map.len() != keys.len() {
            return Err(format!("{}: {:?}", what("map"), map));
        }
        for k in keys {
            let all = v.merged(k).unwrap();
            let newest = all.last().unwrap();
            if !is(&map[k], newest) {
                return Err(format!("{}: the map has {:?} under {:?}", what("map"), map[k], k));
            }
            match j.index_and_merge(k) {
                Ok(g) if g.len() == all.len() && g.iter().zip(&all).all(|(a, b)| is(a, b)) => (),
                o => return Err(format!("{}: {:?} under {:?}", what("index_and_merge"), o, k)),
            }
            match j.find(k) {
                Ok(g) if is(g, newest) => (),
                o => return Err(format!("{}: {:?} under {:?}", what("find"), o, k)),
            }
            if !is(&j[k.as_str()], newest) {
                return Err(format!("{} under {:?}", what("index"), k));
            }
            if gen::expressible(&[Seg::Key(k.clone())]) {
                match j.get(&gen::spell_path(&[Seg::Key(k.clone())])) {
                    Ok(g) if is(g, newest) => (),
                    o => return Err(format!("{}: {:?} under {:?}", what("get"), o, k)),
                }
            }
        }
        let again = Json::parse(&j.to_string()).map_err(|e| format!("{}: {}", what("reparse"), e))?;
        expect(&what("reparse"), &again, &v)?;
    }
    Ok(())
}

/// What edits do to the values of one key, and only of that key.
fn c16_edits(s: &mut Src, cx: &mut Cx) -> Verdict {
    let mut v = V::Obj(pairs(s));
    let mut j = v.to_json();
    // inside something, sometimes
    let pre: Vec<Seg> = match s.below(3) {
        0 => vec![Seg::Key("in".into())],
        1 => vec![Seg::Index(1)],
        _ => vec![],
    };
    if let Some(seg) = pre.first() {
        v = match seg {
            Seg::Key(k) => V::Obj(vec![("out".into(), V::Null), (k.clone(), V::s("older")), (k.clone(), v)]),
            Seg::Index(_) => V::Arr(vec![V::Bool(false), v]),
        };
        j = v.to_json();
    }
    let here = v.at(&pre).unwrap().clone();
    let k = match &here {
        V::Obj(m) if !m.is_empty() && !s.chance(1, 8) => s.pick(m).0.clone(),
        _ => gen::key(s),
    };
    let x = gen::scalar_value(s);
    let several = here.merged(&k).map_or(false, |m| m.len() > 1);
    cx.label_if(several, "key with several values");
    let p = [&pre[..], &[Seg::Key(k.clone())]].concat();
    let op = s.below(8);
    let what = format!("operation {} on {:?} with {} in {}", op, k, show(&x), show(&v));
    cx.case(several, || what.clone());
    macro_rules! target {
        () => {
            if pre.is_empty() {
                &mut j
            } else {
                j.find_mut(to_path(&pre)).map_err(|e| e.to_string())?
            }
        };
    }
    match op {
        0 => {
            v.at_mut(&pre).unwrap().insert(&k, x.clone()).unwrap();
            target!().insert(&k, x.to_json()).map_err(|e| e.to_string())?;
        }
        1 => {
            v.at_mut(&pre).unwrap().append(&k, x.clone()).unwrap();
            target!().append(&k, x.to_json()).map_err(|e| e.to_string())?;
        }
        2 => {
            v.at_mut(&pre).unwrap().delete(&k).unwrap();
            target!().delete(&k).map_err(|e| e.to_string())?;
        }
        3 | 4 => {
            v.set(&p, x.clone());
            if op == 3 || !gen::expressible(&p) {
                j.update(to_path(&p), x.to_json()).map_err(|e| e.to_string())?;
            } else {
                j.set(&gen::spell_path(&p), x.to_json()).map_err(|e| e.to_string())?;
            }
        }
        5 => match (v.del(&p), j.discard(to_path(&p))) {
            (Ok(w), Ok(g)) => expect(&what, &g, &w)?,
            (Err(e), Err(g)) if kind_of(&g) == e => (),
            (w, g) => return Err(format!("{}: {:?}, expected {:?}", what, g, w)),
        },
        6 => {
            // below the newest value: the older ones stay
            let deeper = [&p[..], &[Seg::Key("deeper".into())]].concat();
            v.set(&deeper, x.clone());
            j.update(to_path(&deeper), x.to_json()).map_err(|e| e.to_string())?;
        }
        _ => {
            if v.at(&p).is_ok() {
                *v.at_mut(&p).unwrap() = x.clone();
                *j.find_mut(to_path(&p)).map_err(|e| e.to_string())? = x.to_json();
            }
        }
    }
    expect(&what, &j, &v)?;
    if j.to_string() != render_ref(&v) {
        return Err(format!("{}: rendered as {:?}", what, clip(&j.to_string())));
    }
    Ok(())
}

pub fn c16() -> Check {
    Check {
        id: "C16",
        rule: "objects whose keys repeat (up to 700 members of 5 keys), made by parsing, appending and from pair lists, read through find, index, get, index_and_merge, pairs, maps and text; then single edits of such keys. Non-trivial: a key has several values",
        assumptions: &["the order between different keys of decoded pairs is free"],
        suites: vec![
            Suite { name: "everywhere", kind: Kind::Random { quick: 150_000, thorough: 3_000_000, f: c16_everywhere } },
            Suite { name: "edits", kind: Kind::Random { quick: 450_000, thorough: 8_000_000, f: c16_edits } },
        ],
    }
}

// ------------------------------------------------------------------------------------------ C26

fn equal_by_value(a: &V, b: &V) -> bool {
    // as ==: numbers as numbers
    match (a, b) {
        (V::Num(x), V::Num(y)) => x == y,
        (V::Arr(x), V::Arr(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| equal_by_value(p, q)),
        (V::Obj(x), V::Obj(y)) => {
            x.len() == y.len() && x.iter().zip(y).all(|(p, q)| p.0 == q.0 && equal_by_value(&p.1, &q.1))
        }
        (a, b) => a == b,
    }
}

fn c26_equality(s: &mut Src, cx: &mut Cx) -> Verdict {
    let v = match s.below(100) {
        0 => gen::large(s),
        1 | 2 => V::Obj(pairs(s)),
        _ => gen::document(s),
    };
    cx.label_if(v.nodes() > 100, "over a hundred nodes");
    // another value: the same in another order, changed in one place, or anything
    let w = match s.below(4) {
        0 => super::text::shuffled(s, &v),
        1 => gen::document(s),
        _ => {
            let mut w = super::text::shuffled(s, &v);
            let p = gen::path(s, &w, 1);
            match s.below(6) {
                0 => w.set(&p, gen::scalar_value(s)),
                1 => {
                    let _ = w.del(&p);
                }
                // any member, not only the newest of its key
                4 | 5 => match w.at_mut(&p[..p.len() - 1]) {
                    Ok(V::Obj(m)) if !m.is_empty() => {
                        let i = s.below(m.len() as u64) as usize;
                        match s.below(3) {
                            0 => m[i].1 = gen::scalar_value(s),
                            1 => drop(m.remove(i)),
                            _ => {
                                let k = s.below(m.len() as u64) as usize;
                                m.swap(i, k);
                            }
                        }
                    }
                    Ok(V::Arr(a)) if !a.is_empty() => {
                        let i = s.below(a.len() as u64) as usize;
                        match s.below(3) {
                            0 => a[i] = gen::scalar_value(s),
                            1 => drop(a.remove(i)),
                            _ => a.push(V::Null),
                        }
                    }
                    _ => (),
                },
                2 => {
                    if let Ok(V::Obj(m)) = w.at_mut(&p[..p.len() - 1]) {
                        if let Some(x) = m.first().cloned() {
                            m.push(x);
                        }
                    }
                }
                _ => {
                    if let Ok(V::Arr(a)) = w.at_mut(&p[..p.len() - 1]) {
                        a.reverse();
                    }
                }
            }
            w
        }
    };
    let want = equal_by_value(&v.canon(), &w.canon());
    cx.label(if want { "equal" } else { "different" });
    cx.case(v.nodes() > 1, || format!("{} and {}", show(&v), show(&w)));
    let text = gen::spell(s, &w);
    let (a, b, c) = (v.to_json(), super::text::build(s, &w), Json::parse(&text).map_err(|e| format!("{:?}: {}", clip(&text), e))?);
    if b != c || c != b || b != w.to_json() {
        return Err(format!("{} built and parsed is not equal", show(&w)));
    }
    for x in [&b, &c] {
        if (a == *x) != want || (*x == a) != want || (a != *x) == want {
            return Err(format!("{} == {} gives {}, expected {}", show(&v), show(&w), a == *x, want));
        }
    }
    if a != a.clone() {
        return Err(format!("{} is not equal to its clone", show(&v)));
    }
    Ok(())
}

/// A clone, or to_json of a Json, shares nothing with the original.
fn c26_copies(s: &mut Src, cx: &mut Cx) -> Verdict {
    let v = gen::document(s);
    let mut original = super::text::build(s, &v);
    let mut copy = match s.below(3) {
        0 => original.clone(),
        1 => original.to_json(),
        _ => Json::from_json(&original).map_err(|e| e.to_string())?,
    };
    expect("the copy", &copy, &v)?;
    let p = gen::path(s, &v, 4);
    let x = gen::scalar_value(s);
    let mut w = v.clone();
    let edited = s.flag();
    cx.case(v.is_container(), || format!("{} edited at {}", show(&v), show_segs(&p)));
    {
        let j = if edited { &mut copy } else { &mut original };
        match s.below(4) {
            0 => {
                let _ = w.del(&p);
                let _ = j.discard(to_path(&p));
            }
            1 => {
                let _ = w.append("a", x.clone());
                let _ = j.append("a", x.to_json());
            }
            2 => {
                let _ = w.push(x.clone());
                let _ = j.push(x.to_json());
            }
            _ => {
                w.set(&p, x.clone());
                j.update(to_path(&p), x.to_json()).map_err(|e| e.to_string())?;
            }
        }
    }
    let (changed, untouched) = if edited { (&copy, &original) } else { (&original, &copy) };
    expect("the edited one", changed, &w)?;
    expect("the other one", untouched, &v)
}

pub fn c26() -> Check {
    Check {
        id: "C26",
        rule: "pairs of values (the same members in another order, one edit apart, or unrelated), built by API calls and parsed, compared with ==; copies edited, both sides compared with a model. Non-trivial: more than one node",
        assumptions: &["no NaN"],
        suites: vec![
            Suite { name: "equality", kind: Kind::Random { quick: 800_000, thorough: 10_000_000, f: c26_equality } },
            Suite { name: "copies", kind: Kind::Random { quick: 600_000, thorough: 8_000_000, f: c26_copies } },
        ],
    }
}
