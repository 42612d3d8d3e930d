//! C10–C13, C17, C19: paths, lookups, edits by path, failed operations, one-shot functions.

use crate::gen;
use crate::model::*;
use json::{Json, ToJson};
use pbt::run::Check;
use pbt::{no_panic, Cx, Kind, Src, Suite, Verdict};

fn clip(t: &str) -> String {
    pbt::json_out::clip(t, 1500)
}

fn want_err<T: std::fmt::Debug>(what: &str, got: Result<T, json::Error>, want: E) -> Verdict {
    match got {
        Err(e) if kind_of(&e) == want => Ok(()),
        Err(e) => Err(format!("{}: the error is {:?} ({}), expected {:?}", what, e.kind, e.msg, want)),
        Ok(x) => Err(format!("{}: succeeds with {:?}, expected {:?}", what, x, want)),
    }
}

fn expressible_path(s: &mut Src, v: &V, stray: u64) -> Vec<Seg> {
    let mut p = gen::path(s, v, stray);
    let n = p.len();
    for (i, seg) in p.iter_mut().enumerate() {
        if let Seg::Key(k) = seg {
            if k.ends_with('\\') && i + 1 < n {
                k.push('x');
            }
            if k.is_empty() && n == 1 {
                k.push('e');
            }
        }
    }
    p
}

// ------------------------------------------------------------------------------------------ C10

/// A sequence of keys and indices, spelled, means exactly that sequence.
fn means(p: &[Seg], text: &str) -> Verdict {
    // set makes the whole path visible in what it builds
    let mark = V::s("here");
    let mut want = V::Null;
    want.set(p, mark.clone());
    let mut j = Json::Null;
    match j.set(text, "here") {
        Ok(_) => (),
        Err(e) => return Err(format!("set({:?}) fails: {}", clip(text), e)),
    }
    expect(&format!("null after set({:?}), the path {}", clip(text), clip(&show_segs(p))), &j, &want)?;
    match j.get(text) {
        Ok(x) => expect(&format!("get({:?})", clip(text)), x, &mark)?,
        Err(e) => return Err(format!("get({:?}) on {} fails: {}", clip(text), show(&want), e)),
    }
    match j.find(to_path(p)) {
        Ok(x) => expect("find by the sequence", x, &mark)?,
        Err(e) => return Err(format!("find({}) on {} fails: {}", clip(&show_segs(p)), show(&want), e)),
    }
    match j.del(text) {
        Ok(x) => expect(&format!("del({:?})", clip(text)), &x, &mark)?,
        Err(e) => return Err(format!("del({:?}) on {} fails: {}", clip(text), show(&want), e)),
    }
    want.del(p).unwrap();
    expect(&format!("after del({:?})", clip(text)), &j, &want)
}

fn c10_spelled(s: &mut Src, cx: &mut Cx) -> Verdict {
    let mut p = Vec::new();
    let big = s.chance(1, 50);
    while p.is_empty() || s.more(p.len(), if big { 30 } else { 2 }, if big { 100 } else { 8 }) {
        p.push(match s.below(4) {
            0 => Seg::Index(*s.pick(&[0usize, 1, 2, 3, 9, 10, 11, 25, 100])),
            1 => {
                // keys with the characters that mean something in a path
                let mut k = String::new();
                let mut n = 0;
                while s.more(n, 3, 8) {
                    k.push(*s.pick(&['.', '#', '\\', 'a', '0', '1', ' ', '"', '/', '[', '-', '+', 'é']));
                    n += 1;
                }
                Seg::Key(k)
            }
            _ => Seg::Key(gen::key(s)),
        });
    }
    let n = p.len();
    for (i, seg) in p.iter_mut().enumerate() {
        if let Seg::Key(k) = seg {
            if (k.ends_with('\\') && i + 1 < n) || (k.is_empty() && n == 1) {
                k.push('x');
            }
        }
    }
    assert!(gen::expressible(&p));
    let text = gen::spell_path(&p);
    let special = |k: &String| k.contains('.') || k.contains('\\') || k.contains('#');
    cx.label_if(p.iter().any(|x| matches!(x, Seg::Key(k) if special(k))), "key with . # or \\");
    cx.label_if(p.iter().any(|x| matches!(x, Seg::Index(_))), "index");
    cx.label_if(p.len() >= 3, "three segments or more");
    cx.case(p.len() > 1 || text.len() > 1, || format!("{:?} for {}", text, show_segs(&p)));
    means(&p, &text)
}

/// Keys of one document differing only in path punctuation are told apart.
fn c10_apart(s: &mut Src, cx: &mut Cx) -> Verdict {
    let mut m: Vec<(String, V)> = Vec::new();
    let base = ["a", "b", "0", "1"];
    while s.more(m.len(), 6, 14) {
        let mut k = String::new();
        let mut n = 0;
        while s.more(n, 3, 6) {
            k += *s.pick(&[".", "#", "\\", "a", "0", "\\.", ".#0", "\\#"]);
            n += 1;
        }
        if k.ends_with('\\') {
            k += s.pick(&base);
        }
        if m.iter().any(|x| x.0 == k) {
            continue;
        }
        let inner = V::Arr(vec![V::Num(m.len() as f64), V::Obj(vec![(k.clone(), V::s("in")), ("a".into(), V::s("a"))])]);
        m.push((k, inner));
    }
    let v = V::Obj(m.clone());
    let j = v.to_json();
    cx.case(m.len() > 1, || show(&v));
    for (k, _) in &m {
        for p in [
            vec![Seg::Key(k.clone()), Seg::Index(0)],
            vec![Seg::Key(k.clone()), Seg::Index(1), Seg::Key(k.clone())],
        ] {
            let text = gen::spell_path(&p);
            match j.get(&text) {
                Ok(x) => expect(&format!("get({:?}) for {} in {}", text, show_segs(&p), show(&v)), x, v.at(&p).unwrap())?,
                Err(e) => return Err(format!("get({:?}) for {} in {}: {}", text, show_segs(&p), show(&v), e)),
            }
        }
    }
    Ok(())
}

/// Any text: it means what the reference says, or is refused by all three, touching nothing.
fn judge_path_text(text: &str, cx: &mut Cx) -> Verdict {
    match gen::parse_path_ref(text) {
        None => {
            cx.label("not specified");
            Ok(())
        }
        Some(Err(_)) => {
            cx.label("syntax error");
            cx.case_ref(true, text);
            for v in [V::Null, V::Obj(vec![("a".into(), V::Arr(vec![V::Num(1.0)]))]), V::Arr(vec![V::Obj(vec![])])] {
                let mut j = v.to_json();
                want_err(&format!("get({:?})", text), j.get(text), E::PathSyntaxError)?;
                want_err(&format!("set({:?})", text), j.set(text, 1).map(|_| ()), E::PathSyntaxError)?;
                want_err(&format!("del({:?})", text), j.del(text), E::PathSyntaxError)?;
                expect(&format!("after the refused path {:?}", text), &j, &v)?;
            }
            want_err(&format!("json::get {:?}", text), json::get::<Json>("{\"a\": 1}", text), E::PathSyntaxError)?;
            want_err(&format!("json::set {:?}", text), json::set("{\"a\": 1}", text, 1), E::PathSyntaxError)?;
            want_err(&format!("json::del {:?}", text), json::del("{\"a\": 1}", text), E::PathSyntaxError)
        }
        Some(Ok(p)) => {
            let big = p.iter().any(|x| matches!(x, Seg::Index(i) if *i > 2000));
            cx.label(if big { "well-formed, large index" } else { "well-formed" });
            cx.case_ref(true, text);
            if big {
                // too large to build: nothing is found there
                let v = V::Arr(vec![V::Null]);
                let mut j = v.to_json();
                let want = v.at(&p).map(|_| ()).unwrap_err();
                want_err(&format!("get({:?})", text), j.get(text), want)?;
                want_err(&format!("del({:?})", text), j.del(text), want)?;
                return Ok(());
            }
            means(&p, text)
        }
    }
}

const PATHCHARS: [&str; 8] = [".", "\\", "#", "a", "0", "1", "-", " "];

fn c10_every(mut i: u64, cx: &mut Cx) -> Verdict {
    let mut len = 0;
    while i >= 8u64.pow(len) {
        i -= 8u64.pow(len);
        len += 1;
    }
    let mut t = String::new();
    for _ in 0..len {
        t += PATHCHARS[(i % 8) as usize];
        i /= 8;
    }
    judge_path_text(&t, cx)
}

fn c10_texts(s: &mut Src, cx: &mut Cx) -> Verdict {
    let t = super::text::any_path_text(s);
    judge_path_text(&t, cx)
}

fn c10_long(i: u64, cx: &mut Cx) -> Verdict {
    let n = i as usize / 3 + 1;
    let p: Vec<Seg> = (0..n)
        .map(|k| match (i % 3, k % 3) {
            (0, _) => Seg::Key("a".into()),
            (1, 0) | (2, 2) => Seg::Index(k % 2),
            (1, 1) => Seg::Key("#0".into()),
            (2, 0) => Seg::Key("\\".into()).clone(),
            _ => Seg::Key(format!("k.{}", k)),
        })
        .map(|s| if s == Seg::Key("\\".into()) { Seg::Key("\\x".into()) } else { s })
        .collect();
    let text = gen::spell_path(&p);
    cx.case(true, || format!("{} segments", n));
    means(&p, &text)
}

pub fn c10() -> Check {
    let upto = |n: u32| (0..=n).map(|k| 8u64.pow(k)).sum::<u64>();
    Check {
        id: "C10",
        rule: "sequences of keys and indices spelled as path text, checked through the structure that set builds from nothing, get, find and del; documents whose keys differ in path punctuation; every text up to 6 (thorough: 8) characters of . \\ # a 0 1 - space, and random ones, against a reference reader of path text. Non-trivial: more than one segment or character, and specified",
        assumptions: &[
            "a key ending in a backslash before another segment, and the lone empty key, have no path text",
            "segments starting with a backslash before anything but # \\ . and `#+1` are not specified",
        ],
        suites: vec![
            Suite { name: "spelled", kind: Kind::Random { quick: 750_000, thorough: 10_000_000, f: c10_spelled } },
            Suite { name: "apart", kind: Kind::Random { quick: 240_000, thorough: 4_000_000, f: c10_apart } },
            Suite { name: "every-text", kind: Kind::Enumerated { quick: upto(6), thorough: upto(8), f: c10_every } },
            Suite { name: "long", kind: Kind::Enumerated { quick: 512 * 3, thorough: 512 * 3, f: c10_long } },
            Suite { name: "texts", kind: Kind::Random { quick: 600_000, thorough: 8_000_000, f: c10_texts } },
        ],
    }
}

// ------------------------------------------------------------------------------------------ C11

/// Every way to look something up gives `want`.
fn looked_up(v: &V, j: &mut Json, p: &[Seg]) -> Verdict {
    let want = v.at(p);
    let what = |how: &str| format!("{} at {} in {}", how, show_segs(p), show(v));
    macro_rules! judge {
        ( $how:expr, $got:expr ) => {
            match (&want, $got) {
                (Ok(w), Ok(x)) => expect(&what($how), x, w)?,
                (Err(e), got) => want_err(&what($how), got.map(|x| V::of_json(x)), *e)?,
                (Ok(w), Err(e)) => return Err(format!("{}: {} ({:?}), expected {}", what($how), e, e.kind, show(w))),
            }
        };
    }
    judge!("find", j.find(to_path(p)));
    judge!("find_mut", j.find_mut(to_path(p)).map(|x| &*x));
    if gen::expressible(p) {
        let text = gen::spell_path(p);
        judge!("get", j.get(&text));
        let doc = render_ref(v);
        match (&want, json::get::<Json>(&doc, &text)) {
            (Ok(w), Ok(x)) => expect(&what("json::get"), &x, w)?,
            (Err(e), got) => want_err(&what("json::get"), got, *e)?,
            (Ok(_), Err(e)) => return Err(format!("{}: {}", what("json::get"), e)),
        }
    }
    if p.len() == 1 {
        match &p[0] {
            Seg::Key(k) => {
                judge!("find by &str", j.find(k.as_str()));
                judge!("find by &String", j.find(k));
                judge!("find by String", j.find(k.clone()));
            }
            Seg::Index(i) => {
                judge!("find by usize", j.find(*i));
                judge!("find by &usize", j.find(i));
            }
        }
    }
    // the index operators: the same element, or a panic
    let got = no_panic(|| {
        let mut x: &Json = j;
        for s in p {
            x = match s {
                Seg::Key(k) => &x[k.as_str()],
                Seg::Index(i) => &x[*i],
            };
        }
        V::of_json(x)
    });
    match (&want, got) {
        (Ok(w), Ok(x)) if x == w.canon() => (),
        (Err(_), Err(_)) => (),
        (_, got) => return Err(format!("{}: {:?}", what("indexing"), got)),
    }
    let got = no_panic(|| {
        let mut x: &mut Json = j;
        for s in p {
            x = match s {
                Seg::Key(k) => &mut x[k.as_str()],
                Seg::Index(i) => &mut x[*i],
            };
        }
        V::of_json(x)
    });
    match (&want, got) {
        (Ok(w), Ok(x)) if x == w.canon() => (),
        (Err(_), Err(_)) => (),
        (_, got) => return Err(format!("{}: {:?}", what("mutable indexing"), got)),
    }
    expect("the value looked into", j, v)
}

fn c11_lookup(s: &mut Src, cx: &mut Cx) -> Verdict {
    let v = if s.chance(1, 100) { gen::large(s) } else { gen::document(s) };
    let p = gen::path(s, &v, 2);
    match v.at(&p) {
        Ok(_) => cx.label("found"),
        Err(E::MissingKey) => cx.label("missing key"),
        Err(E::IndexOutOfRange) => cx.label("index out of range"),
        Err(_) => cx.label("wrong kind on the way"),
    }
    cx.label_if(p.len() >= 3, "three segments or more");
    cx.case(v.is_container(), || format!("{} in {}", show_segs(&p), show(&v)));
    let mut j = if s.flag() { v.to_json() } else { super::text::build(s, &v) };
    looked_up(&v, &mut j, &p)
}

/// Every element of a document is found where it is.
fn c11_all(s: &mut Src, cx: &mut Cx) -> Verdict {
    let v = gen::document(s);
    cx.case(v.nodes() > 2, || show(&v));
    let mut j = v.to_json();
    let mut stack: Vec<Vec<Seg>> = vec![vec![]];
    let mut n = 0;
    while let Some(p) = stack.pop() {
        if let Ok(x) = v.at(&p) {
            match x {
                V::Arr(a) => (0..a.len()).for_each(|i| stack.push([&p[..], &[Seg::Index(i)]].concat())),
                V::Obj(m) => m.iter().for_each(|(k, _)| stack.push([&p[..], &[Seg::Key(k.clone())]].concat())),
                _ => (),
            }
        }
        if !p.is_empty() && n < 25 {
            n += 1;
            looked_up(&v, &mut j, &p)?;
        }
    }
    cx.extra_evals += n;
    Ok(())
}

fn c11_deep(i: u64, cx: &mut Cx) -> Verdict {
    let mut s = Src::random(i ^ 0xC11);
    let n = i as usize + 1;
    let v = gen::nested(&mut s, n);
    let mut p = Vec::new();
    let mut x = &v;
    loop {
        match x {
            V::Arr(a) => {
                p.push(Seg::Index(0));
                x = &a[0];
            }
            V::Obj(m) => {
                let (k, y) = m.last().unwrap();
                p.push(Seg::Key(k.clone()));
                x = y;
            }
            _ => break,
        }
    }
    cx.case(true, || format!("{} segments", p.len()));
    looked_up(&v, &mut v.to_json(), &p)?;
    // one further
    let mut q = p.clone();
    q.push(Seg::Index(0));
    if q.len() <= 512 {
        looked_up(&v, &mut v.to_json(), &q)?;
    }
    Ok(())
}

fn c11_wide(i: u64, cx: &mut Cx) -> Verdict {
    // all elements of wide arrays and objects
    let n = [0usize, 1, 2, 3, 10, 31, 64, 100, 255, 256, 257, 513][i as usize % 12];
    let v = if i / 12 == 0 {
        V::Arr((0..n).map(|k| V::Num(k as f64)).collect())
    } else {
        V::Obj((0..n).map(|k| (format!("{}", k * 3 % (n + 1)), V::Num(k as f64))).collect())
    };
    cx.case(n > 0, || format!("{} of {}", v.kind(), n));
    let mut j = v.to_json();
    let far = [n, n + 1, n + 63, usize::MAX, usize::MAX / 2, 1 << 32];
    for k in (0..n).step_by(1 + n / 40).chain(far) {
        // of either kind: the digits of an index are not the index, nor the other way round
        looked_up(&v, &mut j, &[Seg::Index(k)])?;
        looked_up(&v, &mut j, &[Seg::Key(format!("{}", k))])?;
    }
    Ok(())
}

pub fn c11() -> Check {
    Check {
        id: "C11",
        rule: "paths into generated documents (mostly along them, some astray) looked up by find, find_mut, get, json::get and the index operators, against a reference lookup; every element of documents; depths 1..512; wide containers. Non-trivial: the document is a container",
        assumptions: &[],
        suites: vec![
            Suite { name: "lookup", kind: Kind::Random { quick: 200_000, thorough: 5_000_000, f: c11_lookup } },
            Suite { name: "all-elements", kind: Kind::Random { quick: 20_000, thorough: 500_000, f: c11_all } },
            Suite { name: "deep", kind: Kind::Enumerated { quick: 512, thorough: 512, f: c11_deep } },
            Suite { name: "wide", kind: Kind::Enumerated { quick: 24, thorough: 24, f: c11_wide } },
        ],
    }
}

// ------------------------------------------------------------------------------------------ C12

/// Sets `v` at `p` in one of the ways there are. Returns what the call returned.
fn set_somehow(s: &mut Src, j: &mut Json, p: &[Seg], v: &V) -> (&'static str, Result<V, json::Error>) {
    let text = if gen::expressible(p) { Some(gen::spell_path(p)) } else { None };
    let one = p.len() == 1;
    match s.below(5) {
        0 | 1 if text.is_some() => {
            let t = text.unwrap();
            // also typed values
            let r = match v {
                V::Str(x) if s.flag() => j.set(&t, x.as_str()),
                V::Bool(b) if s.flag() => j.set(&t, *b),
                V::Num(n) if s.flag() => j.set(&t, *n),
                V::Null if s.flag() => j.set(&t, None::<i32>),
                V::Arr(a) if s.flag() => j.set(&t, a.iter().map(|x| x.to_json()).collect::<Vec<Json>>()),
                V::Obj(m) if s.flag() => {
                    j.set(&t, m.iter().map(|(k, x)| (k.clone(), x.to_json())).collect::<Vec<(String, Json)>>())
                }
                v => j.set(&t, v.to_json()),
            };
            ("set", r.map(|x| V::of_json(x)))
        }
        2 if one => match &p[0] {
            Seg::Key(k) => ("update by key", j.update(k.as_str(), v.to_json()).map(|x| V::of_json(x))),
            Seg::Index(i) => ("update by index", j.update(*i, v.to_json()).map(|x| V::of_json(x))),
        },
        3 if p.len() == 2 => {
            let mut q = match &p[0] {
                Seg::Key(a) => json::Path::new(a),
                Seg::Index(a) => json::Path::new(a),
            };
            match &p[1] {
                Seg::Key(b) => q.append(b),
                Seg::Index(b) => q.append(b),
            };
            ("update by path", j.update(q, v.to_json()).map(|x| V::of_json(x)))
        }
        _ => ("update", j.update(to_path(p), v.to_json()).map(|x| V::of_json(x))),
    }
}

fn classify_set(v: &V, p: &[Seg], cx: &mut Cx) {
    match v.at(p) {
        Ok(_) => cx.label("replaces an element"),
        Err(E::MissingKey) => cx.label("key missing on the way"),
        Err(E::IndexOutOfRange) => cx.label("index beyond the end on the way"),
        Err(_) => cx.label("another kind on the way"),
    }
    if let (Some(Seg::Key(k)), Ok(V::Obj(m))) = (p.last(), v.at(&p[..p.len() - 1])) {
        cx.label_if(m.iter().filter(|x| x.0 == *k).count() > 1, "replaces several values of a key");
    }
    cx.label_if((1..p.len()).any(|i| matches!((&p[i], v.at(&p[..i])), (Seg::Index(n), Ok(V::Arr(a))) if *n > a.len())), "pads with null");
}

fn c12_set(s: &mut Src, cx: &mut Cx) -> Verdict {
    let v = if s.chance(1, 100) { gen::large(s) } else { gen::document(s) };
    let stray = *s.pick(&[0, 3, 8]);
    let p = expressible_path(s, &v, stray);
    let x = if s.chance(1, 3) { gen::value(s, gen::SMALL) } else { gen::scalar_value(s) };
    classify_set(&v, &p, cx);
    cx.label_if(p.len() >= 3, "three segments or more");
    let mut j = if s.flag() { v.to_json() } else { super::text::build(s, &v) };
    let mut want = v.clone();
    want.set(&p, x.clone());
    cx.case(true, || format!("{} at {} in {}", show(&x), show_segs(&p), show(&v)));
    let (how, got) = set_somehow(s, &mut j, &p, &x);
    let what = format!("{} of {} at {} in {}", how, show(&x), show_segs(&p), show(&v));
    match got {
        Ok(r) if r == x.canon() => (),
        Ok(r) => return Err(format!("{}: returns {}", what, show(&r))),
        Err(e) => return Err(format!("{}: {}", what, e)),
    }
    expect(&what, &j, &want)?;
    match j.find(to_path(&p)) {
        Ok(y) => expect(&format!("{}, looked up", what), y, &x)?,
        Err(e) => return Err(format!("{}: not found afterwards: {}", what, e)),
    }
    // the text function does the same
    let doc = render_ref(&v);
    let text = gen::spell_path(&p);
    match json::set(&doc, &text, x.to_json()) {
        Ok(t) if t == render_ref(&want) => Ok(()),
        o => Err(format!("json::set of {} at {:?} in {:?}: {:?}, expected {:?}", show(&x), text, clip(&doc), o, clip(&render_ref(&want)))),
    }
}

/// A history of edits by path.
fn c12_history(s: &mut Src, cx: &mut Cx) -> Verdict {
    let mut v = if s.flag() { V::Null } else { gen::document(s) };
    let mut j = v.to_json();
    let mut log = vec![format!("start {}", show(&v))];
    let mut n = 0;
    while s.more(n, 8, 40) {
        n += 1;
        let p = expressible_path(s, &v, 4);
        if s.chance(1, 4) {
            let want = v.del(&p);
            let got = if s.flag() { j.discard(to_path(&p)) } else { j.del(&gen::spell_path(&p)) };
            log.push(format!("del {}", show_segs(&p)));
            match (want, got) {
                (Ok(w), Ok(g)) => expect(&log.join("; "), &g, &w)?,
                (Err(e), g) => want_err(&log.join("; "), g, e)?,
                (Ok(_), Err(e)) => return Err(format!("{}: {}", log.join("; "), e)),
            }
        } else if s.chance(1, 5) && v.at(&p).is_ok() {
            // through a mutable reference
            let x = gen::scalar_value(s);
            *v.at_mut(&p).unwrap() = x.clone();
            log.push(format!("assign {} at {}", show(&x), show_segs(&p)));
            if s.flag() {
                *j.find_mut(to_path(&p)).map_err(|e| format!("{}: {}", log.join("; "), e))? = x.to_json();
            } else {
                let mut r = &mut j;
                for seg in &p {
                    r = match seg {
                        Seg::Key(k) => &mut r[k.as_str()],
                        Seg::Index(i) => &mut r[*i],
                    };
                }
                *r = x.to_json();
            }
        } else {
            let x = if s.chance(1, 3) { gen::value(s, gen::SMALL) } else { gen::scalar_value(s) };
            log.push(format!("set {} at {}", show(&x), show_segs(&p)));
            v.set(&p, x.clone());
            if let (how, Err(e)) = set_somehow(s, &mut j, &p, &x) {
                return Err(format!("{}: {}: {}", log.join("; "), how, e));
            }
        }
        if V::of_json(&j) != v.canon() {
            return expect(&log.join("; "), &j, &v);
        }
    }
    cx.extra_evals += n as u64;
    cx.label_if(n >= 10, "ten steps or more");
    cx.case(n >= 2, || clip(&log.join("; ")));
    Ok(())
}

fn c12_pad(i: u64, cx: &mut Cx) -> Verdict {
    // lengths and indices around each other
    let len = (i % 40) as usize;
    let at = (i / 40) as usize;
    for deep in [false, true] {
        let arr = V::Arr((0..len).map(|k| V::Num(k as f64)).collect());
        let (v, pre) = if deep { (V::Obj(vec![("a".into(), arr)]), vec![Seg::Key("a".into())]) } else { (arr, vec![]) };
        for more in [vec![], vec![Seg::Key("k".into())], vec![Seg::Index(2)]] {
            let p = [&pre[..], &[Seg::Index(at)], &more[..]].concat();
            let mut want = v.clone();
            want.set(&p, V::s("x"));
            let mut j = v.to_json();
            let t = gen::spell_path(&p);
            if let Err(e) = j.set(&t, "x") {
                return Err(format!("set({:?}) in {}: {}", t, show(&v), e));
            }
            expect(&format!("set({:?}) in {}", t, show(&v)), &j, &want)?;
            let mut j = v.to_json();
            let _ = j.update(to_path(&p), "x");
            expect(&format!("update({}) in {}", show_segs(&p), show(&v)), &j, &want)?;
        }
    }
    cx.case(at >= len, || format!("index {} in {} elements", at, len));
    Ok(())
}

/// Sets in large values, and far beyond the end of arrays.
fn c12_large(i: u64, cx: &mut Cx) -> Verdict {
    let n = [0usize, 1, 65, 1_025, 4_097, 20_000][i as usize % 6];
    let far = [0usize, 1, 17, 300, 1_100, 2_100, 4_200, 9_000, 70_000][i as usize / 6 % 9];
    let form = i as usize / 54 % 3;
    let arr = V::Arr((0..n).map(|k| V::Num(k as f64)).collect());
    let (v, pre) = match form {
        0 => (arr, vec![]),
        1 => (V::Obj((0..n).map(|k| (format!("k{}", k), V::Num(k as f64))).chain([("a".to_string(), V::Bool(true)), ("a".to_string(), arr.clone())]).collect()), vec![Seg::Key("a".into())]),
        // in place of a value of another kind
        _ => (V::Arr((0..=n).map(|_| V::s("s")).collect()), vec![Seg::Index(n)]),
    };
    let at = if form == 2 { far } else { n + far };
    for p in [vec![Seg::Index(at)], vec![Seg::Index(at), Seg::Key("k".into())], vec![Seg::Key(format!("k{}", at))], vec![Seg::Key(format!("{}", at / 2))]] {
        let p = [&pre[..], &p[..]].concat();
        let what = || format!("set {} in an array of {} ({})", show_segs(&p), n, form);
        let mut want = v.clone();
        want.set(&p, V::s("x"));
        let mut j = v.to_json();
        j.set(&gen::spell_path(&p), "x").map_err(|e| format!("{}: {}", what(), e))?;
        expect(&what(), &j, &want)?;
        let mut j = v.to_json();
        j.update(to_path(&p), "x").map_err(|e| format!("{}: {}", what(), e))?;
        expect(&what(), &j, &want)?;
    }
    cx.case(true, || format!("{} elements, index {}, form {}", n, at, form));
    Ok(())
}

/// Indices about the largest an array can have. (Smaller ones ask for memory there may not be.)
fn c12_limits(i: u64, cx: &mut Cx) -> Verdict {
    let least = isize::MAX as usize / std::mem::size_of::<Json>();
    let at = match i % 12 {
        0..=3 => least + i as usize % 12,
        4 => least * 2,
        5 => least * 2 + 1,
        6 => isize::MAX as usize,
        7 => isize::MAX as usize + 1,
        8 => usize::MAX / std::mem::size_of::<Json>(),
        9 => usize::MAX / std::mem::size_of::<Json>() + 1,
        10 => usize::MAX - 1,
        _ => usize::MAX,
    };
    let i = i / 12;
    let seg = Seg::Index(at);
    let k = || Seg::Key("a".into());
    let p = match i % 5 {
        0 => vec![seg],
        1 => vec![k(), seg],
        2 => vec![seg, k()],
        3 => vec![k(), k(), Seg::Index(1), seg, Seg::Index(0)],
        _ => (0..40).map(|_| k()).chain([seg]).collect(),
    };
    let v = match i / 5 % 4 {
        0 => V::Arr(vec![V::Null, V::Num(1.0)]),
        1 => V::Obj(vec![("a".into(), V::Num(0.0)), ("a".into(), V::Arr(vec![V::Bool(true)]))]),
        2 => V::Null,
        _ => V::s("text"),
    };
    let what = format!("set {} in {}", show_segs(&p), show(&v));
    cx.case(true, || what.clone());
    let mut j = v.to_json();
    for text in [true, false] {
        let r = no_panic(|| if text { j.set(&gen::spell_path(&p), 1).map(|_| ()) } else { j.update(to_path(&p), 1).map(|_| ()) })
            .map_err(|e| format!("{}: {}", what, e))?;
        match r {
            Err(e) if kind_of(&e) == E::IndexOutOfRange => (),
            r => return Err(format!("{}: {:?}, expected IndexOutOfRange", what, r)),
        }
        expect(&what, &j, &v)?;
    }
    Ok(())
}

pub fn c12() -> Check {
    Check {
        id: "C12",
        rule: "a value set at a path in a document by set, update, update!, json::set, typed or as Json; the whole document is compared with a reference model afterwards; histories of up to 40 sets, deletions and assignments through mutable references; all pairs of array length and index below 40; values of up to 20000 elements and indices up to 70000 beyond the end; indices from the least that no array can have. Non-trivial: every set; histories of two steps; padding cases at or beyond the end",
        assumptions: &["indices small enough for the padded array to fit in memory"],
        suites: vec![
            Suite { name: "set", kind: Kind::Random { quick: 600_000, thorough: 10_000_000, f: c12_set } },
            Suite { name: "history", kind: Kind::Random { quick: 150_000, thorough: 3_000_000, f: c12_history } },
            Suite { name: "padding", kind: Kind::Enumerated { quick: 1600, thorough: 40 * 300, f: c12_pad } },
            Suite { name: "large", kind: Kind::Enumerated { quick: 6 * 9 * 3, thorough: 6 * 9 * 3, f: c12_large } },
            Suite { name: "limits", kind: Kind::Enumerated { quick: 12 * 5 * 4, thorough: 12 * 5 * 4, f: c12_limits } },
        ],
    }
}

// ------------------------------------------------------------------------------------------ C13

fn del_somehow(s: &mut Src, j: &mut Json, p: &[Seg]) -> (&'static str, Result<Json, json::Error>) {
    match s.below(4) {
        0 | 1 if gen::expressible(p) => ("del", j.del(&gen::spell_path(p))),
        2 if p.len() == 1 => match &p[0] {
            Seg::Key(k) => ("discard by key", j.discard(k)),
            Seg::Index(i) => ("discard by index", j.discard(*i)),
        },
        _ => ("discard", j.discard(to_path(p))),
    }
}

fn c13_del(s: &mut Src, cx: &mut Cx) -> Verdict {
    let v = if s.chance(1, 100) { gen::large(s) } else { gen::document(s) };
    let p = gen::path(s, &v, 2);
    let mut want = v.clone();
    let out = want.del(&p);
    match &out {
        Ok(_) => cx.label(if matches!(p.last(), Some(Seg::Key(_))) { "a member" } else { "an element" }),
        Err(E::MissingKey) => cx.label("missing key"),
        Err(E::IndexOutOfRange) => cx.label("index out of range"),
        Err(_) => cx.label("wrong kind on the way"),
    }
    cx.label_if(p.len() >= 3, "three segments or more");
    cx.case(v.is_container(), || format!("{} from {}", show_segs(&p), show(&v)));
    let mut j = if s.flag() { v.to_json() } else { super::text::build(s, &v) };
    let (how, got) = del_somehow(s, &mut j, &p);
    let what = format!("{} of {} from {}", how, show_segs(&p), show(&v));
    match (&out, got) {
        (Ok(w), Ok(g)) => expect(&what, &g, w)?,
        (Err(e), g) => want_err(&what, g, *e)?,
        (Ok(_), Err(e)) => return Err(format!("{}: {}", what, e)),
    }
    expect(&format!("what is left by {}", what), &j, &want)?;
    if gen::expressible(&p) {
        let doc = render_ref(&v);
        let text = gen::spell_path(&p);
        let what = format!("json::del of {:?} from {:?}", text, clip(&doc));
        match (&out, json::del(&doc, &text)) {
            (Ok(_), Ok(t)) if t == render_ref(&want) => (),
            (Err(e), g) => want_err(&what, g, *e)?,
            (_, g) => return Err(format!("{}: {:?}, expected {:?}", what, g, clip(&render_ref(&want)))),
        }
    }
    Ok(())
}

/// Taking a document apart, piece by piece.
fn c13_apart(s: &mut Src, cx: &mut Cx) -> Verdict {
    let mut v = gen::document(s);
    let mut j = v.to_json();
    let mut log = vec![show(&v)];
    let mut n = 0;
    while v.is_container() && v.nodes() > 1 && n < 40 {
        let p = gen::path(s, &v, 1);
        let out = v.del(&p);
        let (how, got) = del_somehow(s, &mut j, &p);
        log.push(format!("{} {}", how, show_segs(&p)));
        match (out, got) {
            (Ok(w), Ok(g)) => expect(&log.join("; "), &g, &w)?,
            (Err(e), g) => want_err(&log.join("; "), g, e)?,
            (Ok(_), Err(e)) => return Err(format!("{}: {}", log.join("; "), e)),
        }
        expect(&log.join("; "), &j, &v)?;
        n += 1;
    }
    cx.extra_evals += n;
    cx.case(n >= 2, || clip(&log.join("; ")));
    Ok(())
}

fn c13_positions(i: u64, cx: &mut Cx) -> Verdict {
    // every index of arrays up to 60 elements
    let len = (i / 61) as usize;
    let at = (i % 61) as usize;
    let v = V::Arr((0..len).map(|k| V::Num(k as f64)).collect());
    cx.case(len > 0, || format!("index {} of {}", at, len));
    let p = [Seg::Index(at)];
    let mut want = v.clone();
    let out = want.del(&p);
    for how in 0..2 {
        let mut j = v.to_json();
        let got = if how == 0 { j.del(&gen::spell_path(&p)) } else { j.discard(at) };
        match (&out, got) {
            (Ok(w), Ok(g)) => expect("the element taken", &g, w)?,
            (Err(e), g) => want_err("taking an element", g, *e)?,
            (Ok(_), Err(e)) => return Err(format!("index {} of {}: {}", at, len, e)),
        }
        expect(&format!("{} without {}", show(&v), at), &j, &want)?;
    }
    Ok(())
}

/// Deletions from wide values, by indices, keys, and the one in place of the other.
fn c13_wide(i: u64, cx: &mut Cx) -> Verdict {
    let n = [0usize, 1, 61, 65, 129, 257, 1_025, 4_097][i as usize % 8];
    let v = if i / 8 % 2 == 0 {
        V::Arr((0..n).map(|k| V::Num(k as f64)).collect())
    } else {
        V::Obj((0..n).map(|k| (format!("{}", k), V::Num(k as f64))).collect())
    };
    let (v, pre) = if i / 16 == 0 { (v, vec![]) } else { (V::Arr(vec![V::Null, v]), vec![Seg::Index(1)]) };
    cx.case(n > 0, || format!("{} of {}", v.kind(), n));
    for at in [0, 1, 60, n / 3, n / 2, n.saturating_sub(2), n.saturating_sub(1), n, n + 1, 1 << 32, usize::MAX] {
        for seg in [Seg::Index(at), Seg::Key(format!("{}", at))] {
            let p = [&pre[..], &[seg]].concat();
            let what = format!("del {} from {}", show_segs(&p), clip(&show(&v)));
            let mut want = v.clone();
            let out = want.del(&p);
            for text in [true, false] {
                let mut j = v.to_json();
                let got = if text { j.del(&gen::spell_path(&p)) } else { j.discard(to_path(&p)) };
                match (&out, got) {
                    (Ok(w), Ok(g)) => expect(&what, &g, w)?,
                    (Err(e), g) => want_err(&what, g, *e)?,
                    (Ok(_), Err(e)) => return Err(format!("{}: {}", what, e)),
                }
                expect(&format!("what is left by {}", what), &j, &want)?;
            }
        }
    }
    Ok(())
}

/// Deletions at the ends of long paths.
fn c13_deep(i: u64, cx: &mut Cx) -> Verdict {
    let mut s = Src::random(i ^ 0xC13);
    let v = gen::nested(&mut s, i as usize + 1);
    let mut p = Vec::new();
    let mut x = &v;
    loop {
        match x {
            V::Arr(a) => {
                p.push(Seg::Index(0));
                x = &a[0];
            }
            V::Obj(m) => {
                let (k, y) = m.last().unwrap();
                p.push(Seg::Key(k.clone()));
                x = y;
            }
            _ => break,
        }
    }
    cx.case(true, || format!("{} segments", p.len()));
    let mut astray = p.clone();
    *astray.last_mut().unwrap() = match p.last().unwrap() {
        Seg::Index(_) => Seg::Index(7),
        Seg::Key(k) => Seg::Key(format!("{}?", k)),
    };
    for p in [p, astray] {
        let what = format!("del of {} segments", p.len());
        let mut want = v.clone();
        let out = want.del(&p);
        for _ in 0..2 {
            let mut j = v.to_json();
            let (how, got) = del_somehow(&mut s, &mut j, &p);
            match (&out, got) {
                (Ok(w), Ok(g)) => expect(&what, &g, w)?,
                (Err(e), g) => want_err(&what, g, *e)?,
                (Ok(_), Err(e)) => return Err(format!("{} ({}): {}", what, how, e)),
            }
            expect(&format!("what is left by {} ({})", what, how), &j, &want)?;
        }
    }
    Ok(())
}

pub fn c13() -> Check {
    Check {
        id: "C13",
        rule: "paths into generated documents deleted by del, discard and json::del, the result and the whole rest compared with a reference model; documents taken apart in steps; every index of arrays up to 60; values of up to 4097 elements; depths 1..512. Non-trivial: the document is a container",
        assumptions: &[],
        suites: vec![
            Suite { name: "del", kind: Kind::Random { quick: 750_000, thorough: 12_000_000, f: c13_del } },
            Suite { name: "apart", kind: Kind::Random { quick: 120_000, thorough: 2_000_000, f: c13_apart } },
            Suite { name: "positions", kind: Kind::Enumerated { quick: 61 * 61, thorough: 61 * 61, f: c13_positions } },
            Suite { name: "wide", kind: Kind::Enumerated { quick: 32, thorough: 32, f: c13_wide } },
            Suite { name: "deep", kind: Kind::Enumerated { quick: 512, thorough: 512, f: c13_deep } },
        ],
    }
}

// ------------------------------------------------------------------------------------------ C17

/// An operation that fails, applied somewhere in a document: nothing changes.
fn c17_failing(s: &mut Src, cx: &mut Cx) -> Verdict {
    let v = gen::document(s);
    let mut j = v.to_json();
    let at: Vec<Seg> = if s.chance(1, 3) {
        vec![]
    } else {
        let p = gen::path(s, &v, 0);
        let mut n = p.len();
        while v.at(&p[..n]).is_err() {
            n -= 1;
        }
        p[..n].to_vec()
    };
    let here = v.at(&at).unwrap().clone();
    let k = gen::key(s);
    let i = match s.below(4) {
        0 => s.below(5) as usize,
        1 => match &here {
            V::Arr(a) => a.len() + s.below(2) as usize,
            _ => 0,
        },
        2 => 1000,
        _ => *s.pick(&[usize::MAX, usize::MAX - 1, isize::MAX as usize, isize::MAX as usize / 2, 1 << 60, isize::MAX as usize / std::mem::size_of::<Json>()]),
    };
    let target: &mut Json = if at.is_empty() { &mut j } else { j.find_mut(to_path(&at)).map_err(|e| e.to_string())? };
    let mut h = here.clone();
    let x = gen::scalar_value(s);
    let bad_path = *s.pick(&["", "#", "#a", "a.#x", "#-1", "a.#.b", "#99999999999999999999", "#1.#1e1", "a.b.c.#0x1", "#0.", "# 1"]);
    let bad_path = if bad_path == "#0." { "#0.#" } else { bad_path };
    let huge = [Seg::Key(k.clone()), Seg::Index(0), Seg::Index(usize::MAX / 16)];
    let n_ops = 15;
    let op = s.below(n_ops);
    let (name, want, got): (&'static str, Result<(), E>, Result<(), json::Error>) = match op {
        0 => ("insert", h.insert(&k, x.clone()), target.insert(k.clone(), x.to_json())),
        1 => ("append", h.append(&k, x.clone()), target.append(&k, x.to_json())),
        2 => ("delete", h.delete(&k), target.delete(&k)),
        3 => ("push", h.push(x.clone()), target.push(x.to_json())),
        4 => ("replace", h.replace(i, x.clone()), target.replace(i, x.to_json())),
        5 => ("remove", h.remove(i), target.remove(i)),
        6 => ("index_and_merge", h.merged(&k).map(|_| ()), target.index_and_merge(&k).map(|_| ())),
        7 => ("discard key", h.del(&[Seg::Key(k.clone())]).map(|_| ()), target.discard(&k).map(|_| ())),
        8 => ("discard index", h.del(&[Seg::Index(i)]).map(|_| ()), target.discard(i).map(|_| ())),
        9 => ("find_mut", h.at(&[Seg::Key(k.clone())]).map(|_| ()), target.find_mut(&k).map(|_| ())),
        10 => {
            let p = gen::path(s, &here, 6);
            ("discard path", h.del(&p).map(|_| ()), target.discard(to_path(&p)).map(|_| ()))
        }
        11 => ("set, bad path", Err(E::PathSyntaxError), target.set(bad_path, x.to_json()).map(|_| ())),
        12 => ("del, bad path", Err(E::PathSyntaxError), target.del(bad_path).map(|_| ())),
        13 => {
            let text = gen::spell_path(&[Seg::Key("a".into()), huge[1].clone(), huge[2].clone()]);
            ("set, impossible index", Err(E::IndexOutOfRange), target.set(&text, x.to_json()).map(|_| ()))
        }
        _ => ("update, impossible index", Err(E::IndexOutOfRange), target.update(to_path(&huge), x.to_json()).map(|_| ())),
    };
    cx.label(name);
    cx.label(if want.is_err() { "fails" } else { "succeeds" });
    cx.case(want.is_err() && v.is_container(), || format!("{} {:?} #{} at {} in {}", name, k, i, show_segs(&at), show(&v)));
    let what = format!("{} (key {:?}, index {}, value {}) at [{}] in {}", name, k, i, show(&x), show_segs(&at), show(&v));
    match (&want, got) {
        (Ok(()), Ok(())) => {
            // the success is the business of other properties; here only that nothing else changed
            let mut w = v.clone();
            *w.at_mut(&at).unwrap() = h;
            expect(&what, &j, &w)
        }
        (Err(e), g) => {
            want_err(&what, g, *e)?;
            expect(&format!("after the failed {}", what), &j, &v)
        }
        (Ok(()), Err(e)) => Err(format!("{}: {}", what, e)),
    }
}

/// A run of failing operations, then the value still works.
fn c17_run(s: &mut Src, cx: &mut Cx) -> Verdict {
    let v = gen::document(s);
    let mut j = v.to_json();
    let text = j.to_string();
    let mut n = 0;
    let mut log = Vec::new();
    while s.more(n, 8, 30) {
        n += 1;
        let p = gen::path(s, &v, 8);
        if v.at(&p).is_ok() {
            continue;
        }
        log.push(show_segs(&p));
        let r = match s.below(4) {
            0 => j.discard(to_path(&p)).is_err(),
            1 => j.find_mut(to_path(&p)).is_err(),
            2 if gen::expressible(&p) => j.del(&gen::spell_path(&p)).is_err(),
            2 => true,
            _ => j.find(to_path(&p)).is_err(),
        };
        if !r {
            return Err(format!("{} is found in {}", show_segs(&p), show(&v)));
        }
        if let Some(Err(_)) = Some(v.child(&p[0])) {
            let bad = match (&v, &p[0]) {
                (V::Obj(_), Seg::Index(i)) => Some(j.remove(*i).is_err() && j.push(1).is_err() && j.replace(*i, 1).is_err()),
                (V::Arr(_), Seg::Key(k)) => Some(j.delete(k).is_err() && j.insert(k, 1).is_err() && j.append(k, 1).is_err()),
                (V::Arr(a), Seg::Index(i)) if *i >= a.len() => Some(j.remove(*i).is_err() && j.replace(*i, 1).is_err()),
                _ => None,
            };
            if bad == Some(false) {
                return Err(format!("an operation on the wrong kind or index {} succeeds in {}", show_segs(&p), show(&v)));
            }
        }
        expect("after failed operations", &j, &v)?;
    }
    cx.case(!log.is_empty(), || format!("{} in {}", clip(&log.join("; ")), show(&v)));
    if j.to_string() != text || j != v.to_json() {
        return Err(format!("{} changed: {}", text, j.to_string()));
    }
    Ok(())
}

pub fn c17() -> Check {
    Check {
        id: "C17",
        rule: "every editing and lookup operation with arguments that fail (wrong kind, missing key, index out of range or impossible, bad path text), at the root or inside a document; the whole document is compared before and after, and the kind of the error with the reference. Non-trivial: the operation fails and the document is a container",
        assumptions: &[],
        suites: vec![
            Suite { name: "failing", kind: Kind::Random { quick: 1_400_000, thorough: 16_000_000, f: c17_failing } },
            Suite { name: "runs", kind: Kind::Random { quick: 240_000, thorough: 3_000_000, f: c17_run } },
        ],
    }
}

// ------------------------------------------------------------------------------------------ C19

/// The first index no array can have.
const UNREACHABLE: usize = isize::MAX as usize / std::mem::size_of::<Json>();

#[allow(unused_variables)]
fn c19_oneshot(s: &mut Src, cx: &mut Cx) -> Verdict {
    // the text may be damaged, the path may be malformed or astray
    let v = gen::document(s);
    let mut text = gen::spell(s, &v);
    if s.chance(1, 5) {
        text = gen::mutate(s, &text);
    }
    let v = parse_ref(&text);
    let mut p = gen::path(s, v.as_ref().unwrap_or(&V::Null), 3);
    if s.chance(1, 10) {
        let at = s.below(p.len() as u64 + 1) as usize;
        p.insert(at, Seg::Index(*s.pick(&[usize::MAX, usize::MAX - 1, isize::MAX as usize, UNREACHABLE, UNREACHABLE + 1])));
    }
    let mut path = gen::spell_path(&p);
    if s.chance(1, 5) {
        path = super::text::any_path_text(s);
    }
    let x = gen::scalar_value(s);
    let meant = match gen::parse_path_ref(&path) {
        Some(m) => m,
        None => return Ok(()),
    };
    if let Ok(m) = &meant {
        if m.iter().any(|s| matches!(s, Seg::Index(i) if *i > 2000 && *i < UNREACHABLE)) {
            return Ok(());
        }
    }
    cx.label(if v.is_err() { "malformed text" } else { "well-formed text" });
    cx.label_if(meant.is_err(), "malformed path");
    cx.case(true, || format!("{:?} at {:?} in {:?}", show(&x), path, text));
    let ctx = format!("text {:?}, path {:?}, value {}", clip(&text), path, show(&x));
    let (v, p) = match (v, meant) {
        (Err(_), _) => {
            want_err(&format!("get: {}", ctx), json::get::<Json>(&text, &path), E::Parse)?;
            want_err(&format!("set: {}", ctx), json::set(&text, &path, x.to_json()), E::Parse)?;
            return want_err(&format!("del: {}", ctx), json::del(&text, &path), E::Parse);
        }
        (Ok(_), Err(e)) => {
            want_err(&format!("get: {}", ctx), json::get::<Json>(&text, &path), e)?;
            want_err(&format!("set: {}", ctx), json::set(&text, &path, x.to_json()), e)?;
            return want_err(&format!("del: {}", ctx), json::del(&text, &path), e);
        }
        (Ok(v), Ok(p)) => (v, p),
    };
    cx.label(if v.at(&p).is_ok() { "hit" } else { "miss" });
    // get: typed too
    let at = v.at(&p);
    match (&at, json::get::<Json>(&text, &path)) {
        (Ok(w), Ok(g)) => expect(&format!("get: {}", ctx), &g, w)?,
        (Err(e), g) => want_err(&format!("get: {}", ctx), g, *e)?,
        (Ok(_), Err(e)) => return Err(format!("get: {}: {}", ctx, e)),
    }
    macro_rules! typed {
        ( $t:ty, $pat:pat => $e:expr ) => {
            match (&at, json::get::<$t>(&text, &path)) {
                (Ok($pat), Ok(g)) if g == $e => (),
                (Ok(w), Err(e)) if !matches!(w, $pat) && kind_of(&e) == E::ConvertError => (),
                (Err(k), g) => want_err(&format!("get as {}: {}", stringify!($t), ctx), g, *k)?,
                (_, g) => return Err(format!("get as {}: {}: {:?}", stringify!($t), ctx, g)),
            }
        };
    }
    typed!(String, V::Str(t) => t.clone());
    typed!(f64, V::Num(n) => *n);
    typed!(bool, V::Bool(b) => *b);
    // set
    let mut w = v.clone();
    let unreachable = p.iter().any(|s| matches!(s, Seg::Index(i) if *i >= UNREACHABLE));
    cx.label_if(unreachable, "an index no array can reach");
    if !unreachable {
        w.set(&p, x.clone());
    }
    let r = match &x {
        V::Str(t) => json::set(&text, &path, t.as_str()),
        V::Num(n) => json::set(&text, &path, *n),
        V::Bool(b) => json::set(&text, &path, *b),
        x => json::set(&text, &path, x.to_json()),
    };
    match (r, unreachable) {
        (r, true) => want_err(&format!("set: {}", ctx), r, E::IndexOutOfRange)?,
        (Ok(t), _) if t == render_ref(&w) => (),
        (o, _) => return Err(format!("set: {}: {:?}, expected {:?}", ctx, o, render_ref(&w))),
    }
    // del
    let mut w = v.clone();
    match (w.del(&p), json::del(&text, &path)) {
        (Ok(_), Ok(t)) if t == render_ref(&w) => (),
        (Err(e), g) => want_err(&format!("del: {}", ctx), g, e)?,
        (Ok(_), g) => return Err(format!("del: {}: {:?}, expected {:?}", ctx, g, render_ref(&w))),
    }
    Ok(())
}

/// One-shot edits chained through text are edits of one value.
fn c19_chain(s: &mut Src, cx: &mut Cx) -> Verdict {
    let mut v = gen::document(s);
    let mut text = gen::spell(s, &v);
    let mut log = vec![clip(&text)];
    let mut n = 0;
    while s.more(n, 6, 20) {
        n += 1;
        let p = expressible_path(s, &v, 3);
        let path = gen::spell_path(&p);
        if s.chance(1, 3) {
            log.push(format!("del {:?}", path));
            match (v.del(&p), json::del(&text, &path)) {
                (Ok(_), Ok(t)) => text = t,
                (Err(e), g) => want_err(&log.join("; "), g, e)?,
                (Ok(_), Err(e)) => return Err(format!("{}: {}", log.join("; "), e)),
            }
        } else {
            let x = gen::scalar_value(s);
            log.push(format!("set {:?} {}", path, show(&x)));
            v.set(&p, x.clone());
            text = json::set(&text, &path, x.to_json()).map_err(|e| format!("{}: {}", log.join("; "), e))?;
        }
        match parse_ref(&text) {
            Ok(t) if t.canon() == v.canon() => (),
            o => return Err(format!("{}: the text is {:?}, expected {} ({:?})", log.join("; "), clip(&text), show(&v), o.err())),
        }
    }
    cx.extra_evals += n as u64;
    cx.case(n >= 2, || clip(&log.join("; ")));
    Ok(())
}

fn c19_codec(s: &mut Src, cx: &mut Cx) -> Verdict {
    // encode and decode are to_json, render; parse, from_json
    let v = gen::document(s);
    let text = gen::spell(s, &v);
    cx.case_ref(v.nodes() > 1, &text);
    let j = Json::parse(&text).map_err(|e| e.to_string())?;
    if json::encode(&j) != j.to_json().to_string() {
        return Err(format!("encode of {}", show(&v)));
    }
    macro_rules! same {
        ( $t:ty ) => {
            match (json::decode::<$t>(&text), j.convert::<$t>()) {
                (Ok(a), Ok(b)) if json::encode(&a) == json::encode(&b) => {
                    if json::encode(&a) != a.to_json().to_string() {
                        return Err(format!("encode of {:?}", a));
                    }
                }
                (Err(a), Err(b)) if kind_of(&a) == kind_of(&b) => (),
                (a, b) => return Err(format!("decode::<{}>({:?}) gives {:?}, parsing and converting {:?}", stringify!($t), clip(&text), a, b)),
            }
        };
    }
    same!(String);
    same!(i32);
    same!(Option<f64>);
    same!(Vec<Json>);
    same!(Vec<Option<i32>>);
    same!(Vec<(String, Json)>);
    same!(std::collections::HashMap<String, Json>);
    Ok(())
}

pub fn c19() -> Check {
    Check {
        id: "C19",
        rule: "get, set, del, encode and decode on generated documents and damaged ones, with paths that hit, miss or are malformed, against reading, editing and writing in the reference model; chains of up to 20 text edits. Non-trivial: every case with a specified path; chains of two steps",
        assumptions: &["the reference reader, writer and model of the harness"],
        suites: vec![
            Suite { name: "one-shot", kind: Kind::Random { quick: 250_000, thorough: 6_000_000, f: c19_oneshot } },
            Suite { name: "chain", kind: Kind::Random { quick: 40_000, thorough: 1_000_000, f: c19_chain } },
            Suite { name: "codec", kind: Kind::Random { quick: 100_000, thorough: 2_000_000, f: c19_codec } },
        ],
    }
}
