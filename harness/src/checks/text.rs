//! C01–C07: JSON text in and out.

use crate::gen;
use crate::model::*;
use json::Json;
use pbt::run::Check;
use pbt::{no_panic, Cx, Kind, Src, Suite, Verdict};

pub const FOUR: [fn(&str) -> Result<Json, json::Error>; 3] =
    [|t| Json::parse(t), |t| t.parse::<Json>(), |t| json::decode::<Json>(t)];
const NAMES: [&str; 3] = ["Json::parse", "str::parse::<Json>", "decode::<Json>"];

fn clip(t: &str) -> String {
    pbt::json_out::clip(t, 1500)
}

pub fn accepts(text: &str, v: &V) -> Verdict {
    for (f, n) in FOUR.iter().zip(NAMES) {
        match f(text) {
            Ok(j) => expect(&format!("{} of {:?}", n, clip(text)), &j, v)?,
            Err(e) => return Err(format!("{} rejects the well-formed text {:?}: {}", n, clip(text), e)),
        }
    }
    Ok(())
}

pub fn rejects(text: &str, why: &str) -> Verdict {
    for (f, n) in FOUR.iter().zip(NAMES) {
        match f(text) {
            Ok(j) => {
                return Err(format!("{} accepts {:?} ({}) as {}", n, clip(text), why, show(&V::of_json(&j))));
            }
            Err(e) => {
                if kind_of(&e) != E::Parse {
                    return Err(format!("{} rejects {:?} with {:?}, not a parse error", n, clip(text), e.kind));
                }
            }
        }
    }
    Ok(())
}

fn label_value(v: &V, cx: &mut Cx) {
    cx.label_if(v.depth() >= 2, "nested");
    cx.label_if(v.depth() >= 4, "depth >= 4");
    cx.label_if(v.nodes() >= 10, "10 nodes or more");
    cx.label_if(v.has_duplicates(), "duplicate keys");
    cx.label_if(!v.is_container(), "scalar root");
}

// ------------------------------------------------------------------------------------------ C01

fn c01_spelled(s: &mut Src, cx: &mut Cx) -> Verdict {
    let v = gen::document(s);
    let text = gen::spell(s, &v);
    label_value(&v, cx);
    cx.case_ref(v.nodes() > 1 || text.len() > 6, &text);
    accepts(&text, &v)
}

fn c01_large(s: &mut Src, cx: &mut Cx) -> Verdict {
    let v = gen::large(s);
    let text = gen::spell(s, &v);
    label_value(&v, cx);
    cx.label_if(text.len() > 4096, "over 4 KiB");
    cx.case_ref(true, &text);
    accepts(&text, &v)
}

fn c01_deep(i: u64, cx: &mut Cx) -> Verdict {
    // every depth 1..=512, in 6 patterns
    let depth = (i / 6) as usize + 1;
    let mut s = Src::random(i.wrapping_mul(0x9E37_79B9) ^ i % 6);
    let v = match i % 6 {
        0 => (0..depth).fold(V::Null, |v, _| V::Arr(vec![v])),
        1 => (0..depth).fold(V::Num(7.0), |v, _| V::Obj(vec![("a".into(), v)])),
        2 => (1..depth).fold(V::Arr(vec![]), |v, _| V::Arr(vec![v])),
        3 => (1..depth).fold(V::Obj(vec![]), |v, k| if k % 2 == 0 { V::Arr(vec![v]) } else { V::Obj(vec![("".into(), v)]) }),
        _ => gen::nested(&mut s, depth),
    };
    let text = gen::spell(&mut s, &v);
    cx.case(true, || format!("{} levels: {}", depth, clip(&text)));
    cx.extra_evals += 1;
    accepts(&text, &v)?;
    accepts(&compact(&v), &v)
}

/// Without any whitespace.
fn compact(v: &V) -> String {
    let list = |o: char, c: char, x: Vec<String>| format!("{}{}{}", o, x.join(","), c);
    match v {
        V::Arr(a) => list('[', ']', a.iter().map(compact).collect()),
        V::Obj(m) => list('{', '}', m.iter().map(|(k, v)| format!("{}:{}", render_ref(&V::s(k)), compact(v))).collect()),
        v => render_ref(v),
    }
}

const LONG_GAPS: [usize; 6] = [40, 300, 1_500, 5_000, 20_000, 70_000];

/// Much whitespace in each place of a few documents.
fn c01_gaps(i: u64, cx: &mut Cx) -> Verdict {
    let k = SKELETONS[i as usize % SKELETONS.len()];
    let n = LONG_GAPS[i as usize / SKELETONS.len() % LONG_GAPS.len()];
    let mixed = i as usize / SKELETONS.len() / LONG_GAPS.len();
    let c = [' ', '\n', '\t', '\r'];
    let gap: String = (0..n).map(|j| c[if mixed < 4 { mixed } else { j * j % 7 % 4 }]).collect();
    cx.case(true, || format!("{} of {:?} in each place of {}", n, &gap[..6], k.concat()));
    cx.extra_evals += k.len() as u64 + 1;
    let all: String = k.iter().map(|t| format!("{}{}", t, gap)).collect();
    accepts(&all, &parse_ref(&all).expect("skeletons are JSON"))?;
    for p in 0..=k.len() {
        let text = format!("{}{}{}", k[..p].concat(), gap, k[p..].concat());
        accepts(&text, &parse_ref(&text).expect("skeletons are JSON"))?;
    }
    Ok(())
}

fn c01_huge(i: u64, cx: &mut Cx) -> Verdict {
    let v = gen::huge(i);
    let mut s = Src::random(i ^ 0xC01);
    let text = gen::spell(&mut s, &v);
    cx.case(true, || format!("{} characters: {}", text.len(), clip(&text)));
    accepts(&text, &v)
}

const SKELETONS: &[&[&str]] = &[
    &["[", "]"],
    &["{", "}"],
    &["[", "1", "]"],
    &["[", "1", ",", "2", "]"],
    &["[", "null", ",", "\"a\"", "]"],
    &["{", "\"a\"", ":", "1", "}"],
    &["{", "\"a\"", ":", "[", "]", "}"],
    &["[", "{", "}", ",", "[", "]", "]"],
    &["[", "[", "1", "]", "]"],
    &["{", "\"a\"", ":", "{", "}", "}"],
    &["{", "\"\"", ":", "-0.5e1", ",", "\"\"", ":", "true", "}"],
    &["{", "\"a\"", ":", "\"}\"", ",", "\"b\"", ":", "\"\"", "}"],
    &["[", "\"]\"", ",", "\"\\\"\"", "]"],
    &["[", "false", ",", "1.5", ",", "{", "}", "]"],
];
const GAPS: [&str; 6] = ["", " ", "\n", "\t", "\r", " \t"];

fn whitespace_count() -> u64 {
    SKELETONS.iter().map(|k| 6u64.pow((k.len() + 1).min(7) as u32)).sum()
}

/// Every way to put whitespace around the tokens of a few documents (the first seven gaps).
fn c01_whitespace(mut i: u64, cx: &mut Cx) -> Verdict {
    for k in SKELETONS {
        let gaps = (k.len() + 1).min(7);
        let n = 6u64.pow(gaps as u32);
        if i >= n {
            i -= n;
            continue;
        }
        let mut text = String::new();
        for (p, tok) in k.iter().enumerate() {
            if p < gaps {
                text += GAPS[(i / 6u64.pow(p as u32) % 6) as usize];
            }
            text += tok;
        }
        if k.len() < gaps {
            text += GAPS[(i / 6u64.pow(k.len() as u32) % 6) as usize];
        }
        let v = parse_ref(&text).expect("skeletons are JSON");
        cx.case(i > 0, || text.clone());
        return accepts(&text, &v);
    }
    Ok(())
}

const TOKENS: [&str; 14] =
    ["[", "]", "{", "}", ",", ":", "\"a\"", "1", "null", " ", "\"\"", "-2.5e3", "true", "\"]\\\"\""];

fn tokens_upto(alphabet: u64, len: u32) -> u64 {
    (1..=len).map(|k| alphabet.pow(k)).sum()
}

fn spell_index(alphabet: &[&str], mut i: u64) -> String {
    let n = alphabet.len() as u64;
    let mut len = 1;
    while i >= n.pow(len) {
        i -= n.pow(len);
        len += 1;
    }
    let mut o = String::new();
    for _ in 0..len {
        o += alphabet[(i % n) as usize];
        i /= n;
    }
    o
}

fn c01_tokens(i: u64, cx: &mut Cx) -> Verdict {
    let text = spell_index(&TOKENS, i);
    match parse_ref(&text) {
        Ok(v) => {
            cx.label("well-formed");
            cx.case(true, || text.clone());
            accepts(&text, &v)
        }
        Err(_) => Ok(()),
    }
}

/// Damaged text that is still JSON.
fn c01_mutants(s: &mut Src, cx: &mut Cx) -> Verdict {
    let v = gen::document(s);
    let text = gen::spell(s, &v);
    let text = gen::mutate(s, &text);
    match parse_ref(&text) {
        Ok(v) => {
            cx.label("still well-formed");
            cx.case_ref(true, &text);
            accepts(&text, &v)
        }
        Err(_) => Ok(()),
    }
}

pub fn c01() -> Check {
    Check {
        id: "C01",
        rule: "documents are generated as values and spelled in random ways (whitespace, escapes, number forms, duplicates), or enumerated as token sequences, whitespace placements (up to 70000 characters in one place) and nesting depths 1..512; non-trivial: well-formed, and more than a lone short scalar",
        assumptions: &["the reference reader of the harness (RFC 8259, written independently) and Rust's str::parse::<f64>", "nesting up to 512 levels"],
        suites: vec![
            Suite { name: "spelled", kind: Kind::Random { quick: 350_000, thorough: 8_000_000, f: c01_spelled } },
            Suite { name: "large", kind: Kind::Random { quick: 6_000, thorough: 120_000, f: c01_large } },
            Suite { name: "deep", kind: Kind::Enumerated { quick: 512 * 6, thorough: 512 * 6, f: c01_deep } },
            Suite { name: "huge", kind: Kind::Enumerated { quick: gen::HUGE, thorough: gen::HUGE, f: c01_huge } },
            Suite { name: "whitespace", kind: Kind::Enumerated { quick: whitespace_count(), thorough: whitespace_count(), f: c01_whitespace } },
            Suite { name: "gaps", kind: Kind::Enumerated { quick: 14 * 6 * 5, thorough: 14 * 6 * 5, f: c01_gaps } },
            Suite { name: "tokens", kind: Kind::Enumerated { quick: tokens_upto(14, 5), thorough: tokens_upto(14, 7), f: c01_tokens } },
            Suite { name: "mutants", kind: Kind::Random { quick: 250_000, thorough: 5_000_000, f: c01_mutants } },
        ],
    }
}

// ------------------------------------------------------------------------------------------ C02

fn reject_if_bad(text: &str, cx: &mut Cx) -> Verdict {
    match parse_ref(text) {
        Ok(_) => Ok(()),
        Err(why) => {
            cx.label(why);
            cx.case_ref(true, text);
            rejects(text, why)
        }
    }
}

fn c02_mutants(s: &mut Src, cx: &mut Cx) -> Verdict {
    let v = gen::document(s);
    let text = gen::spell(s, &v);
    let text = gen::mutate(s, &text);
    reject_if_bad(&text, cx)?;
    // the one-shot functions read the document first
    if parse_ref(&text).is_err() && s.chance(1, 8) {
        for (n, e) in [
            ("get", json::get::<Json>(&text, "a").err()),
            ("set", json::set(&text, "a", 1).err()),
            ("del", json::del(&text, "a").err()),
        ] {
            match e {
                Some(e) if kind_of(&e) == E::Parse => (),
                Some(e) => return Err(format!("{} on {:?}: {:?}, not a parse error", n, clip(&text), e.kind)),
                None => return Err(format!("{} accepts the document {:?}", n, clip(&text))),
            }
        }
    }
    Ok(())
}

fn c02_soup(s: &mut Src, cx: &mut Cx) -> Verdict {
    let text = gen::token_soup(s);
    reject_if_bad(&text, cx)
}

/// A cut anywhere in a document, and anything after it.
fn c02_cuts(s: &mut Src, cx: &mut Cx) -> Verdict {
    let v = gen::document(s);
    let text: Vec<char> = gen::spell(s, &v).chars().collect();
    let at = s.below(text.len() as u64) as usize;
    let cut: String = text[..at].iter().collect();
    reject_if_bad(&cut, cx)?;
    let tail = *s.pick(&["]", "}", ",", "1", "\"", "null", "{}", "\u{0}", "\u{a0}", ":", "//", "[", "\u{feff}", "\\", "\u{b}"]);
    let text: String = text.into_iter().collect();
    reject_if_bad(&format!("{}{}", text, tail), cx)?;
    reject_if_bad(&format!("{}{}", tail, text), cx)
}

fn c02_tokens(i: u64, cx: &mut Cx) -> Verdict {
    reject_if_bad(&spell_index(&TOKENS, i), cx)
}

const CHARS: [&str; 13] = ["[", "]", "{", "}", ",", ":", "\"", "\\", "0", "-", "n", " ", "\n"];

fn c02_chars(i: u64, cx: &mut Cx) -> Verdict {
    reject_if_bad(&spell_index(&CHARS, i), cx)
}

const NUMCHARS: [&str; 9] = ["0", "1", "9", "-", "+", ".", "e", "E", " "];

fn c02_numbers(i: u64, cx: &mut Cx) -> Verdict {
    let t = spell_index(&NUMCHARS, i);
    reject_if_bad(&t, cx)?;
    reject_if_bad(&format!("[{}]", t), cx)?;
    reject_if_bad(&format!("{{\"a\":{}}}", t), cx)
}

const STRCHARS: [&str; 12] = ["\"", "\\", "u", "0", "d", "8", "C", "n", "x", "\n", "\u{1f}", "/"];

fn c02_strings(i: u64, cx: &mut Cx) -> Verdict {
    let t = spell_index(&STRCHARS, i);
    reject_if_bad(&format!("\"{}\"", t), cx)?;
    reject_if_bad(&format!("{{\"{}\":0}}", t), cx)
}

/// One code unit `\uXXXX` followed by one of a few continuations, in four contexts.
const AFTER: [&str; 18] = [
    "", "a", "\\\\", "\\n", "\\u", "\\u0041", "\\ud7ff", "\\ud800", "\\udbff", "\\udc00", "\\uDFFF", "\\ue000", "\\uffff",
    "\\udc0", "\\u dc00", "udc00", "+\\udc96", " \\udc00",
];

fn c02_surrogates(i: u64, cx: &mut Cx) -> Verdict {
    let unit = 0xD700 + i / 18;
    let after = AFTER[(i % 18) as usize];
    reject_if_bad(&format!("\"\\u{:04X}{}\"", unit, after), cx)?;
    reject_if_bad(&format!("[\"x\\u{:04x}{}\", 1]", unit, after), cx)?;
    reject_if_bad(&format!("{{\"\\u{:04x}{}\": 1}}", unit, after), cx)
}

/// `\u` and four characters that may or may not be hex digits
const HEXISH: [&str; 14] = ["0", "9", "a", "F", "g", "G", "/", ":", "@", "`", "\u{ff11}", "\u{661}", "-", "+"];

fn c02_hex(i: u64, cx: &mut Cx) -> Verdict {
    let mut t = String::new();
    let mut k = i;
    for _ in 0..4 {
        t += HEXISH[(k % 14) as usize];
        k /= 14;
    }
    reject_if_bad(&format!("\"\\u{}\"", t), cx)?;
    reject_if_bad(&format!("\"\\ud83d\\u{}\"", t), cx)
}

/// Every character around and between tokens, and raw in strings.
fn c02_strangers(i: u64, cx: &mut Cx) -> Verdict {
    let c = match char::from_u32(if i >= 0xD800 { i as u32 + 0x800 } else { i as u32 }) {
        Some(c) => c,
        None => return Ok(()),
    };
    for t in [
        format!("{}1", c),
        format!("1{}", c),
        format!("[{}1]", c),
        format!("[1{}]", c),
        format!("[1,{}2]", c),
        format!("[{}]", c),
        format!("{{{}}}", c),
        format!("{{\"a\"{}:1}}", c),
        format!("{{\"a\":{}1}}", c),
        format!("{{\"a\":1{}}}", c),
        format!("[]{}", c),
        format!("{}{{}}", c),
        format!("nul{}", c),
        format!("tru{}", c),
        format!("\"{}", c),
        format!("\"\\{}\"", c),
        format!("\"{}\"", c),
    ] {
        reject_if_bad(&t, cx)?;
    }
    Ok(())
}

pub fn c02() -> Check {
    let strangers = (0x110000 - 0x800) as u64;
    Check {
        id: "C02",
        rule: "well-formed documents damaged by 1..3 edits, cut or extended; all token and character sequences up to a length; all number-like and string-like texts up to a length; every \\uXXXX from D700 on with continuations; every Unicode scalar next to tokens. Non-trivial: the reference reader rejects it (classes: why)",
        assumptions: &["the reference reader of the harness (RFC 8259, written independently) and Rust's str::parse::<f64> for what exceeds a double"],
        suites: vec![
            Suite { name: "mutants", kind: Kind::Random { quick: 500_000, thorough: 10_000_000, f: c02_mutants } },
            Suite { name: "soup", kind: Kind::Random { quick: 300_000, thorough: 5_000_000, f: c02_soup } },
            Suite { name: "cuts", kind: Kind::Random { quick: 150_000, thorough: 3_000_000, f: c02_cuts } },
            Suite { name: "tokens", kind: Kind::Enumerated { quick: tokens_upto(14, 5), thorough: tokens_upto(14, 7), f: c02_tokens } },
            Suite { name: "chars", kind: Kind::Enumerated { quick: tokens_upto(13, 5), thorough: tokens_upto(13, 7), f: c02_chars } },
            Suite { name: "numbers", kind: Kind::Enumerated { quick: tokens_upto(9, 6), thorough: tokens_upto(9, 8), f: c02_numbers } },
            Suite { name: "strings", kind: Kind::Enumerated { quick: tokens_upto(12, 5), thorough: tokens_upto(12, 7), f: c02_strings } },
            Suite { name: "surrogates", kind: Kind::Enumerated { quick: 0x900 * 18, thorough: 0x900 * 18, f: c02_surrogates } },
            Suite { name: "hex-digits", kind: Kind::Enumerated { quick: 14 * 14 * 14 * 14, thorough: 14 * 14 * 14 * 14, f: c02_hex } },
            Suite { name: "strangers", kind: Kind::Enumerated { quick: 0x3100, thorough: strangers, f: c02_strangers } },
        ],
    }
}

// ------------------------------------------------------------------------------------------ C03

fn any_text(s: &mut Src) -> String {
    match s.weighted(&[3, 4, 3, 2]) {
        0 => gen::token_soup(s),
        1 => {
            let v = gen::document(s);
            let t = gen::spell(s, &v);
            gen::mutate(s, &t)
        }
        2 => {
            let v = gen::document(s);
            gen::spell(s, &v)
        }
        _ => {
            let mut o = String::new();
            let mut n = 0;
            while s.more(n, 12, 80) {
                o.push(gen::ch(s));
                n += 1;
            }
            o
        }
    }
}

const PATHBITS: &[&str] = &[
    ".", "\\", "#", "\\.", "\\#", "\\\\", "a", "b", "0", "1", "#0", "#1", ".#2", "-", "+", " ", "", "é", "\u{0}", "💖", "#-1",
    "#99999999999999999999", "#18446744073709551615", "#18446744073709551616", "#9223372036854775807",
    "#9223372036854775808", "#164703072086692425", "#170000000000000000", "#4611686018427387904", "name", "key", "a.b",
];

pub fn any_path_text(s: &mut Src) -> String {
    let mut o = String::new();
    let mut n = 0;
    while s.more(n, 4, 20) {
        if s.chance(1, 6) {
            o.push(gen::ch(s));
        } else {
            o += s.pick(PATHBITS);
        }
        n += 1;
    }
    o
}

/// The largest index of a path text, where every run of digits counts.
fn index_between(t: &str, lo: u128, hi: u128) -> bool {
    let mut n: Option<u128> = None;
    let mut found = false;
    for c in t.chars().chain(std::iter::once(' ')) {
        match c.to_digit(10) {
            Some(d) => n = Some(n.unwrap_or(0).saturating_mul(10).saturating_add(d as u128)),
            None => {
                if let Some(x) = n.take() {
                    found |= x >= lo && x < hi;
                }
            }
        }
    }
    found
}

/// Indices whose padded array could exist but may not fit in memory are outside the property.
fn settable(path: &str) -> bool {
    !index_between(path, 20_000, isize::MAX as u128 / std::mem::size_of::<Json>() as u128)
}

fn entry_points(text: &str, path: &str) -> Verdict {
    let bad = |n: &str, m: String| Err(format!("{} on the text {:?} and the path {:?}: {}", n, clip(text), clip(path), m));
    macro_rules! run {
        ( $n:expr, $e:expr ) => {
            if let Err(m) = no_panic(|| {
                let _ = $e;
            }) {
                return bad($n, m);
            }
        };
    }
    run!("parse", Json::parse(text));
    run!("from_str", text.parse::<Json>());
    run!("decode Json", json::decode::<Json>(text));
    run!("decode String", json::decode::<String>(text));
    run!("decode i32", json::decode::<i32>(text));
    run!("decode u8", json::decode::<u8>(text));
    run!("decode i128", json::decode::<i128>(text));
    run!("decode f32", json::decode::<f32>(text));
    run!("decode Vec<u64>", json::decode::<Vec<u64>>(text));
    run!("decode Option<Vec<String>>", json::decode::<Option<Vec<String>>>(text));
    run!("decode HashMap", json::decode::<std::collections::HashMap<i32, Json>>(text));
    run!("decode pairs", json::decode::<Vec<(String, Json)>>(text));
    run!("get", json::get::<Json>(text, path));
    run!("get Vec<i8>", json::get::<Vec<i8>>(text, path));
    run!("del", json::del(text, path));
    if settable(path) {
        run!("set 1", json::set(text, path, 1));
        run!("set text", json::set(text, path, text));
        run!("set list", json::set(text, path, vec![f64::NAN, 1.5]));
    }
    if let Ok(j) = Json::parse(text) {
        run!("to_string", j.to_string());
        run!("Json::get", j.get(path).map(|_| ()));
        let mut k = j.clone();
        run!("Json::del", k.del(path).map(|_| ()));
        if settable(path) {
            run!("Json::set", k.set(path, "x").map(|_| ()));
            run!("to_string after set", k.to_string());
        }
    }
    Ok(())
}

fn c03_any(s: &mut Src, cx: &mut Cx) -> Verdict {
    let text = any_text(s);
    let path = any_path_text(s);
    let ok = parse_ref(&text).is_ok();
    cx.label(if ok { "well-formed text" } else { "malformed text" });
    cx.label_if(matches!(gen::parse_path_ref(&path), Some(Err(_))), "malformed path");
    cx.label_if(!settable(&path), "set skipped: huge index");
    cx.case(text.len() + path.len() > 2, || format!("{:?} with the path {:?}", text, path));
    entry_points(&text, &path)
}

/// Paths along the document, with a damaged character now and then.
fn c03_along(s: &mut Src, cx: &mut Cx) -> Verdict {
    let v = gen::document(s);
    let text = gen::spell(s, &v);
    let p = gen::path(s, &v, 3);
    let mut path = gen::spell_path(&p);
    if s.chance(1, 3) {
        path = gen::mutate(s, &path);
    }
    cx.label_if(v.at(&p).is_ok(), "hit");
    cx.case(true, || format!("{:?} with the path {:?}", text, path));
    entry_points(&text, &path)
}

/// Texts of extreme length or nesting. The worker threads have the stack of a main thread (8 MiB).
const OPENERS: [(&str, &str, &str); 10] = [
    ("[", "", "]"),
    ("{\"a\":", "1", "}"),
    ("[[", "", "]]"),
    ("[{\"a\":", "null", "}]"),
    ("{\"\":[", "", "]}"),
    ("[1,", "2", "]"),
    ("[ [\n", "", "] ]"),
    ("{\"a\":1,\"b\":", "2", "}"),
    ("[\"]\",", "0", "]"),
    ("{", "", "}"),
];
const DEPTHS: [usize; 14] = [100, 255, 256, 257, 500, 511, 512, 513, 514, 600, 1024, 3_000, 30_000, 60_000];

fn c03_nesting(i: u64, cx: &mut Cx) -> Verdict {
    let (open, mid, close) = OPENERS[i as usize % 10];
    let depth = DEPTHS[i as usize / 10 % 14];
    let closed = i / 140 == 0;
    let depth = depth / (open.matches(|c| c == '[' || c == '{').count());
    let text = if closed {
        format!("{}{}{}", open.repeat(depth), mid, close.repeat(depth))
    } else {
        open.repeat(depth)
    };
    cx.case(true, || format!("{:?} x {}{}", open, depth, if closed { ", closed" } else { "" }));
    if text.len() > 20_000 {
        // costly: what is rejected is read once per level up to the limit
        return match i % 5 {
            0 => light(|| Json::parse(&text).map(|_| ())),
            1 => light(|| json::decode::<Vec<Json>>(&text).map(|_| ())),
            2 => light(|| json::get::<Json>(&text, "a").map(|_| ())),
            3 => light(|| json::set(&text, "#0", 1).map(|_| ())),
            _ => light(|| json::del(&text, "a").map(|_| ())),
        };
    }
    let path = vec!["a"; depth.min(1500)].join(".");
    entry_points(&text, &path)?;
    let path = vec!["#0"; depth.min(1500)].join(".");
    entry_points(&text, &path)
}

fn light(f: impl FnOnce() -> Result<(), json::Error>) -> Verdict {
    no_panic(|| {
        let _ = f();
    })
}

const LENGTHS: [usize; 9] = [510, 511, 512, 513, 514, 1_000, 10_000, 100_000, 400_000];
const SEGMENTS: [&str; 6] = ["a", "#0", "\\#", "", "\\.", "#1"];

fn c03_paths(i: u64, cx: &mut Cx) -> Verdict {
    let n = LENGTHS[i as usize % 9];
    let seg = SEGMENTS[i as usize / 9 % 6];
    let deepest: String = format!("{}{}", "[".repeat(512), "]".repeat(512));
    let text = ["null", "{}", "[]", "{\"a\": {\"a\": 1}}", "[[[1]]]", deepest.as_str()][i as usize / 54];
    let path = vec![seg; n].join(".");
    cx.case(true, || format!("{} segments {:?} into {}", n, seg, clip(text)));
    entry_points(text, &path)
}

fn c03_lengths(i: u64, cx: &mut Cx) -> Verdict {
    let n = [1_000usize, 65_536, 1_000_000][i as usize % 3];
    let text = match i / 3 {
        0 => format!("\"{}\"", "a".repeat(n)),
        1 => format!("\"{}\"", "\\\"".repeat(n)),
        2 => format!("\"{}", "\\".repeat(n)),
        3 => format!("[{}1]", "1,".repeat(n)),
        4 => format!("[{}", ",".repeat(n)),
        5 => "9".repeat(n),
        6 => format!("0.{}1", "0".repeat(n)),
        7 => format!("1e{}", "9".repeat(n)),
        8 => format!("-{}", "-".repeat(n)),
        9 => " ".repeat(n),
        10 => format!("{{{}\"a\":1}}", "\"a\":2,".repeat(n / 4)),
        11 => format!("{{{}", "\"".repeat(n)),
        12 => format!("[{}", "\"a\"".repeat(n / 3)),
        13 => "]".repeat(n),
        14 => format!("{{\"{}\":1}}", "k".repeat(n)),
        15 => format!("\"{}\"", "\\ud83d\\udc96".repeat(n / 8)),
        16 => format!("[{}]", "]".repeat(n)),
        _ => format!("{{{}}}", "}".repeat(n)),
    };
    cx.case(true, || clip(&text));
    entry_points(&text, "a")?;
    entry_points("{}", &text)
}

pub fn c03() -> Check {
    Check {
        id: "C03",
        rule: "any text (soup, damaged and whole documents, random characters) with any path through all text entry points and decode targets; texts nested up to 60000 levels, paths of up to 400000 segments, texts of up to a million characters. Non-trivial: more than two characters",
        assumptions: &[
            "a stack of 8 MiB (that of a main thread)",
            "set with an index whose padded array could exist but may not fit in memory (20000 and above) is outside the property",
            "running out of memory or time is reported as an error of the check, not as a violation",
        ],
        suites: vec![
            Suite { name: "any", kind: Kind::Random { quick: 200_000, thorough: 6_000_000, f: c03_any } },
            Suite { name: "along", kind: Kind::Random { quick: 100_000, thorough: 3_000_000, f: c03_along } },
            Suite { name: "nesting", kind: Kind::Enumerated { quick: 280, thorough: 280, f: c03_nesting } },
            Suite { name: "paths", kind: Kind::Enumerated { quick: 54 * 6, thorough: 54 * 6, f: c03_paths } },
            Suite { name: "lengths", kind: Kind::Enumerated { quick: 54, thorough: 54, f: c03_lengths } },
        ],
    }
}

// ------------------------------------------------------------------------------------------ C04

fn round_trip(v: &V) -> Verdict {
    let j = v.to_json();
    let text = j.to_string();
    let back = Json::parse(&text).map_err(|e| format!("the rendered text {:?} does not parse: {}", clip(&text), e))?;
    expect(&format!("parsing the rendered text {:?}", clip(&text)), &back, v)?;
    let again = back.to_string();
    if again != text {
        return Err(format!("rendering again gives another text:\n  {:?}\n  {:?}", clip(&text), clip(&again)));
    }
    let enc = json::encode(&j);
    if enc != text {
        return Err(format!("encode differs from to_string:\n  {:?}\n  {:?}", clip(&enc), clip(&text)));
    }
    let dec = json::decode::<Json>(&enc).map_err(|e| format!("decode of {:?}: {}", clip(&enc), e))?;
    expect("decode of the encoded value", &dec, v)?;
    expect("the rendered value itself", &j, v)
}

fn c04_values(s: &mut Src, cx: &mut Cx) -> Verdict {
    let v = gen::document(s);
    label_value(&v, cx);
    cx.case(v.nodes() > 1, || show(&v));
    round_trip(&v)
}

fn c04_large(s: &mut Src, cx: &mut Cx) -> Verdict {
    let v = gen::large(s);
    label_value(&v, cx);
    cx.case(true, || show(&v));
    round_trip(&v)
}

fn c04_huge(i: u64, cx: &mut Cx) -> Verdict {
    let v = gen::huge(i);
    cx.case(true, || show(&v));
    round_trip(&v)
}

fn c04_deep(i: u64, cx: &mut Cx) -> Verdict {
    let depth = i as usize / 2 + 1;
    let mut s = Src::random(i ^ 0xC04);
    let v = gen::nested(&mut s, depth);
    cx.case(true, || format!("{} levels: {}", depth, show(&v)));
    round_trip(&v)
}

/// From text: reading, writing and reading again changes nothing.
fn c04_text(s: &mut Src, cx: &mut Cx) -> Verdict {
    let v = gen::document(s);
    let text = gen::spell(s, &v);
    label_value(&v, cx);
    cx.case_ref(v.nodes() > 1, &text);
    let j = Json::parse(&text).map_err(|e| format!("{:?}: {}", clip(&text), e))?;
    let t1 = j.to_string();
    let j2 = Json::parse(&t1).map_err(|e| format!("{:?}, written from {:?}: {}", clip(&t1), clip(&text), e))?;
    expect(&format!("{:?} read, written and read", clip(&text)), &j2, &v)?;
    if j2 != j {
        return Err(format!("{:?} read, written and read is not equal to itself", clip(&text)));
    }
    if j2.to_string() != t1 {
        return Err(format!("{:?} is written in two ways", clip(&text)));
    }
    Ok(())
}

fn c04_numbers(s: &mut Src, cx: &mut Cx) -> Verdict {
    let v = match s.below(3) {
        0 => V::Num(gen::number(s)),
        1 => V::Arr(s.vec(4, 12, |s| V::Num(gen::number(s)))),
        _ => V::Obj(s.vec(4, 12, |s| ("n".to_string(), V::Num(gen::number(s))))),
    };
    cx.case(true, || show(&v));
    round_trip(&v)
}

pub fn c04() -> Check {
    Check {
        id: "C04",
        rule: "values built directly (all kinds, duplicate keys, large, up to 512 levels deep) or read from generated text, rendered, read and rendered again. Non-trivial: more than one node",
        assumptions: &["finite numbers, nesting up to 512 levels"],
        suites: vec![
            Suite { name: "values", kind: Kind::Random { quick: 300_000, thorough: 8_000_000, f: c04_values } },
            Suite { name: "large", kind: Kind::Random { quick: 6_000, thorough: 120_000, f: c04_large } },
            Suite { name: "huge", kind: Kind::Enumerated { quick: gen::HUGE, thorough: gen::HUGE, f: c04_huge } },
            Suite { name: "deep", kind: Kind::Enumerated { quick: 1024, thorough: 1024, f: c04_deep } },
            Suite { name: "text", kind: Kind::Random { quick: 200_000, thorough: 5_000_000, f: c04_text } },
            Suite { name: "numbers", kind: Kind::Random { quick: 200_000, thorough: 5_000_000, f: c04_numbers } },
        ],
    }
}

// ------------------------------------------------------------------------------------------ C05

fn written(v: &V, j: &Json) -> Verdict {
    let text = j.to_string();
    let want = render_ref(v);
    if text != want {
        return Err(format!("rendered as\n  {:?}\nand not as\n  {:?}", clip(&text), clip(&want)));
    }
    if let Some(c) = text.chars().find(|c| !(' '..='~').contains(c)) {
        return Err(format!("the text holds the character {:?}", c));
    }
    if let Err(e) = parse_ref(&text) {
        return Err(format!("the text {:?} is not JSON: {}", clip(&text), e));
    }
    if json::encode(j) != want {
        return Err(format!("encode gives {:?} and not {:?}", clip(&json::encode(j)), clip(&want)));
    }
    Ok(())
}

fn c05_values(s: &mut Src, cx: &mut Cx) -> Verdict {
    let v = if s.chance(1, 30) { gen::large(s) } else { gen::document(s) };
    label_value(&v, cx);
    cx.case(v.nodes() > 1, || show(&v));
    written(&v, &v.to_json())
}

fn c05_huge(i: u64, cx: &mut Cx) -> Verdict {
    let v = gen::huge(i);
    cx.case(true, || show(&v));
    written(&v, &v.to_json())
}

/// The same value made in different ways.
fn c05_routes(s: &mut Src, cx: &mut Cx) -> Verdict {
    let v = gen::document(s);
    label_value(&v, cx);
    cx.case(v.nodes() > 1, || show(&v));
    written(&v, &build(s, &v))?;
    let other = shuffled(s, &v);
    let text = gen::spell(s, &other);
    let j = Json::parse(&text).map_err(|e| format!("{:?}: {}", clip(&text), e))?;
    written(&v, &j)?;
    written(&v, &j.clone())
}

/// Builds a value by API calls, in some order, with detours.
pub fn build(s: &mut Src, v: &V) -> Json {
    match v {
        V::Arr(a) => {
            let mut j = json::Json::Array(vec![]);
            for x in a {
                if s.chance(1, 8) {
                    let _ = j.push("detour");
                    let n = if let Json::Array(a) = &j { a.len() - 1 } else { 0 };
                    let _ = j.remove(n);
                }
                let _ = j.push(build(s, x));
            }
            j
        }
        V::Obj(_) => {
            let m = match shuffled_members(s, v) {
                V::Obj(m) => m,
                _ => unreachable!(),
            };
            let mut j = json::Json::Object(Default::default());
            for (k, x) in m {
                if s.chance(1, 8) {
                    let _ = j.insert("detour\u{1}", "detour");
                    let _ = j.delete("detour\u{1}");
                }
                let x = build(s, &x);
                let _ = j.append(k, x);
            }
            j
        }
        V::Str(t) => json::ToJson::to_json(t),
        o => o.to_json(),
    }
}

/// Another order of the members that means the same (values of one key stay in order).
fn shuffled_members(s: &mut Src, v: &V) -> V {
    let mut m = match v {
        V::Obj(m) => m.clone(),
        o => return o.clone(),
    };
    for i in (1..m.len()).rev() {
        let j = s.below(i as u64 + 1) as usize;
        let (lo, hi) = (j.min(i), i);
        // move the member at lo to hi unless that passes one of the same key
        if !m[lo + 1..=hi].iter().any(|x| x.0 == m[lo].0) {
            let x = m.remove(lo);
            m.insert(hi, x);
        }
    }
    V::Obj(m)
}

pub fn shuffled(s: &mut Src, v: &V) -> V {
    match v {
        V::Arr(a) => V::Arr(a.iter().map(|x| shuffled(s, x)).collect()),
        V::Obj(_) => match shuffled_members(s, v) {
            V::Obj(m) => V::Obj(m.into_iter().map(|(k, x)| (k, shuffled(s, &x))).collect()),
            o => o,
        },
        o => o.clone(),
    }
}

fn c05_keys(s: &mut Src, cx: &mut Cx) -> Verdict {
    // order of members: many similar keys
    let base = gen::string(s);
    let mut m = Vec::new();
    while s.more(m.len(), 6, 20) {
        let k = match s.below(6) {
            0 => base.clone(),
            1 => format!("{}{}", base, gen::ch(s)),
            2 => format!("{}{}", gen::ch(s), base),
            3 => base.chars().rev().collect(),
            4 => base.to_uppercase(),
            _ => gen::key(s),
        };
        m.push((k, V::Num(m.len() as f64)));
    }
    let v = V::Obj(m);
    label_value(&v, cx);
    cx.case(v.nodes() > 2, || show(&v));
    written(&v, &v.to_json())
}

fn c05_chars(i: u64, cx: &mut Cx) -> Verdict {
    let c = match char::from_u32(if i >= 0xD800 { i as u32 + 0x800 } else { i as u32 }) {
        Some(c) => c,
        None => return Ok(()),
    };
    cx.case(true, || format!("U+{:04X}", c as u32));
    written(&V::Str(c.to_string()), &Json::String(c.to_string()))?;
    if i % 16 == 0 || i < 0x800 {
        let v = V::Obj(vec![(format!("a{}b", c), V::Arr(vec![V::Str(format!("{}{}", c, c))]))]);
        written(&v, &v.to_json())?;
    }
    Ok(())
}

pub fn c05() -> Check {
    Check {
        id: "C05",
        rule: "values of all kinds, compared with the text of a reference writer; the same value made by API calls in different orders and read from different spellings; similar keys; every Unicode scalar. Non-trivial: more than one node",
        assumptions: &["the reference writer of the harness; shortest digits from Rust's {:e} formatting"],
        suites: vec![
            Suite { name: "values", kind: Kind::Random { quick: 250_000, thorough: 6_000_000, f: c05_values } },
            Suite { name: "huge", kind: Kind::Enumerated { quick: gen::HUGE, thorough: gen::HUGE, f: c05_huge } },
            Suite { name: "routes", kind: Kind::Random { quick: 120_000, thorough: 3_000_000, f: c05_routes } },
            Suite { name: "keys", kind: Kind::Random { quick: 100_000, thorough: 2_000_000, f: c05_keys } },
            Suite { name: "characters", kind: Kind::Enumerated { quick: 0x10F800, thorough: 0x10F800, f: c05_chars } },
        ],
    }
}

// ------------------------------------------------------------------------------------------ C06

/// The string through every door, as value and as key.
fn survives(t: &str, spelled: &str) -> Verdict {
    // read
    let j = Json::parse(spelled).map_err(|e| format!("{:?} is rejected: {}", clip(spelled), e))?;
    expect(&format!("reading {:?}", clip(spelled)), &j, &V::s(t))?;
    match json::decode::<String>(spelled) {
        Ok(x) if x == t => (),
        o => return Err(format!("decode::<String>({:?}) gives {:?}, expected {:?}", clip(spelled), o.ok(), clip(t))),
    }
    let doc = format!("{{{}: [{}]}}", spelled, spelled);
    let j = Json::parse(&doc).map_err(|e| format!("{:?} is rejected: {}", clip(&doc), e))?;
    expect(&format!("reading {:?}", clip(&doc)), &j, &V::Obj(vec![(t.to_string(), V::Arr(vec![V::s(t)]))]))?;
    // write
    let text = json::encode(t);
    match json::decode::<String>(&text) {
        Ok(x) if x == t => (),
        o => return Err(format!("{:?} is written as {:?} and read back as {:?}", clip(t), clip(&text), o.ok())),
    }
    if parse_ref(&text) != Ok(V::s(t)) {
        return Err(format!("{:?} is written as {:?}, which does not mean it", clip(t), clip(&text)));
    }
    if json::encode(&t.to_string()) != text || json::encode(&t) != text {
        return Err(format!("{:?} is written differently as String, str and &str", clip(t)));
    }
    let v = V::Obj(vec![(t.to_string(), V::s(t))]);
    let text = v.to_json().to_string();
    if parse_ref(&text).as_ref() != Ok(&v) {
        return Err(format!("{} is written as {:?}, which does not mean it", show(&v), clip(&text)));
    }
    let back = Json::parse(&text).map_err(|e| format!("{:?} is rejected: {}", clip(&text), e))?;
    expect("key and value, written and read", &back, &v)?;
    // look up by the key
    match back.find(t) {
        Ok(Json::String(x)) if x == t => Ok(()),
        o => Err(format!("find({:?}) gives {:?}", clip(t), o)),
    }
}

fn c06_random(s: &mut Src, cx: &mut Cx) -> Verdict {
    let t = gen::string(s);
    let st = gen::style(s);
    let mut spelled = String::new();
    gen::spell_string(s, &t, st.escape, &mut spelled);
    cx.label_if(t.chars().any(|c| (c as u32) > 0xFFFF), "beyond the BMP");
    cx.label_if(t.contains('\\') || t.contains('"'), "quotes and backslashes");
    cx.label_if(t.len() > 100, "long");
    cx.case_ref(!t.is_empty(), &spelled);
    survives(&t, &spelled)
}

fn c06_every(i: u64, cx: &mut Cx) -> Verdict {
    let c = match char::from_u32(if i >= 0xD800 { i as u32 + 0x800 } else { i as u32 }) {
        Some(c) => c,
        None => return Ok(()),
    };
    cx.case(true, || format!("U+{:04X}", c as u32));
    let t = c.to_string();
    let mut b = [0u16; 2];
    let lower: String = c.encode_utf16(&mut b).iter().map(|u| format!("\\u{:04x}", u)).collect();
    let upper: String = c.encode_utf16(&mut b).iter().map(|u| format!("\\u{:04X}", u)).collect();
    survives(&t, &format!("\"{}\"", lower))?;
    if upper != lower {
        match json::decode::<String>(&format!("\"{}\"", upper)) {
            Ok(x) if x == t => (),
            o => return Err(format!("{:?} reads as {:?}", upper, o.ok())),
        }
    }
    if c != '"' && c != '\\' && (c as u32) >= 0x20 {
        // raw, and next to other characters
        match json::decode::<Vec<String>>(&format!("[\"{}\", \"x{}\\n{}\"]", c, c, c)) {
            Ok(x) if x == [t.clone(), format!("x{}\n{}", c, c)] => (),
            o => return Err(format!("raw {:?} reads as {:?}", c, o.ok())),
        }
    }
    Ok(())
}

/// Every string of up to four characters from an alphabet of the troublesome ones.
const NASTY: [&str; 12] = ["\"", "\\", "/", "{", "]", ",", ":", "u", "\n", "\u{0}", " ", "é"];

fn c06_short(i: u64, cx: &mut Cx) -> Verdict {
    let t = spell_index(&NASTY, i);
    let mut spelled = String::new();
    gen::spell_string(&mut Src::random(i), &t, i % 3 * 3, &mut spelled);
    cx.case(true, || spelled.clone());
    survives(&t, &spelled)
}

fn c06_lengths(i: u64, cx: &mut Cx) -> Verdict {
    let n = (i / 6) as usize;
    let c = ["a", "\"", "é", "💖", "\\", "\u{1}"][i as usize % 6];
    let t = format!("{}x", c.repeat(n));
    let mut spelled = String::new();
    gen::spell_string(&mut Src::random(i), &t, i % 2 * 4, &mut spelled);
    cx.case(n > 0, || format!("{} x {:?}", n, c));
    survives(&t, &spelled)
}

const TURNS: [&str; 12] = ["\"", "\\", "\n", "\u{1}", "/", "é", "日", "💖", "\u{7f}", "]", "\u{10ffff}", "u"];

/// A run up to next to a power of two, or ten, in characters or bytes; there, something else begins.
fn c06_runs(i: u64, cx: &mut Cx) -> Verdict {
    let (turn, i) = (TURNS[i as usize % 12], i / 12);
    let (run, i) = (["a", "é", "日", "💖"][i as usize % 4], i / 4);
    let (off, i) = (i as usize % 7, i / 7);
    let (style, i) = (i % 2, i / 2);
    let n = (RUNS[i as usize] / run.len() + off).saturating_sub(3);
    let t = format!("{}{}{}b", run.repeat(n), turn, turn);
    let mut spelled = String::new();
    if style == 0 {
        gen::spell_string(&mut Src::random(i), &t, 0, &mut spelled);
    } else {
        spelled = format!("\"{}", run.repeat(n));
        let mut b = [0u16; 2];
        for u in turn.chars().next().unwrap().encode_utf16(&mut b) {
            spelled += &format!("\\u{:04x}", u);
        }
        for u in turn.chars().next().unwrap().encode_utf16(&mut b) {
            spelled += &format!("\\u{:04X}", u);
        }
        spelled += "b\"";
    }
    cx.case(true, || format!("{} x {:?}, then {:?}", n, run, turn));
    survives(&t, &spelled)
}

const RUNS: [usize; 15] = [16, 32, 64, 100, 128, 256, 512, 1000, 1024, 2048, 4096, 8192, 10000, 16384, 32768];

pub fn c06() -> Check {
    Check {
        id: "C06",
        rule: "strings spelled raw, with short escapes and with \\u escapes in any case, read as value and as key, written and read again, looked up; every Unicode scalar; all strings of up to 4 (thorough: 5) troublesome characters; lengths 0..600; runs ending next to a power of two. Non-trivial: not empty",
        assumptions: &["the reference reader of the harness"],
        suites: vec![
            Suite { name: "random", kind: Kind::Random { quick: 1_500_000, thorough: 16_000_000, f: c06_random } },
            Suite { name: "every-scalar", kind: Kind::Enumerated { quick: 0x10F800, thorough: 0x10F800, f: c06_every } },
            Suite { name: "short", kind: Kind::Enumerated { quick: tokens_upto(12, 4), thorough: tokens_upto(12, 6), f: c06_short } },
            Suite { name: "runs", kind: Kind::Enumerated { quick: 12 * 4 * 7 * 2 * 14, thorough: 12 * 4 * 7 * 2 * 15, f: c06_runs } },
            Suite { name: "lengths", kind: Kind::Enumerated { quick: 600 * 6, thorough: 2100 * 6, f: c06_lengths } },
        ],
    }
}

// ------------------------------------------------------------------------------------------ C07

fn reads_as(text: &str, want: f64) -> Verdict {
    let same = |got: f64| got.to_bits() == want.to_bits();
    for (t, pick) in [
        (text.to_string(), 0),
        (format!("[{}]", text), 1),
        (format!("{{\"a\": {} }}", text), 2),
        (format!(" [0,{} ,1]", text), 3),
    ] {
        let j = Json::parse(&t).map_err(|e| format!("{:?} is rejected: {}", clip(&t), e))?;
        let x = match (pick, &j) {
            (0, j) => Some(j),
            (1, Json::Array(a)) if a.len() == 1 => Some(&a[0]),
            (2, j) => j.find("a").ok(),
            (_, Json::Array(a)) if a.len() == 3 => Some(&a[1]),
            _ => None,
        };
        match x {
            Some(Json::Number(n)) if same(*n) => (),
            o => return Err(format!("{:?} reads as {:?}, expected {:?}", clip(&t), o, want)),
        }
    }
    match json::decode::<f64>(text) {
        Ok(n) if same(n) => Ok(()),
        o => Err(format!("decode::<f64>({:?}) gives {:?}, expected {:?}", clip(text), o.ok(), want)),
    }
}

fn writes_back(n: f64) -> Verdict {
    let text = Json::Number(n).to_string();
    match parse_ref(&text) {
        Ok(V::Num(m)) if m.to_bits() == n.to_bits() => (),
        o => return Err(format!("{:?} is written as {:?}, which means {:?}", n, clip(&text), o)),
    }
    if json::encode(&n) != text {
        return Err(format!("encode({:?}) is {:?}, not {:?}", n, clip(&json::encode(&n)), clip(&text)));
    }
    reads_as(&text, n)
}

fn c07_doubles(s: &mut Src, cx: &mut Cx) -> Verdict {
    let n = gen::number(s);
    cx.label_if(n.fract() == 0.0, "integer");
    cx.label_if(n.abs() < f64::MIN_POSITIVE && n != 0.0, "subnormal");
    cx.label_if(n.abs() >= 1e21 || (n != 0.0 && n.abs() < 1e-6), "extreme magnitude");
    let t = gen::spell_number(s, n, 8);
    cx.case_ref(true, &t);
    reads_as(&t, n)?;
    writes_back(n)
}

/// Decimal texts, whatever they round to; beyond the doubles they must be rejected.
fn c07_decimals(s: &mut Src, cx: &mut Cx) -> Verdict {
    let mut t = String::new();
    if s.chance(1, 3) {
        t.push('-');
    }
    let digits = |s: &mut Src, n: usize, t: &mut String| {
        for _ in 0..n {
            t.push((b'0' + s.below(10) as u8) as char);
        }
    };
    if s.chance(1, 3) {
        t.push('0');
    } else {
        t.push((b'1' + s.below(9) as u8) as char);
        let n = *s.pick(&[0usize, 1, 2, 5, 14, 15, 16, 17, 18, 19, 20, 21, 25, 40, 308, 309, 310, 400]);
        digits(s, n, &mut t);
    }
    if s.flag() {
        t.push('.');
        let n = *s.pick(&[1usize, 2, 3, 8, 15, 16, 17, 20, 30, 330, 800]);
        digits(s, n, &mut t);
    }
    if s.flag() {
        t.push(*s.pick(&['e', 'E']));
        t += s.pick(&["", "+", "-"]);
        let e = match s.below(4) {
            0 => s.below(20),
            1 => s.below(400),
            2 => 290 + s.below(50),
            _ => *s.pick(&[0, 323, 324, 325, 307, 308, 309, 1000, 10000, 4294967296, 18446744073709551615]),
        };
        t += &format!("{}", e);
        if s.chance(1, 20) {
            t += "00000000000000000000";
        }
    }
    cx.case_ref(true, &t);
    let n: f64 = t.parse().unwrap();
    if n.is_finite() {
        cx.label_if(n == 0.0, "zero or underflow");
        reads_as(&t, n)
    } else {
        cx.label("overflow");
        rejects(&t, "number too large")?;
        rejects(&format!("[1, {}]", t), "number too large")?;
        rejects(&format!("{{\"a\": {}}}", t), "number too large")
    }
}

/// Decimal big numbers, little end first.
fn big_mul(d: &mut Vec<u32>, m: u32) {
    let mut carry = 0u64;
    for x in d.iter_mut() {
        let v = *x as u64 * m as u64 + carry;
        *x = (v % 1_000_000_000) as u32;
        carry = v / 1_000_000_000;
    }
    while carry > 0 {
        d.push((carry % 1_000_000_000) as u32);
        carry /= 1_000_000_000;
    }
}
fn big_text(d: &[u32]) -> String {
    let mut o = String::new();
    for (i, x) in d.iter().rev().enumerate() {
        if i == 0 {
            o += &x.to_string();
        } else {
            o += &format!("{:09}", x);
        }
    }
    o
}

/// m * 2^e, all digits
fn exact(m: u64, e: i32) -> String {
    let mut d = vec![(m % 1_000_000_000) as u32, (m / 1_000_000_000 % 1_000_000_000) as u32, (m / 1_000_000_000_000_000_000) as u32];
    while d.len() > 1 && *d.last().unwrap() == 0 {
        d.pop();
    }
    if e >= 0 {
        for _ in 0..e {
            big_mul(&mut d, 2);
        }
        big_text(&d)
    } else {
        // m / 2^k = m * 5^k / 10^k
        let k = -e as usize;
        for _ in 0..k {
            big_mul(&mut d, 5);
        }
        let t = big_text(&d);
        let t = if t.len() <= k { format!("{}{}", "0".repeat(k - t.len() + 1), t) } else { t };
        let (a, b) = t.split_at(t.len() - k);
        format!("{}.{}", a, b)
    }
}

/// Exactly between two doubles (to the even one), and just beside it.
fn c07_midpoints(s: &mut Src, cx: &mut Cx) -> Verdict {
    let n = gen::number(s).abs();
    let bits = n.to_bits();
    let frac = bits & ((1 << 52) - 1);
    let exp = (bits >> 52) as i32;
    let (m, e) = if exp == 0 { (frac, -1074) } else { (frac | 1 << 52, exp - 1075) };
    let mut t = exact(2 * m + 1, e - 1);
    let next = f64::from_bits(bits + 1);
    let even = if bits & 1 == 0 { n } else { next };
    cx.case_ref(true, &t);
    let judge = |t: &str, want: f64| {
        if want.is_finite() {
            reads_as(t, want)
        } else {
            rejects(t, "number too large")
        }
    };
    judge(&t, even)?;
    if !t.contains('.') {
        t.push_str(".0");
    }
    t.push_str("0000001");
    judge(&t, next)
}

fn c07_grid(i: u64, cx: &mut Cx) -> Verdict {
    // every exponent with 24 mantissas
    let exp = i / 48;
    let sign = i / 24 % 2;
    let m = match i % 24 {
        0 => 0,
        1 => 1,
        2 => (1u64 << 52) - 1,
        3 => (1 << 52) - 2,
        4 => 1 << 51,
        5 => 0x5_5555_5555_5555,
        6 => 0xA_AAAA_AAAA_AAAA,
        k => pbt::mix(exp, k) & ((1 << 52) - 1),
    };
    let n = f64::from_bits(sign << 63 | exp << 52 | m);
    cx.case(true, || format!("{:e}", n));
    writes_back(n)
}

fn c07_integers(i: u64, cx: &mut Cx) -> Verdict {
    cx.case(true, || format!("{}", i));
    let t = i.to_string();
    reads_as(&t, i as f64)?;
    match json::decode::<u32>(&t) {
        Ok(x) if x as u64 == i => (),
        o => return Err(format!("decode::<u32>({:?}) gives {:?}", t, o.ok())),
    }
    if json::encode(&i) != t || json::encode(&(i as i32)) != t || json::encode(&(i as f64)) != t {
        return Err(format!("{} is written as {}", i, json::encode(&i)));
    }
    if i > 0 {
        let t = format!("-{}", i);
        reads_as(&t, -(i as f64))?;
        if json::encode(&-(i as i64)) != t {
            return Err(format!("-{} is written as {}", i, json::encode(&-(i as i64))));
        }
    }
    Ok(())
}

fn c07_nonfinite(s: &mut Src, cx: &mut Cx) -> Verdict {
    // NaN and infinities anywhere in a value are written as null
    let sh = gen::SMALL;
    let mut v = gen::value(s, sh);
    let mut sown = 0;
    sow(s, &mut v, &mut sown);
    cx.label_if(sown > 1, "several");
    cx.case(sown > 0, || show(&v));
    let text = v.to_json().to_string();
    let want = render_ref(&v.nulled());
    if text != want {
        return Err(format!("written as {:?}, expected {:?}", clip(&text), clip(&want)));
    }
    let f = *s.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
    for (t, want) in [
        (json::encode(&f), "null"),
        (json::encode(&(f as f32)), "null"),
        (json::encode(&vec![f, 1.0]), "[null, 1]"),
        (json::encode(&Some(f)), "null"),
        (json::encode(&vec![("a", f)]), "{\"a\": null}"),
        (json::set("{}", "x", f).unwrap_or_default(), "{\"x\": null}"),
    ] {
        if t != want {
            return Err(format!("{:?} is written as {:?}, expected {:?}", f, t, want));
        }
    }
    Ok(())
}

fn sow(s: &mut Src, v: &mut V, n: &mut usize) {
    match v {
        V::Num(x) => {
            *x = gen::any_number(s);
            if s.flag() {
                *x = *s.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
            }
            *n += !x.is_finite() as usize;
        }
        V::Arr(a) => a.iter_mut().for_each(|x| sow(s, x, n)),
        V::Obj(m) => m.iter_mut().for_each(|x| sow(s, &mut x.1, n)),
        _ => (),
    }
}

pub fn c07() -> Check {
    Check {
        id: "C07",
        rule: "finite doubles of every exponent in many decimal spellings, arbitrary decimal texts (up to 800 digits, exponents up to 10^40), exact midpoints between doubles computed in big-number arithmetic, all integers up to a bound; NaN and infinities in values. Non-trivial: every case (non-finite suite: at least one non-finite number)",
        assumptions: &["Rust's str::parse::<f64> is correctly rounded (the midpoint suite does not need it)"],
        suites: vec![
            Suite { name: "doubles", kind: Kind::Random { quick: 300_000, thorough: 8_000_000, f: c07_doubles } },
            Suite { name: "decimals", kind: Kind::Random { quick: 200_000, thorough: 5_000_000, f: c07_decimals } },
            Suite { name: "midpoints", kind: Kind::Random { quick: 20_000, thorough: 500_000, f: c07_midpoints } },
            Suite { name: "grid", kind: Kind::Enumerated { quick: 2047 * 48, thorough: 2047 * 48, f: c07_grid } },
            Suite { name: "integers", kind: Kind::Enumerated { quick: 200_000, thorough: 10_000_000, f: c07_integers } },
            Suite { name: "non-finite", kind: Kind::Random { quick: 100_000, thorough: 2_000_000, f: c07_nonfinite } },
        ],
    }
}
