//! Generators.

use crate::model::*;
use pbt::Src;

pub use pbt::text::*;

/// Strings that often collide.
pub fn key(s: &mut Src) -> String {
    match s.weighted(&[6, 3, 3]) {
        0 => s.pick(&["a", "b", "c", "d"]).to_string(),
        1 => s.pick(WORDS).to_string(),
        _ => string(s),
    }
}

pub const NUMS: &[f64] = &[
    0.0,
    1.0,
    -1.0,
    -0.0,
    2.0,
    9.0,
    10.0,
    -10.0,
    0.1,
    0.5,
    1.5,
    -2.5,
    3.1416,
    100.0,
    255.0,
    256.0,
    65535.0,
    65536.0,
    2147483647.0,
    2147483648.0,
    -2147483648.0,
    4294967295.0,
    4294967296.0,
    9007199254740991.0,
    9007199254740992.0,
    9007199254740993.0,
    -9007199254740991.0,
    9223372036854775807.0,
    9223372036854774784.0,
    -9223372036854775808.0,
    18446744073709551615.0,
    18446744073709549568.0,
    1e15,
    1e16,
    1e17,
    1e20,
    1e21,
    1e22,
    1e23,
    1e100,
    1e300,
    1.7976931348623157e308,
    -1.7976931348623157e308,
    1e-5,
    1e-6,
    1e-7,
    1e-10,
    1e-100,
    1e-300,
    1e-307,
    2.2250738585072014e-308,
    2.2250738585072009e-308,
    4.9406564584124654e-324,
    -4.9406564584124654e-324,
    1.0000000000000002,
    0.30000000000000004,
    123456789.0,
    1234567890123456.0,
    0.000123,
    5e-324,
    4.35,
    0.1e-6,
    123456.789e3,
];

/// Finite.
pub fn number(s: &mut Src) -> f64 {
    match s.weighted(&[5, 6, 3, 3, 4, 2]) {
        0 => s.below(20) as f64,
        1 => *s.pick(NUMS),
        2 => {
            let v = s.bits() as i64;
            let sh = s.below(63);
            (v >> sh) as f64
        }
        3 => {
            let m = s.below(1_000_000) as f64;
            let d = *s.pick(&[1.0, 10.0, 100.0, 1000.0, 1e6, 8.0]);
            let v = m / d;
            if s.flag() {
                -v
            } else {
                v
            }
        }
        4 => {
            let f = f64::from_bits(s.bits());
            if f.is_finite() {
                f
            } else {
                f64::from_bits(f.to_bits() & 0x800F_FFFF_FFFF_FFFF)
            }
        }
        _ => {
            // next to a power of two or ten
            let base = if s.flag() { 2f64.powi(s.range(0, 2000) as i32 - 1000) } else { 10f64.powi(s.range(0, 600) as i32 - 300) };
            let d = s.below(5) as i64 - 2;
            f64::from_bits((base.to_bits() as i64 + d) as u64)
        }
    }
}

pub fn any_number(s: &mut Src) -> f64 {
    match s.weighted(&[9, 1]) {
        0 => number(s),
        _ => *s.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -f64::NAN]),
    }
}

#[derive(Clone, Copy)]
pub struct Shape {
    pub depth: usize,
    pub width: u64,
    pub max: usize,
}

pub const SMALL: Shape = Shape { depth: 3, width: 2, max: 6 };
pub const MEDIUM: Shape = Shape { depth: 5, width: 3, max: 12 };

pub fn scalar_value(s: &mut Src) -> V {
    match s.weighted(&[2, 2, 5, 5]) {
        0 => V::Null,
        1 => V::Bool(s.flag()),
        2 => V::Num(number(s)),
        _ => V::Str(string(s)),
    }
}

pub fn value(s: &mut Src, sh: Shape) -> V {
    let mut budget = 60usize;
    value_in(s, sh, sh.depth, &mut budget)
}

/// A value whose root is an array or an object more often than not.
pub fn document(s: &mut Src) -> V {
    let sh = *s.pick(&[SMALL, MEDIUM]);
    let mut budget = 60usize;
    match s.weighted(&[5, 4, 2]) {
        0 => object_in(s, sh, sh.depth, &mut budget),
        1 => array_in(s, sh, sh.depth, &mut budget),
        _ => value_in(s, sh, sh.depth, &mut budget),
    }
}

fn value_in(s: &mut Src, sh: Shape, depth: usize, budget: &mut usize) -> V {
    if depth == 0 || *budget == 0 {
        return scalar_value(s);
    }
    *budget -= 1;
    match s.weighted(&[5, 3, 3]) {
        0 => scalar_value(s),
        1 => array_in(s, sh, depth, budget),
        _ => object_in(s, sh, depth, budget),
    }
}

fn array_in(s: &mut Src, sh: Shape, depth: usize, budget: &mut usize) -> V {
    let mut a = Vec::new();
    while s.more(a.len(), sh.width, sh.max) {
        a.push(value_in(s, sh, depth - 1, budget));
    }
    V::Arr(a)
}

fn object_in(s: &mut Src, sh: Shape, depth: usize, budget: &mut usize) -> V {
    let mut m: Vec<(String, V)> = Vec::new();
    while s.more(m.len(), sh.width, sh.max) {
        let k = if !m.is_empty() && s.chance(1, 5) { m[s.below(m.len() as u64) as usize].0.clone() } else { key(s) };
        m.push((k, value_in(s, sh, depth - 1, budget)));
    }
    V::Obj(m)
}

/// `n` levels of arrays and objects around a scalar.
pub fn nested(s: &mut Src, n: usize) -> V {
    let pattern: Vec<bool> = (0..s.range(1, 5)).map(|_| s.flag()).collect();
    let wide = s.flag();
    let mut v = scalar_value(s);
    for i in 0..n {
        v = if pattern[i % pattern.len()] {
            let mut m = Vec::new();
            if wide && i % 3 == 0 {
                m.push(("x".to_string(), V::Num(i as f64)));
            }
            m.push((if i % 2 == 0 { "a".to_string() } else { "k}\"".to_string() }, v));
            V::Obj(m)
        } else {
            let mut a = vec![v];
            if wide && i % 3 == 1 {
                a.push(V::s("]"));
            }
            V::Arr(a)
        };
    }
    v
}

/// A run of one character up to next to a power of two, then others.
pub fn boundary_string(s: &mut Src) -> String {
    let run = *s.pick(&['a', 'z', '0', ' ', 'é', '日', '💖']);
    let n = ((1usize << s.range(3, 13)) / (if s.flag() { run.len_utf8() } else { 1 }) + s.range(0, 6)).saturating_sub(s.range(0, 4));
    let mut t: String = std::iter::repeat(run).take(n).collect();
    for _ in 0..s.range(1, 4) {
        t.push(ch(s));
    }
    if s.flag() {
        for _ in 0..s.range(0, 40) {
            t.push(run);
        }
    }
    t
}

/// Large in one direction: many elements, many members, many values of one key, a long string, deep.
pub fn large(s: &mut Src) -> V {
    let n = *s.pick(&[17usize, 33, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 700, 1000, 1025]);
    match s.weighted(&[3, 3, 3, 2, 2, 2]) {
        0 => {
            let xs: Vec<V> = (0..5).map(|_| scalar_value(s)).collect();
            V::Arr((0..n).map(|i| if i % 4 == 3 { xs[i % 5].clone() } else { V::Num(i as f64) }).collect())
        }
        1 => {
            let st = s.range(1, 97);
            V::Obj((0..n).map(|i| (format!("k{}", (i * st) % (n + 1)), V::Num(i as f64))).collect())
        }
        2 => {
            let ks = [key(s), key(s), key(s)];
            let w = s.range(1, 3);
            V::Obj((0..n).map(|i| (ks[(i * i / 3) % w].clone(), V::Num(i as f64))).collect())
        }
        3 => {
            let t = if s.flag() {
                boundary_string(s)
            } else {
                let cs: Vec<char> = (0..7).map(|_| ch(s)).collect();
                (0..n * 5).map(|i| cs[i * i % 7]).collect()
            };
            if s.flag() {
                V::Obj(vec![(t, V::Null)])
            } else {
                V::Arr(vec![V::Str(t)])
            }
        }
        4 => {
            let d = s.range(6, 200);
            nested(s, d)
        }
        _ => {
            let row = document(s);
            V::Arr((0..n.min(100)).map(|_| row.clone()).collect())
        }
    }
}

// ---------------------------------------------------------------------------------------------
// spelling a value as text

#[derive(Clone, Copy)]
pub struct Style {
    /// out of 8
    pub space: u64,
    pub escape: u64,
    pub number: u64,
}

pub fn style(s: &mut Src) -> Style {
    Style {
        space: *s.pick(&[0, 1, 3, 7]),
        escape: *s.pick(&[0, 1, 4, 8]),
        number: *s.pick(&[0, 4]),
    }
}

pub fn ws(s: &mut Src, st: Style, o: &mut String) {
    if st.space > 0 && s.chance(st.space, 8) {
        let n = s.range(1, 3);
        for _ in 0..n {
            o.push(*s.pick(&[' ', '\n', '\t', '\r']));
        }
    }
}

pub fn spell(s: &mut Src, v: &V) -> String {
    let st = style(s);
    let mut o = String::new();
    ws(s, st, &mut o);
    spell_in(s, st, v, &mut o);
    ws(s, st, &mut o);
    o
}

fn spell_in(s: &mut Src, st: Style, v: &V, o: &mut String) {
    match v {
        V::Null => *o += "null",
        V::Bool(b) => *o += if *b { "true" } else { "false" },
        V::Num(n) => *o += &spell_number(s, *n, st.number),
        V::Str(t) => spell_string(s, t, st.escape, o),
        V::Arr(a) => {
            o.push('[');
            ws(s, st, o);
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                    ws(s, st, o);
                }
                spell_in(s, st, x, o);
                ws(s, st, o);
            }
            o.push(']');
        }
        V::Obj(m) => {
            o.push('{');
            ws(s, st, o);
            for (i, (k, x)) in m.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                    ws(s, st, o);
                }
                spell_string(s, k, st.escape, o);
                ws(s, st, o);
                o.push(':');
                ws(s, st, o);
                spell_in(s, st, x, o);
                ws(s, st, o);
            }
            o.push('}');
        }
    }
}

pub fn spell_string(s: &mut Src, t: &str, escape: u64, o: &mut String) {
    o.push('"');
    for c in t.chars() {
        let short = match c {
            '"' => Some('"'),
            '\\' => Some('\\'),
            '/' => Some('/'),
            '\u{8}' => Some('b'),
            '\u{c}' => Some('f'),
            '\n' => Some('n'),
            '\r' => Some('r'),
            '\t' => Some('t'),
            _ => None,
        };
        let must = c == '"' || c == '\\' || (c as u32) < 0x20;
        if !must && !(escape > 0 && s.chance(escape, 8)) {
            o.push(c);
            continue;
        }
        if let Some(e) = short {
            if !(escape > 0 && s.chance(escape, 12)) {
                o.push('\\');
                o.push(e);
                continue;
            }
        }
        let mut b = [0u16; 2];
        for u in c.encode_utf16(&mut b) {
            let hex = match if escape > 0 { s.below(3) } else { 0 } {
                0 => format!("{:04x}", u),
                1 => format!("{:04X}", u),
                _ => {
                    let bits = s.below(16);
                    format!("{:04x}", u)
                        .chars()
                        .enumerate()
                        .map(|(i, c)| if bits >> i & 1 == 1 { c.to_ascii_uppercase() } else { c })
                        .collect()
                }
            };
            *o += "\\u";
            *o += &hex;
        }
    }
    o.push('"');
}

/// A decimal text whose nearest double is `n` (bit by bit).
pub fn spell_number(s: &mut Src, n: f64, variety: u64) -> String {
    let plain = number_ref(n);
    if variety == 0 || !s.chance(variety, 8) {
        return plain;
    }
    let sci = format!("{:e}", n); // d.ddde-x
    let (mant, exp) = sci.split_once('e').unwrap();
    let exp: i64 = exp.parse().unwrap();
    let (sign, mant) = match mant.strip_prefix('-') {
        Some(m) => ("-", m),
        None => ("", mant),
    };
    let e = *s.pick(&['e', 'E']);
    let show_exp = |s: &mut Src, x: i64| -> String {
        let pad = "0".repeat(s.below(3) as usize);
        if x < 0 {
            format!("{}-{}{}", e, pad, -x)
        } else if s.flag() {
            format!("{}+{}{}", e, pad, x)
        } else {
            format!("{}{}{}", e, pad, x)
        }
    };
    let out = match s.below(8) {
        0 => format!("{}{}{}", sign, mant, show_exp(s, exp)),
        1 => {
            // digits as an integer, exponent adjusted
            let digits: String = mant.chars().filter(|c| *c != '.').collect();
            let frac = digits.len() as i64 - 1;
            let digits = match digits.trim_start_matches('0') {
                "" => "0",
                d => d,
            };
            format!("{}{}{}", sign, digits, show_exp(s, exp - frac))
        }
        2 => {
            // 0.ddd
            let digits: String = mant.chars().filter(|c| *c != '.').collect();
            let zeros = s.below(4) as i64;
            format!("{}0.{}{}{}", sign, "0".repeat(zeros as usize), digits, show_exp(s, exp + 1 + zeros))
        }
        3 => {
            // trailing zeros
            let z = "0".repeat(s.range(1, 5));
            if plain.contains('.') {
                format!("{}{}", plain, z)
            } else {
                format!("{}.{}", plain, z)
            }
        }
        4 => {
            // every digit of the double
            let t = format!("{:.1100}", n);
            let t = t.trim_end_matches('0').trim_end_matches('.').to_string();
            if t.is_empty() || t == "-" {
                plain.clone()
            } else {
                t
            }
        }
        5 => {
            let digits = s.range(17, 25);
            format!("{:.*e}", digits, n).replace('e', &e.to_string())
        }
        6 => {
            // trailing zeros, zero exponent
            if plain.contains('.') {
                format!("{}0{}0", plain, e)
            } else {
                format!("{}.0{}{}0", plain, e, s.pick(&["", "+", "-"]))
            }
        }
        _ => {
            let z = "0".repeat(s.range(1, 4));
            let dot = if mant.contains('.') { "" } else { "." };
            format!("{}{}{}{}{}", sign, mant, dot, z, show_exp(s, exp))
        }
    };
    match out.parse::<f64>() {
        Ok(f) if f.to_bits() == n.to_bits() => out,
        _ => plain,
    }
}

// ---------------------------------------------------------------------------------------------
// damaging text

pub const BITS: &[&str] = &[
    ",", ":", "\"", "{", "}", "[", "]", " ", "\\", "0", "1", "-", "+", ".", "e", "E", "null", "true", "false", "\n", "\t",
    "\u{b}", "\u{c}", "\u{a0}", "\u{feff}", "\u{2028}", "\u{0}", "\u{1f}", "\\u", "\\ud800", "\\udc00", "\\u12", "\\x",
    "'", "/", "//", "/**/", "NaN", "Infinity", "[]", "{}", "\"a\"", "\"a\": 1", ", ,", "1e", "1.", ".5", "01", "-0", "00",
    "1e999", "tru", "nul", "None", "\u{3000}", "a", "\u{1f496}",
];

pub fn mutate(s: &mut Src, text: &str) -> String {
    let mut cs: Vec<char> = text.chars().collect();
    let n = s.range(1, 3);
    for _ in 0..n {
        let at = s.below(cs.len() as u64 + 1) as usize;
        match s.weighted(&[5, 5, 3, 2, 2, 2, 1]) {
            0 => {
                let b: Vec<char> = s.pick(BITS).chars().collect();
                for (i, c) in b.into_iter().enumerate() {
                    cs.insert(at + i, c);
                }
            }
            1 => {
                if at < cs.len() {
                    cs.remove(at);
                }
            }
            2 => {
                if at < cs.len() {
                    let c = s.pick(BITS).chars().next().unwrap();
                    cs[at] = c;
                }
            }
            3 => {
                // delete a stretch
                let to = (at + s.range(1, 8)).min(cs.len());
                cs.drain(at.min(to)..to);
            }
            4 => {
                // repeat a stretch
                let to = (at + s.range(1, 6)).min(cs.len());
                let part: Vec<char> = cs[at..to].to_vec();
                let where_ = s.below(cs.len() as u64 + 1) as usize;
                for (i, c) in part.into_iter().enumerate() {
                    cs.insert(where_ + i, c);
                }
            }
            5 => {
                if at + 1 < cs.len() {
                    cs.swap(at, at + 1);
                }
            }
            _ => cs.truncate(at),
        }
    }
    cs.into_iter().collect()
}

/// A sequence of tokens with no grammar.
pub fn token_soup(s: &mut Src) -> String {
    let mut o = String::new();
    let mut n = 0;
    while s.more(n, 8, 30) {
        o += s.pick(BITS);
        n += 1;
    }
    o
}

// ---------------------------------------------------------------------------------------------
// paths

/// A path into `v`: mostly along what is there, sometimes aside.
pub fn path(s: &mut Src, v: &V, stray: u64) -> Vec<Seg> {
    let mut out = Vec::new();
    let mut cur = Some(v);
    loop {
        let seg = match cur {
            Some(V::Obj(m)) if !m.is_empty() && !s.chance(stray, 16) => Seg::Key(s.pick(m).0.clone()),
            Some(V::Arr(a)) if !a.is_empty() && !s.chance(stray, 16) => Seg::Index(s.below(a.len() as u64) as usize),
            Some(V::Obj(_)) if !s.chance(stray, 24) => Seg::Key(key(s)),
            Some(V::Arr(a)) if !s.chance(stray, 24) => {
                let beyond = match s.below(40) {
                    39 => *s.pick(&[15usize, 16, 31, 33, 63, 64, 65, 127, 128, 129, 255, 256, 300, 1023, 1025, 4096]),
                    k => [0usize, 1, 2, 3, 7][k as usize % 5],
                };
                Seg::Index(a.len() + beyond)
            }
            _ => any_seg(s),
        };
        cur = cur.and_then(|c| c.child(&seg).ok());
        out.push(seg);
        let stop = match cur {
            Some(c) if c.is_container() => s.chance(1, 4),
            _ => !s.chance(1, 4),
        };
        if stop || out.len() >= 12 {
            return out;
        }
    }
}

pub fn any_seg(s: &mut Src) -> Seg {
    if s.flag() {
        Seg::Key(key(s))
    } else if s.chance(1, 100) {
        Seg::Index(*s.pick(&[16usize, 33, 64, 65, 127, 128, 200, 256, 257, 1000, 1024]))
    } else {
        Seg::Index(s.below(6) as usize)
    }
}

/// Path text can name any sequence of keys and indices, but for these.
pub fn expressible(p: &[Seg]) -> bool {
    let n = p.len();
    !p.iter().enumerate().any(|(i, s)| match s {
        Seg::Key(k) => (k.ends_with('\\') && i + 1 < n) || (k.is_empty() && n == 1),
        Seg::Index(_) => false,
    })
}

pub fn spell_path(p: &[Seg]) -> String {
    p.iter()
        .map(|s| match s {
            Seg::Key(k) => {
                let lead = if k.starts_with('#') || k.starts_with('\\') { "\\" } else { "" };
                format!("{}{}", lead, k.replace('.', "\\."))
            }
            Seg::Index(i) => format!("#{}", i),
        })
        .collect::<Vec<_>>()
        .join(".")
}

/// What path text means; None where the documentation does not say.
pub fn parse_path_ref(t: &str) -> Option<Result<Vec<Seg>, E>> {
    if t.is_empty() {
        return Some(Err(E::PathSyntaxError));
    }
    // split at unescaped dots; `\.` is a dot
    let cs: Vec<char> = t.chars().collect();
    let mut raw: Vec<String> = vec![String::new()];
    let mut i = 0;
    while i < cs.len() {
        if cs[i] == '\\' && cs.get(i + 1) == Some(&'.') {
            raw.last_mut().unwrap().push('.');
            i += 2;
        } else if cs[i] == '.' {
            raw.push(String::new());
            i += 1;
        } else {
            raw.last_mut().unwrap().push(cs[i]);
            i += 1;
        }
    }
    let mut out = Vec::new();
    let mut bad = false;
    let mut unknown = false;
    for r in raw {
        if let Some(n) = r.strip_prefix('#') {
            if n.starts_with('+') {
                unknown = true; // `#+1`
            } else if n.is_empty() || !n.bytes().all(|b| b.is_ascii_digit()) {
                bad = true;
            } else {
                match n.parse::<usize>() {
                    Ok(i) => out.push(Seg::Index(i)),
                    Err(_) => bad = true,
                }
            }
        } else if let Some(rest) = r.strip_prefix('\\') {
            if rest.starts_with('#') || rest.starts_with('\\') {
                out.push(Seg::Key(rest.to_string()));
            } else {
                unknown = true; // `\x`
            }
        } else {
            out.push(Seg::Key(r));
        }
    }
    if unknown {
        None
    } else if bad {
        Some(Err(E::PathSyntaxError))
    } else {
        Some(Ok(out))
    }
}

pub const HUGE: u64 = 9 * 6;

/// Values of extreme size, by number.
pub fn huge(i: u64) -> V {
    let n = [1_500usize, 2_047, 2_048, 4_097, 8_193, 20_000, 65_535, 65_537, 100_000][i as usize % 9];
    match i / 9 {
        0 => V::Arr((0..n).map(|k| V::Num(k as f64 / 4.0)).collect()),
        1 => V::Obj((0..n).map(|k| (format!("{}", k * 7919 % n), V::Num(k as f64))).collect()),
        2 => V::Obj((0..n).map(|k| ("k".to_string(), V::Num(k as f64))).collect()),
        3 => V::Str((0..n).map(|k| ['a', '"', 'é', '\\', '💖', '\n', ' '][k * k % 7]).collect()),
        4 => V::Obj(vec![((0..n).map(|k| ['k', ']', '"', '}', ','][k * 3 % 5]).collect(), V::Bool(true))]),
        _ => V::Arr((0..n / 8).map(|k| V::Obj(vec![("id".into(), V::Num(k as f64)), ("t".into(), V::Arr(vec![V::s("x}"), V::Null]))])).collect()),
    }
}
