//! Generators of characters and strings, and their spellings in Rust.

use crate::Src;

pub const BOUNDARY: &[char] = &[
    '\u{0}', '\u{1}', '\u{7}', '\u{8}', '\t', '\n', '\u{b}', '\u{c}', '\r', '\u{e}', '\u{1f}', ' ', '!', '"', '#', '/',
    '0', '9', ':', '@', 'A', '[', '\\', ']', '`', '{', '}', '~', '\u{7f}', '\u{80}', '\u{85}', '\u{a0}', '\u{ff}',
    '\u{100}', '\u{7ff}', '\u{800}', '\u{fff}', '\u{1000}', '\u{2028}', '\u{2029}', '\u{3000}', '\u{4e00}', '\u{cfff}',
    '\u{d000}', '\u{d7ff}', '\u{e000}', '\u{f8ff}', '\u{fdd0}', '\u{feff}', '\u{fffd}', '\u{fffe}', '\u{ffff}',
    '\u{10000}', '\u{103ff}', '\u{10400}', '\u{1f496}', '\u{1ffff}', '\u{20000}', '\u{fffff}', '\u{100000}',
    '\u{10fc00}', '\u{10ffff}',
];

pub const STRUCTURAL: &[char] = &['"', '\\', '/', '{', '}', '[', ']', ',', ':', '.', '#', ' ', 'u', 'n', '0', '-'];

pub const WORDS: &[&str] = &[
    "", "a", "b", "key", "name", "null", "true", "false", "0", "-1", "1e5", "\\u0041", "\\", "\\\\", "\"", "\\\"", "\"\"",
    "[]", "{}", "]", "}", "[", "{", ",", ":", ", ", ": ", "{\"a\": 1}", "[1, 2]", " ", "\t", "#0", "#", "\\#0", ".", "a.b",
    "..", "#1.a", "日本", "💖", "é", "\u{feff}x", "\\n", "\n", "//", "/* */", "NaN", "Infinity", "undefined", "'", "a\\",
    "\u{7f}", "\u{0}", "\u{d7ff}\u{e000}",
];

pub fn ch(s: &mut Src) -> char {
    match s.weighted(&[8, 4, 4, 2, 2]) {
        0 => (b'a' + s.below(26) as u8) as char,
        1 => *s.pick(STRUCTURAL),
        2 => *s.pick(BOUNDARY),
        3 => (b' ' + s.below(95) as u8) as char,
        _ => scalar(s),
    }
}

pub fn scalar(s: &mut Src) -> char {
    let n = match s.weighted(&[2, 2, 2, 2]) {
        0 => s.below(0x80),
        1 => s.below(0x800),
        2 => s.below(0xF800),
        _ => s.below(0x10F800),
    } as u32;
    char::from_u32(if n >= 0xD800 { n + 0x800 } else { n }).unwrap()
}

pub fn string(s: &mut Src) -> String {
    match s.weighted(&[10, 6, 3, 1]) {
        0 => {
            let mut o = String::new();
            let mut n = 0;
            while s.more(n, 4, 24) {
                o.push(ch(s));
                n += 1;
            }
            o
        }
        1 => s.pick(WORDS).to_string(),
        2 => {
            // one class of character, repeated
            let c = ch(s);
            let n = s.range(1, 12);
            std::iter::repeat(c).take(n).collect()
        }
        _ => {
            let n = *s.pick(&[31usize, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 600]);
            let cs: Vec<char> = (0..8).map(|_| ch(s)).collect();
            (0..n).map(|i| cs[i * 7 % 8]).collect()
        }
    }
}

fn risky(c: char) -> bool {
    c < ' ' || c == '\u{7f}' || ('\u{202a}'..='\u{202e}').contains(&c) || ('\u{2066}'..='\u{2069}').contains(&c) || c == '\u{feff}' || ('\u{80}'..'\u{a0}').contains(&c)
}

/// A string literal of that value, in any spelling.
pub fn rust_string(s: &mut Src, value: &str) -> String {
    // raw
    if s.chance(1, 3) && !value.chars().any(|c| risky(c) && c != '\n' && c != '\t') {
        let mut n = s.below(3) as usize;
        loop {
            let close = format!("\"{}", "#".repeat(n));
            if !value.contains(&close) {
                return format!("r{0}\"{1}\"{0}", "#".repeat(n), value);
            }
            n += 1;
        }
    }
    let noisy = s.chance(1, 3);
    let mut o = String::from("\"");
    let mut skipping = false;
    for c in value.chars() {
        let plain = !risky(c) && c != '"' && c != '\\' && !(skipping && c.is_ascii_whitespace());
        if plain && !(noisy && s.chance(1, 3)) {
            o.push(c);
        } else {
            let short = match c {
                '\n' => Some("\\n"),
                '\r' => Some("\\r"),
                '\t' => Some("\\t"),
                '\\' => Some("\\\\"),
                '\0' => Some("\\0"),
                '\'' => Some("\\'"),
                '"' => Some("\\\""),
                _ => None,
            };
            match short {
                Some(e) if !s.chance(1, 4) => o.push_str(e),
                _ if (c as u32) < 0x80 && s.flag() => o.push_str(&format!("\\x{:02x}", c as u32)),
                _ => match s.below(3) {
                    0 => o.push_str(&format!("\\u{{{:X}}}", c as u32)),
                    1 => o.push_str(&format!("\\u{{{:06x}}}", c as u32)),
                    _ => o.push_str(&format!("\\u{{{:x}_}}", c as u32)),
                },
            }
        }
        skipping = false;
        if s.chance(1, if noisy { 12 } else { 200 }) {
            o.push_str(s.pick(&["\\\n   ", "\\\n   ", "\\\n", "\\\n\t", "\\\n \t \n\t  "]));
            skipping = true;
        }
    }
    o.push('"');
    o
}

