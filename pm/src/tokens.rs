//! Token streams as lists of texts.

use proc_macro::{Delimiter, TokenStream, TokenTree};

/// Operators of more than one character: they count as one token when written as one.
#[allow(dead_code)]
pub const OPERATORS: &[&str] = &[
    ">>=", "<<=", "...", "..=", "->", "=>", "<=", ">=", "==", "!=", "&&", "||", "+=", "-=", "*=", "/=", "%=", "^=", "&=", "|=", "<<", ">>", "..", "::",
];

/// Every token; spacing plays no role.
pub fn flat(ts: TokenStream) -> Vec<String> {
    let mut o = Vec::new();
    put(ts, &mut o);
    o
}

fn put(ts: TokenStream, o: &mut Vec<String>) {
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::None => ("", ""),
                };
                o.push(a.into());
                put(g.stream(), o);
                o.push(b.into());
                o.retain(|x| !x.is_empty());
            }
            TokenTree::Punct(p) => o.push(p.as_char().to_string()),
            // a lifetime is one token, too
            TokenTree::Ident(i) if o.last().map_or(false, |x| x == "'") => {
                o.pop();
                o.push(format!("'{}", i));
            }
            other => o.push(other.to_string()),
        }
    }
}

/// The tokens of a text, or the reason why there are none.
pub fn lex(text: &str) -> Result<TokenStream, String> {
    match pbt::no_panic(|| text.parse::<TokenStream>()) {
        Ok(Ok(t)) => Ok(t),
        Ok(Err(e)) => Err(format!("not tokens: {:?}: {}", text, e)),
        Err(e) => Err(format!("not tokens: {:?}: {}", text, e)),
    }
}

/// The same tokens, whatever the spacing and the commas before a closing delimiter?
pub fn norm(text: &str) -> Result<String, String> {
    let f = flat(lex(text)?);
    let mut o: Vec<String> = Vec::new();
    for (i, t) in f.iter().enumerate() {
        // Vec::<T> is Vec<T>, Fn::(T) is Fn(T)
        let at = |k: usize| f.get(k).map_or("", |x| x.as_str());
        let arguments = |k: usize| at(k) == "<" && at(k - 1) == ":" || at(k) == "(";
        if t == ":" && i > 0 && at(i + 1) == ":" && arguments(i + 2) && at(i - 1) != ":" || i > 1 && t == ":" && at(i - 1) == ":" && arguments(i + 1) && at(i - 2) != ":" {
            continue;
        }
        if t == "," {
            let one_tuple = f.get(i + 1).map_or(false, |n| n == ")") && is_one_tuple(&f, i);
            if let Some(n) = f.get(i + 1) {
                if (n == ")" && !one_tuple) || n == "]" || n == "}" || n == ">" {
                    continue;
                }
            }
        }
        o.push(t.clone());
    }
    Ok(o.join(" "))
}

/// Is the comma at `i` the only one of its parentheses?
fn is_one_tuple(f: &[String], i: usize) -> bool {
    let (mut depth, mut angle) = (0i32, 0i32);
    for k in (0..i).rev() {
        match f[k].as_str() {
            ")" | "]" | "}" => depth += 1,
            "(" | "[" | "{" if depth == 0 => return true,
            "(" | "[" | "{" => depth -= 1,
            ">" if depth == 0 && (k == 0 || f[k - 1] != "-") => angle += 1,
            "<" if depth == 0 => angle -= 1,
            "," if depth == 0 && angle == 0 => return false,
            _ => (),
        }
    }
    false
}
