//! Near misses: token-level and character-level edits of valid texts.

use crate::chars::*;
use crate::gen::{Tok, TK};
use crate::lex::KEYWORDS;
use crate::rng::Rng;

pub const PUNCT: &[&str] = &[
    "{", "}", "(", ")", "[", "]", ".", ";", ",", "*", "+", "-", "/", "|", "||", "&&", "!", "=",
    "!=", "<", ">", "<=", ">=", "^", "^^", "?",
];

fn tok(s: &str, k: TK) -> Tok {
    Tok { s: s.to_string(), k }
}
/// one token of every sort, keywords drawn by `r`
pub fn any_token(r: &mut Rng) -> Tok {
    match r.below(24) {
        0..=8 => tok(r.pick(PUNCT), TK::P),
        9..=14 => tok(r.pick(KEYWORDS), TK::Kw),
        15 => tok("a", TK::A),
        16 => tok(r.pick(&["<u>", "<>"]), TK::Iri),
        17 => tok(r.pick(&["x:y", ":z"]), TK::Pname),
        18 => tok(r.pick(&["x:", ":"]), TK::Pns),
        19 => tok("_:b", TK::Bnode),
        20 => tok(r.pick(&["?v", "$w"]), TK::Var),
        21 => tok(r.pick(&["\"s\"", "''"]), TK::Str),
        22 => tok(r.pick(&["1", "-2", "+.5", "3e4", "1.5"]), TK::Num),
        _ => {
            if r.coin() {
                tok("@en", TK::Lang)
            } else {
                tok(r.pick(&["()", "[]"]), TK::Pair)
            }
        }
    }
}
/// the vocabulary used by the exhaustive single-edit sweep
pub fn vocabulary() -> Vec<Tok> {
    let mut v: Vec<Tok> = PUNCT.iter().map(|s| tok(s, TK::P)).collect();
    v.extend(KEYWORDS.iter().map(|s| tok(s, TK::Kw)));
    v.extend([
        tok("a", TK::A),
        tok("<u>", TK::Iri),
        tok("x:y", TK::Pname),
        tok("x:", TK::Pns),
        tok("_:b", TK::Bnode),
        tok("?v", TK::Var),
        tok("\"s\"", TK::Str),
        tok("1", TK::Num),
        tok("-2", TK::Num),
        tok("1.5", TK::Num),
        tok("@en", TK::Lang),
        tok("()", TK::Pair),
        tok("[]", TK::Pair),
    ]);
    v
}

/// another token of the same kind, little different
pub fn similar(r: &mut Rng, t: &mut Tok) {
    let c: Vec<char> = t.s.chars().collect();
    match t.k {
        TK::Kw => *t = tok(r.pick(KEYWORDS), TK::Kw),
        TK::P | TK::Mod => t.s = r.pick(PUNCT).to_string(),
        TK::A => *t = tok("<u>", TK::Iri),
        TK::Pair => t.s = r.pick(&["()", "[]"]).to_string(),
        TK::Num => {
            t.s = match r.below(6) {
                0 => format!("{}0", t.s),
                1 => format!("-{}", t.s.trim_start_matches(&['+', '-'][..])),
                2 => format!("+{}", t.s.trim_start_matches(&['+', '-'][..])),
                3 => r.pick(&["0", "-0", "0.0", "-0.0", "0e0", "1", "1.0", "1e0", "10e-1", "01"]).to_string(),
                4 => format!("{}e0", t.s),
                _ => format!("{}1", t.s),
            }
        }
        _ if c.len() > 1 => {
            let i = r.range(1, c.len() - 1);
            let mut c = c;
            match r.below(3) {
                0 => c[i] = *r.pick(&['a', 'A', 'b', '0', 'z']),
                1 => c.insert(i, 'a'),
                _ => {
                    if c[i].is_lowercase() {
                        c[i] = c[i].to_ascii_uppercase()
                    } else {
                        c[i] = c[i].to_ascii_lowercase()
                    }
                }
            }
            t.s = c.into_iter().collect();
            if let (TK::Var, true) = (t.k, r.one_in(3)) {
                t.s = t.s.replace('?', "\0").replace('$', "?").replace('\0', "$");
            }
        }
        _ => {}
    }
}

/// single tokens, bracketed parts, and bracketed parts with the token before them
pub fn spans(t: &[Tok]) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut open: Vec<usize> = vec![];
    for (i, x) in t.iter().enumerate() {
        v.push((i, i + 1));
        match x.s.as_str() {
            "(" | "{" | "[" => open.push(i),
            ")" | "}" | "]" => {
                if let Some(o) = open.pop() {
                    v.push((o, i + 1));
                    if o > 0 {
                        v.push((o - 1, i + 1));
                    }
                }
            }
            _ => {}
        }
    }
    v
}
const WRAPS: [(&str, &str); 4] = [("(", ")"), ("{", "}"), ("[", "]"), ("( (", ") )")];
const SEPARATORS: [&str; 12] = ["", ",", ";", ".", "|", "/", "||", "&&", "=", "+", "AS", "UNION"];
/// ways of `around`
pub const WAYS: usize = 4 + 12 + 1;
/// the tokens with a..b bracketed once more, repeated after a separator, or out of its brackets
pub fn around(t: &[Tok], a: usize, b: usize, w: usize) -> Option<Vec<Tok>> {
    let mut v: Vec<Tok> = t[..a].to_vec();
    if w < 4 {
        v.extend(WRAPS[w].0.split(' ').map(|s| tok(s, TK::P)));
        v.extend_from_slice(&t[a..b]);
        v.extend(WRAPS[w].1.split(' ').map(|s| tok(s, TK::P)));
    } else if w < 16 {
        v.extend_from_slice(&t[a..b]);
        let s = SEPARATORS[w - 4];
        if !s.is_empty() {
            v.push(tok(s, if s.len() > 1 && s.as_bytes()[0].is_ascii_alphabetic() { TK::Kw } else { TK::P }));
        }
        v.extend_from_slice(&t[a..b]);
    } else {
        if b - a < 2 || !matches!(t[a].s.as_str(), "(" | "{" | "[") {
            return None;
        }
        v.extend_from_slice(&t[a + 1..b - 1]);
    }
    v.extend_from_slice(&t[b..]);
    Some(v)
}

pub fn tokens(r: &mut Rng, toks: &mut Vec<Tok>) {
    let n = [1, 1, 1, 2, 3][r.below(5)];
    for _ in 0..n {
        if toks.is_empty() {
            let t = any_token(r);
            toks.push(t);
            continue;
        }
        let i = r.below(toks.len());
        match r.below(13) {
            10..=12 => {
                let sp = spans(toks);
                let (a, b) = *r.pick(&sp);
                let w = r.below(WAYS);
                if let Some(x) = around(toks, a, b, w) {
                    *toks = x
                }
            }
            9 => {
                // run two tokens together
                if i + 1 < toks.len() {
                    let b = toks.remove(i + 1);
                    toks[i].s.push_str(&b.s);
                    toks[i].k = b.k;
                }
            }
            0 | 1 => {
                toks.remove(i);
            }
            2 => {
                let t = toks[i].clone();
                toks.insert(i, t);
            }
            3 => {
                if i + 1 < toks.len() {
                    toks.swap(i, i + 1)
                }
            }
            4 => {
                let j = r.below(toks.len());
                toks.swap(i, j)
            }
            5 => toks[i] = any_token(r),
            6 => {
                let t = any_token(r);
                toks.insert(i, t)
            }
            7 => {
                // move or repeat a range
                let l = r.range(1, 6).min(toks.len() - i);
                let part: Vec<Tok> = toks[i..i + l].to_vec();
                if r.coin() {
                    toks.drain(i..i + l);
                }
                let j = r.below(toks.len() + 1);
                toks.splice(j..j, part);
            }
            _ => {
                if r.one_in(4) {
                    toks.truncate(i)
                } else {
                    let l = r.range(1, 5).min(toks.len() - i);
                    toks.drain(i..i + l);
                }
            }
        }
    }
}

const HOSTILE: &[char] = &[
    '{', '}', '(', ')', '[', ']', '<', '>', '"', '\'', '\\', '#', '@', '^', '?', '$', '.', ':', ';',
    ',', '*', '+', '-', '/', '|', '&', '!', '=', '_', '%', ' ', '\n', '\r', '\t', '0', '9', 'a',
    'e', 'E', 'u', 'x', '\u{0}', '\u{b}', '\u{c}', '\u{7f}', '\u{85}', '\u{a0}', '\u{b7}',
    '\u{130}', '\u{131}', '\u{17f}', '\u{212a}', '\u{300}', '\u{37e}', '\u{2028}', '\u{3000}',
    '\u{feff}', '\u{ffff}', '\u{e9}', '\u{10ffff}', '\u{1f600}',
];
pub fn any_char(r: &mut Rng) -> char {
    match r.below(6) {
        0..=3 => *r.pick(HOSTILE),
        4 => *r.pick(INTERESTING),
        _ => char::from_u32(r.below(0x110000) as u32).unwrap_or('\u{fffd}'),
    }
}

pub fn text(r: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    let n = [1, 1, 1, 2, 4][r.below(5)];
    for _ in 0..n {
        if c.is_empty() {
            c.push(any_char(r));
            continue;
        }
        let i = r.below(c.len());
        match r.below(8) {
            0 | 1 => {
                c.remove(i);
            }
            2 => {
                let x = any_char(r);
                c.insert(i, x)
            }
            3 => c[i] = any_char(r),
            4 => {
                let x = c[i];
                c.insert(i, x)
            }
            5 => {
                if i + 1 < c.len() {
                    c.swap(i, i + 1)
                }
            }
            6 => c.truncate(i),
            _ => {
                let l = r.range(1, 10).min(c.len() - i);
                let part: Vec<char> = c.drain(i..i + l).collect();
                if r.coin() {
                    let j = r.below(c.len() + 1);
                    c.splice(j..j, part);
                }
            }
        }
    }
    c.into_iter().collect()
}

/// arbitrary text: random characters and token soup
pub fn soup(r: &mut Rng) -> String {
    let mut s = String::new();
    let n = match r.below(10) {
        0 => 0,
        1..=6 => r.range(1, 12),
        7..=8 => r.range(13, 60),
        _ => r.range(61, 400),
    };
    let style = r.below(4);
    for _ in 0..n {
        match style {
            0 => s.push(any_char(r)),
            1 => {
                s.push_str(&any_token(r).s);
                s.push(' ');
            }
            2 => s.push_str(&any_token(r).s),
            _ => {
                if r.coin() {
                    s.push_str(&any_token(r).s)
                } else {
                    s.push(any_char(r))
                }
            }
        }
    }
    s
}
