//! Reference lexer: terminals of SPARQL 1.1 section 19.8, longest match.

use crate::chars::*;

#[derive(Clone, Debug, PartialEq)]
pub enum K {
    Iri(String),
    Pname(String, String),
    Pns(String),
    Bnode(String),
    Var(char, String),
    Lang(String),
    Str(String),
    /// text with sign; kind 'i' integer, 'd' decimal, 'e' double
    Num(String, char),
    Word(String),
    P(&'static str),
    Nil,
    Anon,
    Bad,
}

#[derive(Clone, Debug)]
pub struct Tok {
    pub k: K,
    pub s: usize,
    pub e: usize,
}

pub struct Lexed {
    pub toks: Vec<Tok>,
    /// a place where SPARQL's own tokenisation and a scannerless reading differ, or where
    /// the existing tests pin another reading: such inputs are not judged
    pub grey: Vec<&'static str>,
}

pub const KEYWORDS: &[&str] = &[
    "BASE", "PREFIX", "SELECT", "DISTINCT", "REDUCED", "AS", "CONSTRUCT", "WHERE", "DESCRIBE",
    "ASK", "FROM", "NAMED", "GROUP", "BY", "HAVING", "ORDER", "ASC", "DESC", "LIMIT", "OFFSET",
    "VALUES", "LOAD", "SILENT", "INTO", "CLEAR", "DROP", "CREATE", "ADD", "TO", "MOVE", "COPY",
    "INSERT", "DELETE", "DATA", "WITH", "USING", "DEFAULT", "ALL", "GRAPH", "OPTIONAL", "SERVICE",
    "BIND", "UNDEF", "MINUS", "UNION", "FILTER", "IN", "NOT", "EXISTS", "STR", "LANG",
    "LANGMATCHES", "DATATYPE", "BOUND", "IRI", "URI", "BNODE", "RAND", "ABS", "CEIL", "FLOOR",
    "ROUND", "CONCAT", "STRLEN", "UCASE", "LCASE", "ENCODE_FOR_URI", "CONTAINS", "STRSTARTS",
    "STRENDS", "STRBEFORE", "STRAFTER", "YEAR", "MONTH", "DAY", "HOURS", "MINUTES", "SECONDS",
    "TIMEZONE", "TZ", "NOW", "UUID", "STRUUID", "MD5", "SHA1", "SHA256", "SHA384", "SHA512",
    "COALESCE", "IF", "STRLANG", "STRDT", "SAMETERM", "ISIRI", "ISURI", "ISBLANK", "ISLITERAL",
    "ISNUMERIC", "REGEX", "SUBSTR", "REPLACE", "COUNT", "SUM", "MIN", "MAX", "AVG", "SAMPLE",
    "GROUP_CONCAT", "SEPARATOR", "TRUE", "FALSE",
];

fn is_keyword(w: &str) -> bool {
    w == "a" || KEYWORDS.iter().any(|k| k.eq_ignore_ascii_case(w))
}
fn has_keyword_prefix(w: &str) -> bool {
    w.starts_with('a')
        || KEYWORDS
            .iter()
            .any(|k| w.len() > k.len() && w.is_char_boundary(k.len()) && w[..k.len()].eq_ignore_ascii_case(k))
}

/// end offset of the longest PN_LOCAL starting at `i`, if any
pub fn scan_local(t: &str, i: usize) -> Option<usize> {
    fn plx(t: &str, i: usize) -> Option<usize> {
        let b = t.as_bytes();
        match b.get(i) {
            Some(b'%') => {
                if b.len() > i + 2 && b[i + 1].is_ascii_hexdigit() && b[i + 2].is_ascii_hexdigit() {
                    Some(i + 3)
                } else {
                    None
                }
            }
            Some(b'\\') => {
                let c = t[i + 1..].chars().next()?;
                if LOCAL_ESC.contains(c) {
                    Some(i + 1 + c.len_utf8())
                } else {
                    None
                }
            }
            _ => None,
        }
    }
    let c = t[i..].chars().next()?;
    let mut end = if pn_chars_u(c) || c == ':' || c.is_ascii_digit() {
        i + c.len_utf8()
    } else {
        plx(t, i)?
    };
    let mut p = end;
    while let Some(c) = t[p..].chars().next() {
        if pn_chars(c) || c == ':' {
            p += c.len_utf8();
            end = p;
        } else if c == '.' {
            p += 1;
        } else if let Some(e) = plx(t, p) {
            p = e;
            end = p;
        } else {
            break;
        }
    }
    Some(end)
}

/// end of ((PN_CHARS|'.')* PN_CHARS)? from `i`
fn scan_tail(t: &str, i: usize) -> usize {
    let mut end = i;
    let mut p = i;
    while let Some(c) = t[p..].chars().next() {
        if pn_chars(c) {
            p += c.len_utf8();
            end = p;
        } else if c == '.' {
            p += 1;
        } else {
            break;
        }
    }
    end
}

pub fn skip_layout(t: &str, mut i: usize) -> usize {
    let b = t.as_bytes();
    loop {
        while i < b.len() && is_ws(b[i] as char) {
            i += 1;
        }
        if i < b.len() && b[i] == b'#' {
            while i < b.len() && b[i] != b'\n' && b[i] != b'\r' {
                i += 1;
            }
        } else {
            return i;
        }
    }
}

/// true if `s` is only whitespace and comments
pub fn is_layout(s: &str) -> bool {
    skip_layout(s, 0) == s.len()
}

pub fn lex(t: &str) -> Lexed {
    let b = t.as_bytes();
    let mut toks: Vec<Tok> = vec![];
    let mut grey: Vec<&'static str> = vec![];
    let mut unused: Vec<&'static str> = vec![];
    let mut i = 0;
    loop {
        i = skip_layout(t, i);
        if i >= b.len() {
            break;
        }
        let start = i;
        let c = t[i..].chars().next().unwrap();
        let (k, e) = match c {
            '<' => {
                let mut p = i + 1;
                while let Some(c) = t[p..].chars().next() {
                    if iriref_char(c) {
                        p += c.len_utf8()
                    } else {
                        break;
                    }
                }
                if p < b.len() && b[p] == b'>' {
                    (K::Iri(t[i + 1..p].to_string()), p + 1)
                } else if b.get(i + 1) == Some(&b'=') {
                    (K::P("<="), i + 2)
                } else {
                    (K::P("<"), i + 1)
                }
            }
            '"' | '\'' => match lex_string(t, i) {
                Some((s, e)) => {
                    if e - i == s.len() + 2 && s.contains(|c| c == '\n' || c == '\r') {
                        grey.push("line break in a short string");
                    }
                    (K::Str(s), e)
                }
                None => (K::Bad, i + 1),
            },
            '@' => {
                let mut p = i + 1;
                while p < b.len() && b[p].is_ascii_alphabetic() {
                    p += 1;
                }
                if p == i + 1 {
                    (K::Bad, i + 1)
                } else {
                    while p + 1 < b.len() && b[p] == b'-' && b[p + 1].is_ascii_alphanumeric() {
                        p += 1;
                        while p < b.len() && b[p].is_ascii_alphanumeric() {
                            p += 1;
                        }
                    }
                    (K::Lang(t[i + 1..p].to_string()), p)
                }
            }
            '?' | '$' => {
                let rest = &t[i + 1..];
                let mut len = 0;
                for (j, d) in rest.char_indices() {
                    if j == 0 && !varname_start(d) || j > 0 && !varname_rest(d) {
                        break;
                    }
                    len = j + d.len_utf8();
                }
                if len > 0 {
                    (K::Var(c, rest[..len].to_string()), i + 1 + len)
                } else if c == '?' {
                    (K::P("?"), i + 1)
                } else {
                    (K::Bad, i + 1)
                }
            }
            '0'..='9' => {
                // "LIMIT 1." is not a sentence, whatever the dot belongs to
                let count = matches!(toks.last(), Some(Tok { k: K::Word(w), .. }) if w.eq_ignore_ascii_case("limit") || w.eq_ignore_ascii_case("offset"));
                lex_number(t, i, i, if count { &mut unused } else { &mut grey })
            }
            '+' | '-' | '.' => {
                let n1 = b.get(i + 1).copied().unwrap_or(0);
                let n2 = b.get(i + 2).copied().unwrap_or(0);
                if c == '.' {
                    if n1.is_ascii_digit() {
                        lex_number(t, i, i, &mut grey)
                    } else {
                        (K::P("."), i + 1)
                    }
                } else if n1.is_ascii_digit() || n1 == b'.' && n2.is_ascii_digit() {
                    lex_number(t, i, i + 1, &mut grey)
                } else {
                    (K::P(if c == '+' { "+" } else { "-" }), i + 1)
                }
            }
            '_' => {
                if b.get(i + 1) == Some(&b':') {
                    match t[i + 2..].chars().next() {
                        Some(d) if varname_start(d) => {
                            let e = scan_tail(t, i + 2 + d.len_utf8());
                            (K::Bnode(t[i + 2..e].to_string()), e)
                        }
                        _ => (K::Bad, i + 2),
                    }
                } else {
                    (K::Bad, i + 1)
                }
            }
            ':' => lex_after_colon(t, i, i),
            c if pn_chars_base(c) => {
                let e = scan_tail(t, i + c.len_utf8());
                if b.get(e) == Some(&b':') {
                    lex_after_colon(t, i, e)
                } else {
                    // not a prefixed name: a keyword, if anything
                    let mut e = i;
                    while let Some(d) = t[e..].chars().next() {
                        if pn_chars(d) {
                            e += d.len_utf8()
                        } else {
                            break;
                        }
                    }
                    let w = &t[i..e];
                    if is_keyword(w) {
                        (K::Word(w.to_string()), e)
                    } else {
                        if has_keyword_prefix(w) {
                            grey.push("keyword glued to a name");
                        }
                        (K::Bad, e)
                    }
                }
            }
            '(' | '[' => {
                let close = if c == '(' { b')' } else { b']' };
                let mut p = i + 1;
                while p < b.len() && is_ws(b[p] as char) {
                    p += 1;
                }
                if b.get(p) == Some(&close) {
                    (if c == '(' { K::Nil } else { K::Anon }, p + 1)
                } else {
                    let q = skip_layout(t, p);
                    if b.get(q) == Some(&close) {
                        grey.push("comment inside () or []");
                    }
                    (K::P(if c == '(' { "(" } else { "[" }), i + 1)
                }
            }
            _ => {
                const PS: &[&str] = &[
                    "||", "&&", "^^", "!=", ">=", "{", "}", ")", "]", ";", ",", "*", "/", "|", "^",
                    "!", "=", ">",
                ];
                match PS.iter().find(|p| t[i..].starts_with(**p)) {
                    Some(p) => (K::P(p), i + p.len()),
                    None => {
                        if c == '\\' && matches!(b.get(i + 1), Some(b'u') | Some(b'U')) {
                            grey.push("codepoint escape");
                        }
                        (K::Bad, i + c.len_utf8())
                    }
                }
            }
        };
        toks.push(Tok { k, s: start, e });
        i = e;
    }
    if t.contains("\\u") || t.contains("\\U") {
        grey.push("codepoint escape");
    }
    Lexed { toks, grey }
}

fn lex_after_colon(t: &str, start: usize, colon: usize) -> (K, usize) {
    let prefix = t[start..colon].to_string();
    match scan_local(t, colon + 1) {
        Some(e) => (K::Pname(prefix, t[colon + 1..e].to_string()), e),
        None => (K::Pns(prefix), colon + 1),
    }
}

fn lex_number(t: &str, start: usize, digits: usize, grey: &mut Vec<&'static str>) -> (K, usize) {
    let b = t.as_bytes();
    let dig = |mut p: usize| {
        while p < b.len() && b[p].is_ascii_digit() {
            p += 1;
        }
        p
    };
    let mut p = dig(digits);
    let int_end = p;
    let mut kind = 'i';
    if b.get(p) == Some(&b'.') {
        let f = dig(p + 1);
        if f > p + 1 {
            kind = 'd';
            p = f;
        } else if int_end > digits && exp_end(b, p + 1).is_some() {
            p += 1; // 1.e5
        } else {
            // "1." : INTEGER '.' in SPARQL 1.1, a decimal in SPARQL 1.0 and in the tests here
            grey.push("integer directly followed by '.'");
        }
    }
    if let Some(e) = exp_end(b, p) {
        kind = 'e';
        p = e;
    }
    if let Some(c) = t[p..].chars().next() {
        if pn_chars(c) && c != '-' || c == ':' {
            grey.push("number glued to a name");
        }
    }
    let text = t[start..p].to_string();
    (K::Num(text, kind), p)
}

fn exp_end(b: &[u8], p: usize) -> Option<usize> {
    if !matches!(b.get(p), Some(b'e') | Some(b'E')) {
        return None;
    }
    let mut q = p + 1;
    if matches!(b.get(q), Some(b'+') | Some(b'-')) {
        q += 1;
    }
    let s = q;
    while q < b.len() && b[q].is_ascii_digit() {
        q += 1;
    }
    if q > s {
        Some(q)
    } else {
        None
    }
}

fn lex_string(t: &str, i: usize) -> Option<(String, usize)> {
    let q = t.as_bytes()[i];
    let long = if q == b'"' { "\"\"\"" } else { "'''" };
    if t[i..].starts_with(long) {
        let mut p = i + 3;
        loop {
            if t[p..].starts_with(long) {
                return Some((t[i + 3..p].to_string(), p + 3));
            }
            match t[p..].chars().next() {
                None => break,
                Some('\\') => match t[p + 1..].chars().next() {
                    Some(e) if ECHAR.contains(e) => p += 2,
                    _ => break,
                },
                Some(c) => p += c.len_utf8(),
            }
        }
    }
    let mut p = i + 1;
    loop {
        match t[p..].chars().next() {
            None => return None,
            Some(c) if c as u32 == q as u32 => return Some((t[i + 1..p].to_string(), p + 1)),
            Some('\\') => match t[p + 1..].chars().next() {
                Some(e) if ECHAR.contains(e) => p += 2,
                _ => return None,
            },
            // SPARQL excludes CR and LF here; the existing tests accept them: see the caller
            Some(c) => p += c.len_utf8(),
        }
    }
}
