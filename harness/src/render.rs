//! Token sequence -> text, under a layout style and a keyword casing.

use crate::chars::*;
use crate::gen::{Tok, TK};
use crate::rng::Rng;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Lay {
    /// nothing where nothing is needed, one blank elsewhere
    Min,
    /// one blank everywhere
    Space,
    /// random mixes of blanks, tabs, line ends, comments and nothing
    Mix,
    /// every gap is a long mix
    Heavy,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Case {
    Upper,
    Lower,
    Title,
    Random,
}

pub const LAYS: [Lay; 4] = [Lay::Min, Lay::Space, Lay::Mix, Lay::Heavy];
pub const CASES: [Case; 4] = [Case::Upper, Case::Lower, Case::Title, Case::Random];

#[derive(Clone, Copy, PartialEq, Debug)]
enum Sep {
    /// may be empty
    Free,
    /// at least one blank, line end or comment
    Need,
    /// must begin with a blank or line end (never directly with a comment)
    Ws,
}

fn first(t: &Tok) -> char {
    t.s.chars().next().unwrap_or(' ')
}
fn namey(c: char) -> bool {
    pn_chars(c) || matches!(c, ':' | '%' | '\\')
}

fn sep(a: &Tok, b: &Tok) -> Sep {
    let f = first(b);
    // a number, not the end of a triple
    let dotnum = f == '.' && b.k == TK::Num;
    let need = match a.k {
        TK::Kw | TK::A => pn_chars(f) || f == ':' || dotnum,
        TK::Pname => namey(f) || dotnum,
        TK::Pns => pn_chars_u(f) || matches!(f, ':' | '%' | '\\') || f.is_ascii_digit(),
        TK::Bnode => pn_chars(f) || dotnum,
        TK::Var => varname_rest(f),
        TK::Num => namey(f) || f == '.' || b.k == TK::P && b.s == ".",
        TK::Str => b.k == TK::Str && f == first(a),
        TK::Lang => f.is_ascii_alphanumeric() || f == '-',
        TK::P if a.s == "." => f.is_ascii_digit() || dotnum,
        TK::P if a.s == "<" || a.s == "<=" => return Sep::Ws,
        TK::P if a.s == "+" || a.s == "-" => b.k == TK::Num,
        TK::Mod if a.s == "+" => b.k == TK::Num,
        TK::Mod if a.s == "?" => varname_start(f),
        _ => false,
    };
    if need {
        Sep::Need
    } else {
        Sep::Free
    }
}

const COMMENTS: &[&str] = &[
    "",
    " c",
    " it's \"quoted\"",
    " } ) ] . ; ,",
    " { ( [ <http://x> ?v",
    "#",
    " SELECT * WHERE",
    " \u{65e5}\u{672c}\u{1F600}\u{120}\u{10A}\u{20A}",
    " \\ \\\" '''",
    "@en ^^ _:b",
];

fn ws(r: &mut Rng, out: &mut String) {
    out.push_str(r.pick(&[" ", " ", "  ", "\t", "\n", "\r", "\r\n", "\n\n", " \t \n "]));
}
fn comment(r: &mut Rng, out: &mut String) {
    out.push('#');
    out.push_str(r.pick(COMMENTS));
    out.push_str(r.pick(&["\n", "\r", "\r\n", "\n", "\n \n"]));
}
fn gap(r: &mut Rng, lay: Lay, s: Sep, out: &mut String) {
    match (lay, s) {
        (Lay::Min, Sep::Free) => {}
        (Lay::Min, _) | (Lay::Space, _) => out.push(' '),
        (Lay::Mix, _) => {
            let n = [0, 0, 1, 1, 2, 3][r.below(6)].max(if s == Sep::Free { 0 } else { 1 });
            for i in 0..n {
                if r.one_in(4) && !(i == 0 && s == Sep::Ws) {
                    comment(r, out)
                } else {
                    ws(r, out)
                }
            }
        }
        (Lay::Heavy, _) => {
            if s == Sep::Ws || r.coin() {
                ws(r, out)
            }
            for _ in 0..r.range(1, 3) {
                comment(r, out);
                if r.coin() {
                    ws(r, out)
                }
            }
        }
    }
}

pub fn recase(r: &mut Rng, s: &str, c: Case) -> String {
    match c {
        Case::Upper => s.to_ascii_uppercase(),
        Case::Lower => s.to_ascii_lowercase(),
        Case::Title => {
            let mut t = s.to_ascii_lowercase();
            if let Some(x) = t.get_mut(0..1) {
                x.make_ascii_uppercase()
            }
            t
        }
        Case::Random => s
            .chars()
            .map(|c| if r.coin() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() })
            .collect(),
    }
}

/// `lead`: layout before the first token is allowed
pub fn render(r: &mut Rng, toks: &[Tok], lay: Lay, case: Case, lead: bool) -> String {
    render_pos(r, toks, lay, case, lead).0
}

/// also the byte offset of each token
pub fn render_pos(
    r: &mut Rng,
    toks: &[Tok],
    lay: Lay,
    case: Case,
    lead: bool,
) -> (String, Vec<usize>) {
    let mut out = String::new();
    let mut pos = Vec::with_capacity(toks.len());
    if lead && lay != Lay::Min && lay != Lay::Space {
        gap(r, lay, Sep::Free, &mut out);
    }
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            let p = &toks[i - 1];
            let mut s = sep(p, t);
            // name '.' name: the dot must be separated on one side
            if p.k == TK::P && p.s == "." && i > 1 {
                let pp = &toks[i - 2];
                if matches!(pp.k, TK::Kw | TK::A | TK::Pname | TK::Bnode)
                    && namey(first(t))
                    && pos[i - 2] + pp.s.len() == pos[i - 1]
                    && s == Sep::Free
                {
                    s = Sep::Need;
                }
            }
            gap(r, lay, s, &mut out);
        }
        pos.push(out.len());
        if t.k == TK::Kw {
            out.push_str(&recase(r, &t.s, case));
        } else {
            out.push_str(&t.s);
        }
    }
    (out, pos)
}

/// layout after the last token
pub fn tail(r: &mut Rng, lay: Lay, last: Option<&Tok>) -> String {
    let mut out = String::new();
    if lay == Lay::Mix || lay == Lay::Heavy {
        let s = match last {
            Some(t) if t.s == "<" || t.s == "<=" => Sep::Ws,
            _ => Sep::Free,
        };
        gap(r, lay, s, &mut out);
        if r.one_in(4) {
            if s == Sep::Ws {
                out.push(' ')
            }
            out.push_str("# end of text");
        }
    }
    out
}

/// may `atom` stand in gap `i` (before token i; after the last for i == len)?
pub fn gap_takes(toks: &[Tok], i: usize, atom: &str) -> bool {
    if i == 0 || toks.is_empty() {
        return true;
    }
    let p = &toks[i - 1];
    let s = if i == toks.len() {
        if p.s == "<" || p.s == "<=" {
            Sep::Ws
        } else {
            Sep::Free
        }
    } else {
        sep(p, &toks[i])
    };
    match s {
        Sep::Free => true,
        Sep::Need => !atom.is_empty(),
        Sep::Ws => !atom.is_empty() && !atom.starts_with('#'),
    }
}
/// `base` layout (Min or Space) everywhere, `atom` in gap `i`
pub fn render_gap(r: &mut Rng, toks: &[Tok], base: Lay, i: usize, atom: &str) -> String {
    let (s, pos) = render_pos(r, toks, base, Case::Upper, false);
    let mut out = String::with_capacity(s.len() + atom.len());
    for (j, t) in toks.iter().enumerate() {
        if j == i {
            out.push_str(atom);
        } else if j > 0 {
            let end = pos[j - 1] + toks[j - 1].s.len();
            out.push_str(&s[end..pos[j]]);
        }
        out.push_str(&s[pos[j]..pos[j] + t.s.len()]);
    }
    if i == toks.len() {
        out.push_str(atom);
    }
    out
}
