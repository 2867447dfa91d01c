//! Exhaustive enumeration of token sequences over small alphabets.

use crate::gen::{Tok, TK};
use crate::refp::Entry;
use crate::render::*;
use crate::run::*;

/// tokens of a text whose tokens are separated by blanks
pub fn toks(s: &str) -> Vec<Tok> {
    s.split_ascii_whitespace()
        .map(|w| Tok { s: w.to_string(), k: kind(w) })
        .collect()
}
fn kind(w: &str) -> TK {
    let b = w.as_bytes();
    let c = b[0] as char;
    if w == "a" {
        return TK::A;
    }
    if w == "()" || w == "[]" {
        return TK::Pair;
    }
    if w.len() > 1 {
        match c {
            '<' if w.ends_with('>') => return TK::Iri,
            '"' | '\'' => return TK::Str,
            '?' | '$' => return TK::Var,
            '@' => return TK::Lang,
            '_' if b[1] == b':' => return TK::Bnode,
            '+' | '-' | '.' if b[1].is_ascii_digit() || b[1] == b'.' => return TK::Num,
            _ => {}
        }
    }
    if c.is_ascii_digit() {
        return TK::Num;
    }
    if w.ends_with(':') {
        return TK::Pns;
    }
    if w.contains(':') {
        return TK::Pname;
    }
    if c.is_ascii_alphabetic() {
        return TK::Kw;
    }
    TK::P
}

/// number of sequences of length lo..=hi
pub fn total(k: usize, lo: usize, hi: usize) -> u64 {
    (lo..=hi).map(|l| (k as u64).pow(l as u32)).sum()
}
/// the i-th sequence, shortest first
pub fn nth(k: usize, lo: usize, mut i: u64, out: &mut Vec<usize>) {
    out.clear();
    let mut l = lo;
    loop {
        let c = (k as u64).pow(l as u32);
        if i < c {
            break;
        }
        i -= c;
        l += 1;
    }
    for _ in 0..l {
        out.push((i % k as u64) as usize);
        i /= k as u64;
    }
    out.reverse();
}

pub struct Sweep<'a> {
    pub name: &'a str,
    pub entry: Entry,
    pub frames: &'a [(&'a str, &'a str)],
    pub alphabet: &'a [&'a str],
    pub lo: usize,
    pub hi: usize,
    /// judge texts outside the grammar, too
    pub rej: bool,
}

/// every sequence over the alphabet, in every frame; the layout style varies with the index
pub fn sweep(r: &mut Run, s: Sweep) {
    let atoms: Vec<Vec<Tok>> = s.alphabet.iter().map(|a| toks(a)).collect();
    let frames: Vec<(Vec<Tok>, Vec<Tok>)> =
        s.frames.iter().map(|(a, b)| (toks(a), toks(b))).collect();
    let k = atoms.len();
    let per = total(k, s.lo, s.hi);
    let f = frames.len() as u64;
    let name = format!(
        "{}: all sequences of {}..{} of {} atoms in {} frames",
        s.name, s.lo, s.hi, k, f
    );
    r.par(&name, per * f, |i, rng, st| {
        let (pre, post) = &frames[(i % f) as usize];
        let mut ix = vec![];
        nth(k, s.lo, i / f, &mut ix);
        let mut t = pre.clone();
        for x in &ix {
            t.extend_from_slice(&atoms[*x]);
        }
        t.extend_from_slice(post);
        let lay = *rng.pick(&[Lay::Min, Lay::Min, Lay::Space, Lay::Mix]);
        let case = *rng.pick(&CASES);
        let mut text = render(rng, &t, lay, case, false);
        if rng.one_in(4) {
            let tl = tail(rng, Lay::Mix, t.last());
            text.push_str(&tl);
        }
        agree(st, s.entry, &text, s.rej)
    });
}
/// random longer sequences over the same alphabets
pub fn walk(r: &mut Run, s: Sweep, n: u64) {
    let atoms: Vec<Vec<Tok>> = s.alphabet.iter().map(|a| toks(a)).collect();
    let frames: Vec<(Vec<Tok>, Vec<Tok>)> =
        s.frames.iter().map(|(a, b)| (toks(a), toks(b))).collect();
    let name = format!(
        "{}: random sequences of {}..{} of {} atoms",
        s.name, s.lo, s.hi, atoms.len()
    );
    r.par(&name, n, |_, rng, st| {
        let (pre, post) = rng.pick(&frames);
        let mut t = pre.clone();
        for _ in 0..rng.range(s.lo, s.hi) {
            t.extend_from_slice(rng.pick(&atoms));
        }
        t.extend_from_slice(post);
        let lay = *rng.pick(&[Lay::Min, Lay::Space, Lay::Mix]);
        let case = *rng.pick(&CASES);
        let text = render(rng, &t, lay, case, false);
        agree(st, s.entry, &text, s.rej)
    });
}
