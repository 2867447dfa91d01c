//! Tokens at chosen distances from the beginning and the end of the text.

use crate::checks::small_corpus;
use crate::render::*;
use crate::run::*;

/// powers of two (as the sizes of buffers, pages and chunks), their neighbours, round numbers
fn distances() -> Vec<usize> {
    let mut d: Vec<usize> = (6..=13).flat_map(|k| vec![(1 << k) - 1, 1 << k, (1 << k) + 1]).collect();
    d.extend([100, 255 * 2, 1000, 3 * 1024, 3 * 4096, 5000, 10_000, 15_999, 16_000, 16_384, 32_767, 32_768, 32_769, 65_535, 65_536, 65_537]);
    d
}

/// layout of exactly `n` bytes that may follow any token
fn filler(kind: u64, n: usize) -> String {
    match kind {
        _ if n < 3 => " ".repeat(n),
        0 => " ".repeat(n),
        1 => format!(" #{}\n", "-".repeat(n - 3)),
        _ => format!("\n{}", "\t\r\n ".chars().cycle().take(n - 1).collect::<String>()),
    }
}

/// every token of every small sentence begins, and ends, at each of the distances from either
/// end of the text
pub fn aligned(r: &mut Run) {
    let corpus = small_corpus();
    let dist = distances();
    let mut cases = vec![];
    for (c, (_, t, _)) in corpus.iter().enumerate() {
        for i in 0..=t.len() {
            for d in 0..dist.len() {
                cases.push((c, i, d));
            }
        }
    }
    let base = *[Lay::Space, Lay::Min].iter().nth((r.seed % 2) as usize).unwrap();
    let name = "small sentences, every token at chosen distances from the beginning and from the end of the text";
    r.par(name, cases.len() as u64, |x, g, st| {
        let (c, i, d) = cases[x as usize];
        let (e, toks, t) = &corpus[c];
        let d = dist[d];
        if d > 20_000 && !g.one_in(8) {
            return None;
        }
        let (s, pos) = render_pos(g, toks, base, Case::Upper, false);
        let k = g.next() % 3;
        // the token (or the end of the last one) lies d bytes before the end of the text
        let p = if i < toks.len() { pos[i] } else { s.len() };
        if s.len() - p <= d {
            let text = format!("{}{}", s, filler(k, d - (s.len() - p)));
            st.count("distances from the end");
            if let Some(v) = expect(st, *e, &text, t) {
                return Some(v);
            }
        }
        // the token begins d bytes after the beginning; layout goes into some gap before it
        if i > 0 && p < d {
            let j = 1 + g.below(i);
            let end = pos[j - 1] + toks[j - 1].s.len();
            let rest = if j < toks.len() { &s[pos[j]..] } else { "" };
            let inner = if j < toks.len() { pos[j] - end } else { 0 };
            let text = format!("{}{}{}", &s[..end], filler(k, d - p + inner), rest);
            st.count("distances from the beginning");
            if let Some(v) = expect(st, *e, &text, t) {
                return Some(v);
            }
        }
        None
    });
}
