//! Values that programs like to treat specially, and sentences in which few values recur.

use crate::gen::{Tok, TK};
use crate::render::{render, Lay, CASES};
use crate::rng::Rng;
use crate::run::*;

const STRINGS: &[&str] = &[
    "", " ", ",", ", ", ";", "|", "-", "a", "A", "b", "i", "s", "m", "x", "q", "g", "is", "en", "EN", "0", "1", "-1", "00", "1.0", "1e0", "true", "TRUE", "false", "null", "UNDEF", "NaN", "INF",
    "-INF", "http://x", "xsd:string", "?x", "a b", "  ", " a", "a ", "\\n", "\\t", "\\r", "\\b", "\\f", "\\\"", "\\'", "\\\\", "\\\\\\\\", "\\\\n", "#", "# c", "@en", "^^", "^^<u>", ".*", "^a", "é", "É", "ß",
    "\u{feff}", "\0", "%41", "\\\\v0041", "2020-01-01", "{", "}", ")", "(", "/*", "--", "..", "\u{1F600}", "e\u{301}", "\t", "\u{a0}", "\u{200b}",
];
const IRIS: &[&str] = &[
    "", "#", "/", ".", "..", "?", "//", "a", "b", "A", "g", "u", "1", "%41", "%c3%a9", "urn:x", "urn:X", "mailto:a@b", "http://a", "http://a/", "http://a:80/", "HTTP://A/", "http://A/", "http://a/./b/../c", "http://a/#",
    "http://a?", "http://www.w3.org/1999/02/22-rdf-syntax-ns#", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "http://www.w3.org/1999/02/22-rdf-syntax-ns#nil",
    "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "http://www.w3.org/1999/02/22-rdf-syntax-ns#langString", "http://www.w3.org/2001/XMLSchema#string", "http://www.w3.org/2001/XMLSchema#integer",
    "http://www.w3.org/2001/XMLSchema#boolean", "http://www.w3.org/2001/XMLSchema#decimal", "http://www.w3.org/2001/XMLSchema#double", "http://www.w3.org/2001/XMLSchema#dateTime",
    "http://www.w3.org/2002/07/owl#sameAs", "http://www.w3.org/2000/01/rdf-schema#label", "é", "http://é/", "_:b", "x:y", "DEFAULT", "tag:a,b", "file:///a", "a'b", "(a)", "[a]", "a;b",
];
const PNAMES: &[&str] = &[
    "rdf:type", "rdf:nil", "rdf:first", "rdf:langString", "xsd:string", "xsd:integer", "xsd:boolean", "XSD:string", "XSD:STRING", "RDF:type", "Rdf:Type", "owl:sameAs", "OWL:Class", "RDFS:label", "rdfs:label", "a:a",
    "A:A", ":a", ":A", "x:1", "x:01", "x:a.b", "x:%41", "x:%c3", "x:%C3", "x:\\-", "x:\\_a", "x:a\\.b", "x:a:b", "true:true", "select:select", "graph:graph", "x::", "::", ":1", "x:a", "X:a", "x:A", "u:u", "é:é", "fn:not", "a.b:c", "x:a-", "x:a_",
];
const PREFIXES: &[&str] = &["x:", ":", "rdf:", "a:", "A:", "true:", "default:", "all:", "named:", "XSD:", "é:", "a.b:", "a-:"];
const VARS: &[&str] = &["?a", "$a", "?A", "?x", "$x", "?X", "?1", "?01", "?_", "?true", "?select", "?s", "?p", "?o", "?é", "?É", "?type", "?a1", "$1", "?_1", "?v", "?this", "$this"];
const NUMBERS: &[&str] = &[
    "0", "1", "-1", "+1", "00", "01", "-0", "+0", "0.0", "-0.0", "1.0", "+1.0", "1.10", "1e0", "1e1", "1E1", "1e+1", "1e-1", ".5", "-.5", "0.5", "10", "2", "3", "-2", "100", "255", "256", "65535", "65536",
    "2147483647", "2147483648", "-2147483648", "4294967296", "9007199254740993", "9223372036854775807", "-9223372036854775808", "1e308", "1e309", "1e-400", "0.1", "0.30000000000000004", "1.e0", "1.5e3", "42", "007", "0e0", "0E5", "3.14", "1000000", "1e6",
    "00000000000000000000000000000000012", "-000000000000000000000001", "+0000000000000000000000.10",
];
const LANGS: &[&str] = &["@en", "@EN", "@En", "@eN", "@en-US", "@en-us", "@EN-US", "@en-GB", "@a", "@x-1", "@de", "@DE", "@de-DE-1996", "@i-default", "@zxx", "@und", "@fr", "@zh-Hans-CN", "@en-a-b-c"];
const BNODES: &[&str] = &["_:a", "_:A", "_:b", "_:b0", "_:0", "_:00", "_:é", "_:a.b", "_:a-b", "_:_", "_:true", "_:x", "_:genid1", "_:b1", "_:c14n0"];
const QUOTES: &[&str] = &["\"", "'", "\"\"\"", "'''"];

fn tok(s: &str, k: TK) -> Tok {
    Tok { s: s.to_string(), k }
}
/// all notable tokens that could stand where `k` stands
fn kin(k: TK) -> Vec<Tok> {
    let all = |l: &[&str], k| l.iter().map(|s| tok(s, k)).collect::<Vec<_>>();
    match k {
        TK::Iri | TK::Pname | TK::Pns => {
            let mut v: Vec<Tok> = IRIS.iter().map(|s| tok(&format!("<{}>", s), TK::Iri)).collect();
            v.extend(all(PNAMES, TK::Pname));
            v.extend(all(PREFIXES, TK::Pns));
            v
        }
        TK::Var => all(VARS, TK::Var),
        TK::Num => all(NUMBERS, TK::Num),
        TK::Lang => all(LANGS, TK::Lang),
        TK::Bnode => all(BNODES, TK::Bnode),
        TK::Str => STRINGS
            .iter()
            .flat_map(|s| {
                QUOTES.iter().filter(move |q| !(q.len() == 1 && s.contains(**q) && !s.contains('\\'))).map(move |q| tok(&format!("{}{}{}", q, s, q), TK::Str))
            })
            .collect(),
        _ => vec![],
    }
}
pub struct Pools(Vec<(TK, Vec<Tok>)>);
impl Pools {
    pub fn get() -> &'static Pools {
        static P: std::sync::OnceLock<Pools> = std::sync::OnceLock::new();
        P.get_or_init(|| Pools([TK::Iri, TK::Pname, TK::Pns, TK::Var, TK::Num, TK::Lang, TK::Bnode, TK::Str].iter().map(|k| (*k, kin(*k))).collect()))
    }
    pub fn of(&self, k: TK) -> &[Tok] {
        self.0.iter().find(|p| p.0 == k).map_or(&[], |p| &p.1)
    }
}

/// every value in `t` becomes one of at most two of its kind
pub fn coincide(g: &mut Rng, t: &mut [Tok]) {
    let p = Pools::get();
    let mut few: Vec<(TK, [Tok; 2])> = vec![];
    let two = g.coin();
    for x in t.iter_mut() {
        let pool = p.of(x.k);
        if pool.is_empty() {
            continue;
        }
        // IRIs in any form are one kind, mostly
        let k = match x.k {
            TK::Pname if g.one_in(2) => TK::Iri,
            k => k,
        };
        if !few.iter().any(|f| f.0 == k) {
            few.push((k, [g.pick(pool).clone(), g.pick(pool).clone()]));
        }
        let f = &few.iter().find(|f| f.0 == k).unwrap().1;
        let i = if two { g.below(2) } else { 0 };
        *x = f[i].clone();
    }
}

/// the hand-written sentences with each value replaced by every notable one, and with every two
/// values of one kind replaced by the same one
pub fn corpus(r: &mut Run, rej: bool) {
    let corpus = crate::checks::small_corpus();
    let p = Pools::get();
    let mut ones = vec![];
    let mut twos = vec![];
    for (c, (_, t, _)) in corpus.iter().enumerate() {
        for i in 0..t.len() {
            for n in 0..p.of(t[i].k).len() {
                ones.push((c, i, n));
            }
            for j in i + 1..t.len() {
                if !p.of(t[i].k).is_empty() && std::ptr::eq(p.of(t[i].k), p.of(t[j].k)) || (is_iri(t[i].k) && is_iri(t[j].k)) {
                    for n in 0..p.of(t[i].k).len() {
                        twos.push((c, i, j, n));
                    }
                }
            }
        }
    }
    r.par("small sentences, every value replaced by every notable one", ones.len() as u64, |x, g, st| {
        let (c, i, n) = ones[x as usize];
        let (e, t, _) = &corpus[c];
        let mut t = t.clone();
        t[i] = p.of(t[i].k)[n].clone();
        let lay = *g.pick(&[Lay::Min, Lay::Space]);
        let case = *g.pick(&CASES);
        agree(st, *e, &render(g, &t, lay, case, false), rej)
    });
    r.par("small sentences, every two values of a kind replaced by the same notable one", twos.len() as u64, |x, g, st| {
        let (c, i, j, n) = twos[x as usize];
        let (e, t, _) = &corpus[c];
        let mut t = t.clone();
        let v = p.of(t[i].k)[n].clone();
        t[i] = v.clone();
        t[j] = v;
        let lay = *g.pick(&[Lay::Min, Lay::Space]);
        let case = *g.pick(&CASES);
        agree(st, *e, &render(g, &t, lay, case, false), rej)
    });
}
fn is_iri(k: TK) -> bool {
    matches!(k, TK::Iri | TK::Pname | TK::Pns)
}
