//! Nesting and length: C18 (work) and C19 (stack).

use crate::checks::*;
use crate::exec::*;
use crate::gen::*;
use crate::mutate;
use crate::refp::{parse, Entry, Verdict};
use crate::render::*;
use crate::rng::Rng;
use crate::run::*;


/// sort of hole a construct stands in and offers
#[derive(Clone, Copy, PartialEq, Debug)]
enum H {
    /// expression
    E,
    /// group content
    G,
    /// graph node (object)
    N,
    /// path
    P,
}
use H::*;

/// (sort it stands in, text before the hole, text after it, sort of its hole)
const LAYERS: &[(H, &str, &str, H)] = &[
    (E, "(", ")", E),
    (E, "STR(", ")", E),
    (E, "<f>(", ")", E),
    (E, "x:f(1,", ",?x)", E),
    (E, "IF(", ",1,2)", E),
    (E, "IF(1,2,", ")", E),
    (E, "REGEX(?a,", ")", E),
    (E, "COALESCE(1,", ")", E),
    (E, "CONCAT(", ")", E),
    (E, "COUNT(", ")", E),
    (E, "SUM(DISTINCT ", ")", E),
    (E, "GROUP_CONCAT(", ";SEPARATOR=',')", E),
    (E, "SUBSTR(", ",1)", E),
    (E, "SUBSTR(?a,1,", ")", E),
    (E, "REPLACE(?a,", ",?b)", E),
    (E, "STRLEN(", ")", E),
    (E, "BNODE(", ")", E),
    (E, "DATATYPE(", ")", E),
    (E, "!(", ")", E),
    (E, "-(", ")", E),
    (E, "+(", ")", E),
    (E, "1+(", ")", E),
    (E, "1*(", ")*2", E),
    (E, "1=(", ")", E),
    (E, "1&&(", ")&&?c", E),
    (E, "1||(", ")||?c", E),
    (E, "1 IN (", ",2)", E),
    (E, "1 NOT IN (2,", ")", E),
    (E, "(1+(", ")*2)", E),
    (E, "(!(", ")||1)", E),
    (E, "LANG(", ")", E),
    (E, "LANGMATCHES(", ",?b)", E),
    (E, "LANGMATCHES(?a,", ")", E),
    (E, "IRI(", ")", E),
    (E, "URI(", ")", E),
    (E, "ABS(", ")", E),
    (E, "CEIL(", ")", E),
    (E, "FLOOR(", ")", E),
    (E, "ROUND(", ")", E),
    (E, "CONCAT(?a,", ",?b)", E),
    (E, "UCASE(", ")", E),
    (E, "LCASE(", ")", E),
    (E, "ENCODE_FOR_URI(", ")", E),
    (E, "CONTAINS(", ",?b)", E),
    (E, "CONTAINS(?a,", ")", E),
    (E, "STRSTARTS(", ",?b)", E),
    (E, "STRENDS(?a,", ")", E),
    (E, "STRBEFORE(", ",?b)", E),
    (E, "STRAFTER(?a,", ")", E),
    (E, "YEAR(", ")", E),
    (E, "MONTH(", ")", E),
    (E, "DAY(", ")", E),
    (E, "HOURS(", ")", E),
    (E, "MINUTES(", ")", E),
    (E, "SECONDS(", ")", E),
    (E, "TIMEZONE(", ")", E),
    (E, "TZ(", ")", E),
    (E, "MD5(", ")", E),
    (E, "SHA1(", ")", E),
    (E, "SHA256(", ")", E),
    (E, "SHA384(", ")", E),
    (E, "SHA512(", ")", E),
    (E, "IF(1,", ",2)", E),
    (E, "STRLANG(", ",?b)", E),
    (E, "STRLANG(?a,", ")", E),
    (E, "STRDT(?a,", ")", E),
    (E, "SAMETERM(", ",?b)", E),
    (E, "SAMETERM(?a,", ")", E),
    (E, "ISIRI(", ")", E),
    (E, "ISURI(", ")", E),
    (E, "ISBLANK(", ")", E),
    (E, "ISLITERAL(", ")", E),
    (E, "ISNUMERIC(", ")", E),
    (E, "REGEX(", ",?b)", E),
    (E, "REGEX(?a,?b,", ")", E),
    (E, "SUBSTR(?a,", ")", E),
    (E, "REPLACE(", ",?b,?c,?d)", E),
    (E, "REPLACE(?a,?b,?c,", ")", E),
    (E, "MIN(", ")", E),
    (E, "MAX(DISTINCT ", ")", E),
    (E, "AVG(", ")", E),
    (E, "SAMPLE(", ")", E),
    (E, "GROUP_CONCAT(DISTINCT ", ")", E),
    (E, "COUNT(DISTINCT ", ")", E),
    (E, "<f>(DISTINCT ?a,", ")", E),
    (E, "x:f(", ",?x,?y)", E),
    (E, "1/(", ")", E),
    (E, "1-(", ")-2", E),
    (E, "(", ")=1", E),
    (E, "1!=(", ")", E),
    (E, "(", ")<=2", E),
    (E, "(", ") IN(1)", E),
    (E, "(", ")NOT IN()", E),
    (E, "1+2*(", ")", E),
    (E, "1 -2*(", ")", E),
    (E, "1=1+(", ")", E),
    (E, "?a=1&&(", ")", E),
    (E, "?a<1&&?b||(", ")", E),
    (E, "!<f>(", ")", E),
    (E, "-STR(", ")*-1", E),
    (E, "EXISTS{", "}", G),
    (E, "NOT EXISTS {?s ?p ?o .", "}", G),
    (G, "{", "}", G),
    (G, "{}UNION{", "}", G),
    (G, "{", "}UNION{?s ?p ?o}", G),
    (G, "OPTIONAL{", "}", G),
    (G, "?s ?p ?o . OPTIONAL{", "}?x ?y ?z", G),
    (G, "MINUS{", "}", G),
    (G, "GRAPH ?g{", "}", G),
    (G, "GRAPH x:g {", "}", G),
    (G, "SERVICE SILENT <s>{", "}", G),
    (G, "{SELECT * {", "}}", G),
    (G, "{SELECT ?v WHERE{", "}GROUP BY ?v LIMIT 1}", G),
    (G, "{SELECT (1 AS ?x) {", "}VALUES ?v{1}}", G),
    (G, "FILTER(", ")", E),
    (G, "FILTER EXISTS{", "}", G),
    (G, "FILTER NOT EXISTS{", "}", G),
    (G, "BIND(", " AS ?v)", E),
    (G, "{SELECT*{}HAVING(", ")}", E),
    (G, "{SELECT*{}HAVING(1)STR(", ")}", E),
    (G, "{SELECT*{}ORDER BY(", ")}", E),
    (G, "{SELECT*{}ORDER BY ?x DESC(", ")LIMIT 1}", E),
    (G, "{SELECT*{}GROUP BY(", ")}", E),
    (G, "{SELECT*{}GROUP BY(", " AS ?g)}", E),
    (G, "{SELECT*{}GROUP BY <f>(", ")}", E),
    (G, "{SELECT(", " AS ?v){}}", E),
    (G, "{SELECT ?w(COUNT(", ")AS ?v){}}", E),
    (G, "FILTER STR(", ")", E),
    (G, "FILTER <f>(", ")", E),
    (G, "OPTIONAL{{", "}}", G),
    (G, "{}UNION{}UNION{", "}", G),
    (G, "?s ?p ?o;?q ?r.FILTER(1){", "}.", G),
    (G, "(", ")?p ?o", N),
    (G, "[?p ", "]", N),
    (G, "[?p ", "]?q 1", N),
    (G, "?a ?b ?c;?d ?e,", ".", N),
    (G, "?s ?p ?o;", " 1", P),
    (G, "?s ?p ", "", N),
    (G, "?s ", " ?o", P),
    (N, "(", ")", N),
    (N, "(1 ", " 2)", N),
    (N, "[?p ", "]", N),
    (N, "[a ", ";?q 1]", N),
    (N, "[?p 1;?q ", "]", N),
    (N, "([?p ", "])", N),
    (N, "[<p>/(", ") 1]", P),
    (P, "(", ")", P),
    (P, "^(", ")", P),
    (P, "(", ")*", P),
    (P, "<a>/(", ")/<b>", P),
    (P, "<a>|(", ")", P),
    (P, "(<a>|", ")+", P),
    (P, "!(<a>)/(", ")", P),
];
/// (sort of the hole, entry, before, after): where nesting starts
const ROOTS: &[(H, Entry, &str, &str)] = &[
    (E, Entry::Stmt, "ASK{FILTER(", ")}"),
    (E, Entry::Stmt, "SELECT(", " AS ?v){}"),
    (E, Entry::Stmt, "ASK{}ORDER BY(", ")"),
    (E, Entry::Stmt, "ASK{}GROUP BY(", ")"),
    (E, Entry::Stmt, "ASK{}HAVING(", ")"),
    (E, Entry::Stmt, "ASK{BIND(", " AS ?v)}"),
    (E, Entry::Ask, "ASK{FILTER STR(", ")}"),
    (G, Entry::Stmt, "SELECT * {", "}"),
    (G, Entry::Stmt, "CONSTRUCT{}WHERE{", "}LIMIT 1"),
    (G, Entry::Describe, "DESCRIBE * {", "}"),
    (G, Entry::Update, "INSERT{}WHERE{", "}"),
    (N, Entry::Stmt, "ASK{?s ?p ", "}"),
    (N, Entry::Stmt, "ASK{?s ?p 1,", ".}"),
    (N, Entry::Construct, "CONSTRUCT{?s ?p ", "}WHERE{}"),
    (N, Entry::Stmt, "CONSTRUCT WHERE{?s ?p ", "}"),
    (N, Entry::Update, "INSERT DATA{?s ?p ", "}"),
    (N, Entry::Update, "DELETE WHERE{GRAPH ?g{?s ?p ", "}}"),
    (P, Entry::Stmt, "ASK{?s ", " ?o}"),
    (P, Entry::Stmt, "SELECT * {?s ?p ?o;", " 1}"),
    (P, Entry::Ask, "ASK{[", " 1]}"),
];
fn inner(h: H) -> &'static str {
    match h {
        E => "?z",
        G => "?s ?p ?o",
        N => "?z",
        P => "<z>",
    }
}
/// something that fits nowhere
fn wrong(h: H) -> &'static [&'static str] {
    match h {
        E => &[",", "?z ?z", "", "SELECT", "1 1", "*"],
        G => &["?s", "?s ?p", "?s ?p ?o ?x", "FILTER", "OPTIONAL", "UNION {}", ")"],
        N => &["", ",", "?z ?z", "]", "SELECT", "*"],
        P => &["", "?z", "1", "/", "<z> <z>", "^"],
    }
}

/// every layer that can repeat itself, directly or by way of one other layer
fn families() -> Vec<(usize, Vec<usize>)> {
    let mut v = vec![];
    for (i, l) in LAYERS.iter().enumerate() {
        for (ri, r) in ROOTS.iter().enumerate() {
            if r.0 != l.0 {
                continue;
            }
            if l.3 == l.0 {
                // not in template-only roots with group parts
                v.push((ri, vec![i]));
            } else if !template(ri) {
                for (j, m) in LAYERS.iter().enumerate() {
                    if m.0 == l.3 && m.3 == l.0 {
                        v.push((ri, vec![i, j]));
                    }
                }
            }
        }
    }
    v.retain(|(ri, ls)| ls.iter().all(|l| fits(*ri, *l)));
    v
}
fn template(ri: usize) -> bool {
    let (h, _, a, _) = ROOTS[ri];
    h == N && !a.starts_with("ASK")
}
/// templates take no paths
fn fits(ri: usize, l: usize) -> bool {
    !(template(ri) && LAYERS[l].3 == P)
}
fn build(ri: usize, layers: &[usize], n: usize, core: &str, closed: usize) -> String {
    let (_, _, a, b) = ROOTS[ri];
    let mut s = String::from(a);
    for i in 0..n {
        s.push_str(LAYERS[layers[i % layers.len()]].1);
    }
    s.push_str(core);
    for i in (n - closed.min(n)..n).rev() {
        s.push_str(LAYERS[layers[i % layers.len()]].2);
    }
    if closed >= n {
        s.push_str(b);
    }
    s
}
fn hole(ri: usize, layers: &[usize], n: usize) -> H {
    if n == 0 {
        ROOTS[ri].0
    } else {
        LAYERS[layers[(n - 1) % layers.len()]].3
    }
}

/// one text for each way of nesting, `n` levels deep
pub fn nested_texts(n: usize) -> Vec<(Entry, String)> {
    families().iter().map(|(ri, ls)| (ROOTS[*ri].1, build(*ri, ls, n, inner(hole(*ri, ls, n)), n))).collect()
}

/// (entry, text) nested beyond any counter of one byte: `ends` also broken off and with a wrong core
pub const BEYOND: &[usize] = &[129, 150, 199, 200, 201, 250, 254, 255, 256, 257, 258, 300, 400, 511, 512, 513, 600];
pub fn beyond(i: u64, pick: usize) -> Option<(Entry, Vec<String>)> {
    static FAMILIES: std::sync::OnceLock<Vec<(usize, Vec<usize>)>> = std::sync::OnceLock::new();
    let fam = FAMILIES.get_or_init(families);
    let (ri, ls) = fam.get(i as usize / BEYOND.len())?;
    let n = BEYOND[i as usize % BEYOND.len()];
    let h = hole(*ri, ls, n);
    let w = wrong(h);
    Some((
        ROOTS[*ri].1,
        vec![build(*ri, ls, n, inner(h), n), build(*ri, ls, n, inner(h), pick % n), build(*ri, ls, n, w[pick % w.len()], n), build(*ri, ls, n, "", 0)],
    ))
}
pub fn beyond_total() -> u64 {
    (families().len() * BEYOND.len()) as u64
}

/// (name, entry, head, item, separator, tail): long lists
const LISTS: &[(Entry, &str, &str, &str, &str)] = &[
    (Entry::Stmt, "ASK{", "?s ?p ?o", ".", "}"),
    (Entry::Stmt, "ASK{?s ?p ", "?o", ",", "}"),
    (Entry::Stmt, "ASK{?s ", "?p ?o", ";", "}"),
    (Entry::Stmt, "ASK{?s ?p ?o", "", ";", "}"),
    (Entry::Stmt, "ASK{?s ?p(", "1", " ", ")}"),
    (Entry::Stmt, "ASK{?s ?p[", "?p ?o", ";", "]}"),
    (Entry::Stmt, "ASK{?s ", "<p>", "/", " ?o}"),
    (Entry::Stmt, "ASK{?s ", "<p>", "|", " ?o}"),
    (Entry::Stmt, "ASK{?s ", "^<p>*", "/", " ?o}"),
    (Entry::Stmt, "ASK{?s !(", "^<p>", "|", ")?o}"),
    (Entry::Stmt, "ASK{", "FILTER(1)", " ", "}"),
    (Entry::Stmt, "ASK{", "OPTIONAL{}", "", "}"),
    (Entry::Stmt, "ASK{", "OPTIONAL{?a ?b ?c}?d ?e ?f", ".", "}"),
    (Entry::Stmt, "ASK{", "{}", "UNION", "}"),
    (Entry::Stmt, "ASK{", "{?a ?b ?c}", " ", "}"),
    (Entry::Stmt, "ASK{", "MINUS{}", ".", "}"),
    (Entry::Stmt, "ASK{", "GRAPH ?g{}", "", "}"),
    (Entry::Stmt, "ASK{", "SERVICE SILENT <s>{}", "", "}"),
    (Entry::Stmt, "ASK{", "BIND(1 AS ?x)", "", "}"),
    (Entry::Stmt, "ASK{", "VALUES ?v{1}", "", "}"),
    (Entry::Stmt, "ASK{", "{SELECT * {}}", "", "}"),
    (Entry::Stmt, "ASK{VALUES ?v{", "1", " ", "}}"),
    (Entry::Stmt, "ASK{VALUES(?a ?b){", "(1 UNDEF)", "", "}}"),
    (Entry::Stmt, "ASK{VALUES(", "?a", " ", "){}}"),
    (Entry::Stmt, "ASK{}VALUES(?a){", "(1)", " ", "}"),
    (Entry::Stmt, "ASK{FILTER(", "?a", "||", ")}"),
    (Entry::Stmt, "ASK{FILTER(", "?a", "&&", ")}"),
    (Entry::Stmt, "ASK{FILTER(", "?a", "+", ")}"),
    (Entry::Stmt, "ASK{FILTER(", "?a", "*", ")}"),
    (Entry::Stmt, "ASK{FILTER(", "1", "-2", ")}"),
    (Entry::Stmt, "ASK{FILTER(1 IN(", "1", ",", "))}"),
    (Entry::Stmt, "ASK{FILTER CONCAT(", "?a", ",", ")}"),
    (Entry::Stmt, "ASK{FILTER <f>(", "?a", ",", ")}"),
    (Entry::Stmt, "ASK{FILTER(", "!?a=1", "&&", ")}"),
    (Entry::Stmt, "SELECT ", "?v", " ", "{}"),
    (Entry::Stmt, "SELECT ", "(1 AS ?v)", "", "{}"),
    (Entry::Stmt, "DESCRIBE ", "<u>", "", ""),
    (Entry::Stmt, "ASK ", "FROM NAMED <u>", "", "{}"),
    (Entry::Stmt, "", "PREFIX x:<u>", "", "ASK{}"),
    (Entry::Stmt, "", "BASE<u>", "", "ASK{}"),
    (Entry::Stmt, "ASK{}GROUP BY ", "?g", " ", ""),
    (Entry::Stmt, "ASK{}HAVING", "(1)", "", ""),
    (Entry::Stmt, "ASK{}ORDER BY", "(1)", "", ""),
    (Entry::Stmt, "ASK{}ORDER BY ", "ASC(1)", " ", ""),
    (Entry::Stmt, "CONSTRUCT{", "?s ?p ?o", ".", "}{}"),
    (Entry::Stmt, "CONSTRUCT WHERE{", "?s ?p ?o", ".", "}"),
    (Entry::Update, "", "LOAD <u>", ";", ""),
    (Entry::Update, "", "INSERT DATA{?s ?p ?o}", ";", ""),
    (Entry::Update, "INSERT DATA{", "?s ?p ?o", ".", "}"),
    (Entry::Update, "INSERT DATA{", "GRAPH <g>{}", "", "}"),
    (Entry::Update, "INSERT DATA{", "GRAPH <g>{?s ?p ?o}?a ?b ?c", ".", "}"),
    (Entry::Update, "DELETE{}", "USING <u>", "", "WHERE{}"),
    (Entry::Stmt, "ASK{", " ", "", "}"),
    (Entry::Stmt, "ASK{", "#c\n", "", "}"),
    (Entry::Stmt, "", "\n", "", "ASK{}"),
    (Entry::Stmt, "ASK{?s ?p \"", "a", "", "\"}"),
    (Entry::Stmt, "ASK{?s ?p '''", "\\n", "", "'''}"),
    (Entry::Stmt, "ASK{?s ?p '''", "''a", "", "'''}"),
    (Entry::Stmt, "ASK{?s ?p <", "a", "", ">}"),
    (Entry::Stmt, "ASK{?s ?p ?", "a", "", "}"),
    (Entry::Stmt, "ASK{?s ?p x:", "a.b", "", "}"),
    (Entry::Stmt, "ASK{?s ?p x:", "%41", "", "}"),
    (Entry::Stmt, "ASK{?s ?p _:", "a.b", "", "}"),
    (Entry::Stmt, "ASK{?s ?p x:a", "..", "", "b}"),
    (Entry::Stmt, "ASK{?s ?p ", "0", "", "1}"),
    (Entry::Stmt, "ASK{?s ?p 1.", "0", "", "1}"),
    (Entry::Stmt, "ASK{?s ?p ''@a", "-b", "", "}"),
];
fn list(i: usize, n: usize, core: &str) -> String {
    let (_, a, it, sep, b) = LISTS[i];
    let mut s = String::from(a);
    for j in 0..n {
        if j > 0 {
            s.push_str(sep);
        }
        s.push_str(it);
    }
    s.push_str(core);
    s.push_str(b);
    s
}

/// more than this many edges per byte over what the smallest sample needs is growth
const GROWTH: u64 = 3;
/// a rejected text may cost this many times what an accepted one of the shape costs
const REJECT: u64 = 12;
/// edges per byte no text exceeds (the worst accepted text observed needs about a tenth)
pub const PER_BYTE: u64 = 12_000;

/// bytes asked of the allocator per byte of text no text exceeds
pub const ALLOC_PER_BYTE: u64 = 40_000;

/// (result, executed edges, bytes asked of the allocator)
fn cost(st: &mut Stats, e: Entry, s: &str) -> (bool, u64, u64) {
    let a = crate::alloc::asked();
    let (raw, n) = raw(e, s);
    let m = crate::alloc::asked() - a;
    let o = cook(s, raw);
    st.evals += 1;
    st.case(e, s);
    st.max("steps", n);
    st.max("steps per byte", n / (s.len() as u64 + 1));
    st.max("allocated bytes", m);
    st.max("allocated bytes per byte", m / (s.len() as u64 + 1));
    st.count(match o {
        Out::Ok(..) => "accepted or accepted in part",
        _ => "rejected",
    });
    (matches!(o, Out::Ok(..)), n, m)
}
/// a bound on both per byte of text
fn bounded(st: &mut Stats, e: Entry, s: &str) -> Option<Viol> {
    let (_, c, m) = cost(st, e, s);
    let len = s.len() as u64 + 20;
    if c > PER_BYTE * len {
        return viol(e, s, format!("{} edges for {} bytes", c, s.len()));
    }
    if m > ALLOC_PER_BYTE * len {
        return viol(e, s, format!("{} bytes allocated for {} bytes", m, s.len()));
    }
    None
}
fn viol(e: Entry, s: &str, what: String) -> Option<Viol> {
    Some(Viol { what, entry: e, text: s.to_string(), detail: format!("{} bytes", s.len()) })
}
/// `sizes` of one shape: cost per byte must not grow
fn growth(st: &mut Stats, e: Entry, sizes: &[usize], f: &dyn Fn(usize) -> String, what: &str) -> Result<Vec<u64>, Viol> {
    let mut v = vec![];
    let mut worst_small = 0u64;
    let mut alloc_small = 0u64;
    for (i, n) in sizes.iter().enumerate() {
        let s = f(*n);
        let (_, c, m) = cost(st, e, &s);
        let per = c / (s.len() as u64 + 1) + 1;
        let aper = m / (s.len() as u64 + 1) + 1;
        st.max("growth of edges per byte, percent", if i < 2 { 0 } else { 100 * per / worst_small.max(40) });
        st.max("growth of allocation per byte, percent", if i < 2 { 0 } else { 100 * aper / alloc_small.max(300) });
        if i < 2 {
            alloc_small = alloc_small.max(aper);
        } else if aper > GROWTH * alloc_small + 1000 {
            return Err(viol(e, &s, format!("{}: {} bytes allocated per byte at {} against {} at {}", what, aper, n, alloc_small, sizes[1])).unwrap());
        }
        if i == 0 {
            worst_small = per;
        } else if i == 1 {
            // the two smallest samples make the base
            if per > GROWTH * worst_small + 2000 {
                return Err(viol(e, &s, format!("{}: {} edges per byte at {} against {} at {}", what, per, n, worst_small, sizes[0])).unwrap());
            }
            worst_small = worst_small.max(per);
        } else if per > GROWTH * worst_small + 200 {
            return Err(viol(e, &s, format!("{}: {} edges per byte at {} against {} at {}", what, per, n, worst_small, sizes[1])).unwrap());
        }
        v.push(c);
    }
    Ok(v)
}

pub fn c18(r: &mut Run) {
    r.rule = "a case is a distinct text whose parse was counted in executed edges of the instrumented library; monitored: edges per byte as nesting depth and list length grow (valid, truncated at every kind of place, wrong core, wrong closer), a bound on rejected against accepted, and a bound per byte on generated texts".into();
    let fam = families();
    let k = fam.len() as u64;
    r.par(&format!("{} nested families, depth 4..128, valid and rejected", k), k, |i, _, st| {
        let (ri, ls) = &fam[i as usize];
        let e = ROOTS[*ri].1;
        let sizes = [4usize, 8, 16, 32, 64, 128];
        let ok = match growth(st, e, &sizes, &|n| build(*ri, ls, n, inner(hole(*ri, ls, n)), n), "nested construct") {
            Ok(v) => v,
            Err(v) => return Some(v),
        };
        for core in wrong(hole(*ri, ls, 4)).iter() {
            let bad = match growth(st, e, &sizes, &|n| build(*ri, ls, n, core, n), "nested construct around a wrong part") {
                Ok(v) => v,
                Err(v) => return Some(v),
            };
            for (j, n) in sizes.iter().enumerate() {
                if bad[j] > REJECT * ok[j] + 20_000 {
                    return viol(e, &build(*ri, ls, *n, core, *n), format!("rejecting costs {} edges, accepting the shape costs {}", bad[j], ok[j]));
                }
            }
        }
        // never closed, half closed, one closer missing, closed twice, wrong closer
        for (name, closed) in [("never closed", 0usize), ("one closer missing", 1), ("half closed", 2)] {
            let c = |n: usize| match closed {
                0 => 0,
                1 => n - 1,
                _ => n / 2,
            };
            let bad = match growth(st, e, &sizes, &|n| build(*ri, ls, n, inner(hole(*ri, ls, n)), c(n)), name) {
                Ok(v) => v,
                Err(v) => return Some(v),
            };
            for (j, n) in sizes.iter().enumerate() {
                if bad[j] > REJECT * ok[j] + 20_000 {
                    return viol(e, &build(*ri, ls, *n, inner(hole(*ri, ls, *n)), c(*n)), format!("rejecting costs {} edges, accepting the shape costs {}", bad[j], ok[j]));
                }
            }
        }
        for x in ["}", ")", "]", " ?q", ".", ";", ",", "1", "\u{1}", " AS ?v", " FILTER", "|", "="] {
            let f = |n: usize| {
                let mut s = build(*ri, ls, n, inner(hole(*ri, ls, n)), n - 1);
                s.push_str(x);
                s
            };
            let bad = match growth(st, e, &sizes[..5], &f, "wrong last closer") {
                Ok(v) => v,
                Err(v) => return Some(v),
            };
            for (j, n) in sizes[..5].iter().enumerate() {
                if bad[j] > REJECT * ok[j] + 20_000 {
                    return viol(e, &f(*n), format!("rejecting costs {} edges, accepting the shape costs {}", bad[j], ok[j]));
                }
            }
        }
        None
    });
    let sizes: &[usize] = if r.thorough { &[100, 250, 500, 1000, 2000, 8000, 20_000] } else { &[100, 250, 500, 1000, 2000, 6000] };
    r.par(&format!("{} long-list families, {} to {} items", LISTS.len(), sizes[0], sizes[sizes.len() - 1]), LISTS.len() as u64, |i, _, st| {
        let i = i as usize;
        let e = LISTS[i].0;
        let ok = match growth(st, e, sizes, &|n| list(i, n, ""), "list") {
            Ok(v) => v,
            Err(v) => return Some(v),
        };
        for core in [" \u{1}", " SELECT", ")", "]", ",", ";;.", " ?x", " {", "\"", "<", "("] {
            let bad = match growth(st, e, sizes, &|n| list(i, n, core), "list with a wrong part at its end") {
                Ok(v) => v,
                Err(v) => return Some(v),
            };
            for (j, n) in sizes.iter().enumerate() {
                if bad[j] > REJECT * ok[j] + 20_000 {
                    return viol(e, &list(i, *n, core), format!("rejecting costs {} edges, accepting the shape costs {}", bad[j], ok[j]));
                }
            }
        }
        // cut off at its end
        let f = |n: usize| {
            let mut s = list(i, n, "");
            let t = LISTS[i].4.len();
            s.truncate(s.len() - t);
            s
        };
        match growth(st, e, sizes, &f, "list without its end") {
            Ok(_) => None,
            Err(v) => Some(v),
        }
    });
    let dl = crate::lists::count();
    r.par(&format!("{} long-list families of distinct items, {} to {} items", dl, sizes[0], sizes[sizes.len() - 1]), dl as u64, |i, _, st| {
        let e = crate::lists::entry(i as usize);
        let f = |n: usize| crate::lists::nth(i as usize, n);
        if let Err(v) = growth(st, e, sizes, &f, "list of distinct items") {
            return Some(v);
        }
        let f = |n: usize| {
            let mut s = crate::lists::nth(i as usize, n);
            s.push_str(" \u{1}");
            s
        };
        growth(st, e, sizes, &f, "list of distinct items with something after it").err()
    });
    // what the instrumentation does not see (memory moves, searches inside the standard library)
    // shows in processor time
    let bytes: (usize, usize) = if r.thorough { (16_000, 2_000_000) } else { (16_000, 400_000) };
    r.par(&format!("processor time of {} long texts, {} against {} bytes", LISTS.len() + dl, bytes.1, bytes.0), (LISTS.len() + dl) as u64, |i, _, st| {
        let i = i as usize;
        let (e, f): (Entry, Box<dyn Fn(usize) -> String>) = if i < LISTS.len() {
            (LISTS[i].0, Box::new(move |n| list(i, n, "")))
        } else {
            (crate::lists::entry(i - LISTS.len()), Box::new(move |n| crate::lists::nth(i - LISTS.len(), n)))
        };
        // updates nest in one another
        let top = if e == Entry::Update { bytes.1.min(60_000) } else { bytes.1 };
        let per = (f(2000).len() - f(1000).len()).max(1) as f64 / 1000.0;
        let small = f((bytes.0 as f64 / per) as usize);
        let big = f((top as f64 / per) as usize);
        let mut worst = 0.0f64;
        // the best of several, so that other work on the machine cannot raise it
        let mut best = (f64::MAX, f64::MAX);
        for round in 0..6 {
            let a = seconds(e, &small) / small.len() as f64;
            let b = seconds(e, &big) / big.len() as f64;
            best = (best.0.min(a), best.1.min(b));
            worst = best.1 / best.0;
            st.evals += 2;
            if round == 0 {
                st.case(e, &small);
                st.case(e, &big);
            }
            if worst < TIME_GROWTH || best.1 * (big.len() as f64) < 0.05 {
                st.max("growth of time per byte, percent", (100.0 * worst) as u64);
                return None;
            }
        }
        st.max("growth of time per byte, percent", (100.0 * worst) as u64);
        let mut short = big.clone();
        let mut n = short.len().min(2000);
        while !short.is_char_boundary(n) {
            n -= 1;
        }
        short.truncate(n);
        Some(Viol {
            what: format!("{:.0} ns of processor time per byte of {} bytes against {:.0} of {}", best.1 * 1e9, big.len(), best.0 * 1e9, small.len()),
            entry: e,
            text: big,
            detail: format!("begins {}", short),
        })
    });
    r.par("mixed nesting, depth 8..100", r.n(40_000, 600_000), |_, g, st| {
        let ri = g.below(ROOTS.len());
        let n = g.range(8, 100);
        let (s, ok) = mixed(g, ri, n);
        let e = ROOTS[ri].1;
        st.count(if ok { "mixed valid" } else { "mixed invalid" });
        bounded(st, e, &s)
    });
    r.par("generated texts and near misses", r.n(150_000, 2_000_000), |_, g, st| {
        let e = any_entry(g);
        let mut c = general(g);
        c.group_depth = 5;
        c.expr_depth = 6;
        c.node_depth = 5;
        c.path_depth = 5;
        let (mut toks, _) = make(g, c, e);
        if g.coin() {
            mutate::tokens(g, &mut toks);
        }
        let s = text_of(g, &toks, e);
        bounded(st, e, &s)
    });
}

/// a text this many times as long may cost this many times as much time per byte
const TIME_GROWTH: f64 = 5.0;

/// processor time of this thread for one parse, its result dropped
fn seconds(e: Entry, s: &str) -> f64 {
    #[repr(C)]
    struct Ts {
        s: i64,
        n: i64,
    }
    extern "C" {
        fn clock_gettime(clock: i32, t: *mut Ts) -> i32;
    }
    let now = || {
        let mut t = Ts { s: 0, n: 0 };
        // CLOCK_THREAD_CPUTIME_ID
        unsafe { clock_gettime(3, &mut t) };
        t.s as f64 + t.n as f64 * 1e-9
    };
    let a = now();
    let r = raw(e, s);
    let b = now();
    drop(r);
    b - a
}

/// a random tower of layers; sometimes with a wrong core or unclosed
fn mixed(g: &mut Rng, ri: usize, n: usize) -> (String, bool) {
    let (mut h, _, a, b) = ROOTS[ri];
    let mut s = String::from(a);
    let mut close: Vec<&str> = vec![b];
    // few kinds per text, so that pairs alternate many times
    let kinds: Vec<usize> = (0..g.range(2, 8)).map(|_| g.below(LAYERS.len())).collect();
    for _ in 0..n {
        let mut pick = None;
        for _ in 0..30 {
            let l = if g.pct(80) { *g.pick(&kinds) } else { g.below(LAYERS.len()) };
            if LAYERS[l].0 == h && fits(ri, l) && !(template(ri) && LAYERS[l].3 != N) {
                pick = Some(l);
                break;
            }
        }
        if let Some(l) = pick {
            s.push_str(LAYERS[l].1);
            close.push(LAYERS[l].2);
            h = LAYERS[l].3;
        }
    }
    let bad = g.one_in(3);
    s.push_str(if bad { *g.pick(wrong(h)) } else { inner(h) });
    let cut = if g.one_in(5) { g.below(close.len()) } else { 0 };
    while close.len() > cut {
        s.push_str(close.pop().unwrap());
    }
    (s, !bad && cut == 0)
}

// ---- C19

/// parse on a thread with an ordinary stack; conversion and comparison on the caller's.
/// Stack exhaustion ends the process: the parent process reports the text then.
fn on_small_stack(e: Entry, s: &str) -> Out {
    let mut out = None;
    std::thread::scope(|sc| {
        let h = std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(sc, || crate::exec::raw(e, s).0)
            .unwrap();
        let raw = h.join();
        out = Some(match raw {
            Ok(r) => crate::exec::cook(s, r),
            Err(_) => Out::Panic("panicked on a small stack".into()),
        });
    });
    out.unwrap()
}
pub const STACK: usize = 8 << 20;

fn faithful(st: &mut Stats, e: Entry, s: &str) -> Option<Viol> {
    st.evals += 1;
    let v = parse(e, s);
    let o = on_small_stack(e, s);
    match (&v, &o) {
        (_, Out::Panic(m)) => viol(e, s, format!("panicked: {}", m)),
        (Verdict::Accept(t), Out::Ok(n, x)) => {
            st.case(e, s);
            st.count("accepted");
            st.tree(x);
            if !crate::lex::is_layout(&s[*n..]) {
                return viol(e, s, "deeply nested text is not consumed".into());
            }
            if t != x {
                let d = t.diff(x).map(|d| format!("at {}: expected {}, got {}", cut(&d.0), cut(&d.1), cut(&d.2))).unwrap_or_default();
                return viol(e, s, format!("deeply nested text has another tree {}", d));
            }
            None
        }
        (Verdict::Accept(_), o) => viol(e, s, format!("deeply nested text is not accepted: {}", outline(o))),
        (Verdict::Reject, Out::Ok(n, _)) if crate::lex::is_layout(&s[*n..]) => viol(e, s, "unterminated or wrong deeply nested text accepted".into()),
        (Verdict::Reject, Out::Incomplete) => viol(e, s, "asked for more input".into()),
        (Verdict::Reject, _) => {
            st.case(e, s);
            st.count("rejected");
            None
        }
        (Verdict::Grey(_), _) => {
            st.count("not judged");
            None
        }
    }
}

pub fn c19(r: &mut Run) {
    r.rule = "a case is a distinct text nested up to 128 levels, parsed on an 8 MiB stack and compared with the reference tree (accepted) or rejected without a crash".into();
    let fam = families();
    let k = fam.len() as u64;
    let depths: Vec<usize> = if r.thorough { (1..=128).collect() } else { vec![1, 2, 3, 5, 7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 31, 32, 33, 40, 48, 50, 51, 63, 64, 65, 80, 96, 99, 100, 101, 112, 120, 127, 128] };
    let m = depths.len() as u64;
    r.par(&format!("{} nested families at {} depths", k, m), k * m, |i, g, st| {
        let (ri, ls) = &fam[(i / m) as usize];
        let n = depths[(i % m) as usize];
        let e = ROOTS[*ri].1;
        let core = inner(hole(*ri, ls, n));
        if let Some(v) = faithful(st, e, &build(*ri, ls, n, core, n)) {
            return Some(v);
        }
        if n % 8 == 0 || n > 120 {
            for c in [0, n / 2, n - 1] {
                if let Some(v) = faithful(st, e, &build(*ri, ls, n, core, c)) {
                    return Some(v);
                }
            }
            let w = *g.pick(wrong(hole(*ri, ls, n)));
            if let Some(v) = faithful(st, e, &build(*ri, ls, n, w, n)) {
                return Some(v);
            }
            // opened only, nothing inside
            if let Some(v) = faithful(st, e, &build(*ri, ls, n, "", 0)) {
                return Some(v);
            }
        }
        None
    });
    r.par("mixed nesting up to 128 levels", r.n(20_000, 500_000), |_, g, st| {
        let ri = g.below(ROOTS.len());
        let n = if g.coin() { 128 } else { g.range(1, 128) };
        let (s, _) = mixed(g, ri, n);
        faithful(st, ROOTS[ri].1, &s)
    });
    r.par("several deep parts in one text", r.n(1500, 40_000), |_, g, st| {
        let mut s = String::from("SELECT * {");
        let groots: Vec<usize> = (0..LAYERS.len()).filter(|i| LAYERS[*i].0 == G).collect();
        for _ in 0..g.range(2, 5) {
            let l = *g.pick(&groots);
            s.push_str(LAYERS[l].1);
            let mut h = LAYERS[l].3;
            let mut close = vec![LAYERS[l].2];
            for _ in 0..g.range(30, 120) {
                for _ in 0..20 {
                    let l = g.below(LAYERS.len());
                    if LAYERS[l].0 == h {
                        s.push_str(LAYERS[l].1);
                        close.push(LAYERS[l].2);
                        h = LAYERS[l].3;
                        break;
                    }
                }
            }
            s.push_str(inner(h));
            while let Some(c) = close.pop() {
                s.push_str(c);
            }
            s.push_str(" . ");
        }
        s.push('}');
        let e = Entry::Stmt;
        faithful(st, e, &s)
    });
    r.par("nested sentences with layout", r.n(3000, 60_000), |_, g, st| {
        let mut c = Cfg::general();
        c.group_depth = 20;
        c.expr_depth = 30;
        c.node_depth = 30;
        c.path_depth = 30;
        c.nodes = 70;
        c.budget = 600;
        c.names = 0;
        c.strings = 0;
        c.elems = [3, 3, 3, 3, 3, 3, 3, 0];
        let e = any_entry(g);
        let (toks, _) = make(g, c, e);
        let s = render(g, &toks, Lay::Mix, Case::Random, leads(e));
        faithful(st, e, &s)
    });
}
