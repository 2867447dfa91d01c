//! C20: helper operations on parsed values.

use crate::exec::*;
use crate::gen::*;
use crate::refp::Entry;
use crate::render::*;
use crate::run::*;
use crate::tree::T;
use nom_sparql::aggregate::*;
use nom_sparql::arithmetic::Sign;
use nom_sparql::clauses::LimitOffsetClause;
use nom_sparql::expression::*;
use nom_sparql::literal::StringLiteral as SL;
use nom_sparql::node::*;
use nom_sparql::path::PathMod;
use std::str::FromStr;

fn fail(text: String, what: String) -> Option<Viol> {
    Some(Viol { what, entry: Entry::Stmt, text, detail: String::new() })
}
/// call, recording a panic as a violation
macro_rules! call {
    ($t:expr, $e:expr) => {
        match guarded(|| $e) {
            Ok(v) => v,
            Err(m) => return fail(format!("{:?}", $t), format!("panicked: {}", m)),
        }
    };
}

fn compatible(a: &SL, b: &SL) -> bool {
    match (a, b) {
        (SL::Language((_, x)), SL::Language((_, y))) => x == y,
        (SL::Language(_), _) => true,
        (_, SL::Language(_)) => false,
        _ => true,
    }
}

pub fn c20(r: &mut Run) {
    r.rule = "a case is a distinct call of a helper with its arguments; each result is compared with the helper's definition written out independently".into();
    let words: Vec<String> = {
        let mut w: Vec<String> = ["", "a", "en", "EN", "xsd:string", "http://www.w3.org/2001/XMLSchema#string", "é日", "\u{0}", "fr-BE", "\\n", " "].map(String::from).to_vec();
        w.push("x".repeat(300));
        w
    };
    let tags: Vec<String> = ["en", "fr", "en-US", "en-GB", "de", "x", "zh-Hant-TW", "e", "enx", "EN", "En", "eN", "en-us", "EN-US", "en-", "-en", "en_US", "enUS", "en-US-x", "zh-hant-tw", "zh-TW", "", "é", "É", "en ", " en", "@en", "ne", "frr", "x-en", "i-en", "nb", "no", "zh", "cmn", "*"].map(String::from).to_vec();
    let mut all: Vec<SL> = vec![];
    for w in &words {
        all.push(SL::Simple(w.clone()));
        all.push(SL::Typed(w.clone()));
        for t in &tags {
            all.push(SL::Language((w.clone(), t.clone())));
        }
    }
    let k = all.len() as u64;
    r.par("argument compatibility: all ordered pairs", k * k, |i, _, st| {
        let (a, b) = (&all[(i / k) as usize], &all[(i % k) as usize]);
        st.evals += 1;
        st.case(Entry::Stmt, &format!("{:?}.compatible_arg({:?})", a, b));
        let want = compatible(a, b);
        let got = call!((a, b), a.compatible_arg(b));
        st.count(if want { "compatible" } else { "incompatible" });
        if got != want {
            return fail(format!("{:?}.compatible_arg({:?})", a, b), format!("expected {}, got {}", want, got));
        }
        None
    });
    r.par("argument compatibility: random pairs", r.n(200_000, 2_000_000), |_, g, st| {
        let mut one = |tag: Option<String>| {
            let n = g.below(12);
            let w: String = (0..n).map(|_| *g.pick(&['a', 'b', '"', 'é', '@'])).collect();
            match (tag, g.below(3)) {
                (Some(t), _) => SL::Language((w, t)),
                (None, 0) => SL::Simple(w),
                (None, 1) => SL::Typed(w),
                _ => {
                    let n = g.range(1, 8);
                    SL::Language((w, (0..n).map(|_| *g.pick(&['a', 'b', 'c'])).collect()))
                }
            }
        };
        let a = one(None);
        let b = match (&a, 0) {
            // near-equal tags
            (SL::Language((_, t)), _) => {
                let t = t.clone();
                let c = one(None);
                match c {
                    SL::Simple(_) => one(Some(t)),
                    SL::Typed(w) => SL::Language((w, {
                        let k = g.below(9);
                        let cs: Vec<char> = t.chars().collect();
                        match k {
                            0 => format!("{}-x", t),
                            1 => t.to_uppercase(),
                            2 => cs.iter().rev().collect(),
                            3 => cs[..cs.len().saturating_sub(1)].iter().collect(),
                            4 => cs.iter().skip(1).collect(),
                            5 => format!("{}{}", t, t),
                            6 => t.replace('a', "A"),
                            7 => t.replace('a', "-"),
                            _ => format!(" {}", t),
                        }
                    })),
                    c => c,
                }
            }
            _ => one(None),
        };
        st.evals += 1;
        st.case(Entry::Stmt, &format!("{:?}.compatible_arg({:?})", a, b));
        for (x, y) in [(&a, &b), (&b, &a), (&a, &a)] {
            let got = call!((x, y), x.compatible_arg(y));
            if got != compatible(x, y) {
                return fail(format!("{:?}.compatible_arg({:?})", x, y), format!("expected {}, got {}", compatible(x, y), got));
            }
        }
        None
    });
    r.par("string arguments are classified as written", r.n(150_000, 2_000_000), |_, g, st| {
        let mut c = Cfg::plain();
        c.strings = 80;
        let mut q = Gen::new(g, c);
        let w = q.string_tok();
        let (want, suffix) = match q.r.below(3) {
            0 => (SL::Simple(w), String::new()),
            1 => {
                let s = ["^^xsd:string", "^^xsd:string"][q.r.below(2)];
                (SL::Typed(w), s.to_string())
            }
            _ => {
                q.t.truncate(1);
                q.lang_tag();
                let l = q.t.pop().unwrap().s;
                (SL::Language((w, l[1..].to_string())), l)
            }
        };
        let s = q.t[0].s.clone();
        let after = *g.pick(&["", ")", ", ?x", " )", ";", "\n", "."]);
        let text = format!("{}{}{}", s, suffix, after);
        st.evals += 1;
        st.case(Entry::Stmt, &text);
        let got = call!(text, nom_sparql::verif_hooks::string_literal_arg(&text).map(|(r, x)| (r.to_string(), x)).map_err(|_| ()));
        match got {
            Ok((rest, x)) if x == want && rest == after => {
                st.count(match want {
                    SL::Simple(_) => "simple",
                    SL::Typed(_) => "typed",
                    SL::Language(_) => "tagged",
                });
                None
            }
            o => fail(text, format!("string argument: expected {:?} before {:?}, got {:?}", want, after, o)),
        }
    });
    // conversions of signs and path modifiers: every short text
    let al: Vec<String> = {
        let mut v: Vec<String> = vec![String::new()];
        let cs = ["+", "-", "*", "?", " ", "a", "é", "\u{ff0b}", "\u{2212}", "0", "/", "\n", "\u{0}", "|", "!"];
        for a in cs {
            v.push(a.into());
            for b in cs {
                v.push(format!("{}{}", a, b));
                for c in cs {
                    v.push(format!("{}{}{}", a, b, c));
                }
            }
        }
        v.extend((0..0x3000u32).filter_map(char::from_u32).map(|c| c.to_string()));
        v.extend(["POS", "NEG", "plus", "minus", "+1", "-1", "QuestionMark", "++", "--"].map(String::from));
        v
    };
    r.par("signs and path modifiers from text", al.len() as u64, |i, _, st| {
        let s = &al[i as usize];
        st.evals += 2;
        st.case(Entry::Stmt, s);
        let want = match s.as_str() {
            "+" | "" => Some(Sign::POS),
            "-" => Some(Sign::NEG),
            _ => None,
        };
        let got = call!(s, Sign::from_str(s).ok());
        if got != want {
            return fail(s.clone(), format!("Sign::from_str: expected {:?}, got {:?}", want, got));
        }
        if let Some(x) = got {
            let a: String = call!(s, x.to_string());
            let b: String = call!(s, AsRef::<str>::as_ref(&x).to_string());
            let sym = if x == Sign::POS { "+" } else { "-" };
            if a != sym || b != sym || call!(s, Sign::from_str(&a).ok()) != Some(x) {
                return fail(s.clone(), format!("a sign does not round-trip: {:?} {:?}", a, b));
            }
        }
        let want = match s.as_str() {
            "?" => Some(PathMod::QuestionMark),
            "*" => Some(PathMod::Asterisk),
            "+" => Some(PathMod::Plus),
            _ => None,
        };
        let got = call!(s, PathMod::from_str(s).ok());
        if got != want {
            return fail(s.clone(), format!("PathMod::from_str: expected {:?}, got {:?}", want, got));
        }
        None
    });
    r.par("the default sign", 1, |_, _, st| {
        st.evals += 1;
        if Sign::default() != Sign::POS {
            return fail("Sign::default()".into(), "the default sign is not plus".into());
        }
        None
    });
    // aggregates: DISTINCT as parsed
    r.par("DISTINCT of parsed aggregates", r.n(60_000, 600_000), |_, g, st| {
        let mut c = Cfg::plain();
        c.expr_depth = 2;
        c.budget = 30;
        let mut q = Gen::new(g, c);
        let nb = crate::refp::BUILTINS.len();
        let na = crate::refp::AGGREGATES.len();
        let w = nb + q.r.below(na);
        let t = q.builtin_no(w, 2, None);
        let toks = std::mem::take(&mut q.t);
        let want = toks.get(2).map_or(false, |t| t.k == TK::Kw && t.s == "DISTINCT");
        let body = render(g, &toks, Lay::Space, Case::Random, false);
        let s = format!("ASK {{ FILTER {} }}", body);
        st.evals += 1;
        st.case(Entry::Ask, &s);
        let got = call!(s, nom_sparql::query::ask::ask_query(&s).ok().and_then(|(_, q)| find_aggregate(&q)));
        match got {
            None => {
                st.count("not found in the tree (not judged here)");
                None
            }
            Some(a) => {
                let d = call!(s, a.is_distinct());
                st.count(if want { "distinct" } else { "not distinct" });
                if d != want {
                    return fail(s.clone(), format!("is_distinct is {} for {}", d, t));
                }
                if a.clone() != a {
                    return fail(s, "a copy of the aggregate differs".into());
                }
                None
            }
        }
    });
    r.par("DISTINCT of constructed aggregates", 7 * 2 * 3, |i, _, st| {
        let d = i % 2 == 1;
        let e = match nom_sparql::query::ask::ask_query("ASK { FILTER COUNT(?x) }").ok().and_then(|(_, q)| find_aggregate(&q)) {
            Some(Aggregate::Count(Count { target: CountTarget::Expr(e), .. })) => e,
            _ => {
                st.count("no expression to build from");
                return None;
            }
        };
        let de = || DistinctExpression { distinct: d, expression: (*e).clone() };
        let a = match i / 2 % 7 {
            0 => Aggregate::Sum(de()),
            1 => Aggregate::Min(de()),
            2 => Aggregate::Max(de()),
            3 => Aggregate::Avg(de()),
            4 => Aggregate::Sample(de()),
            5 => Aggregate::Count(Count { distinct: d, target: if i / 14 == 0 { CountTarget::All } else { CountTarget::Expr(e.clone()) } }),
            _ => Aggregate::GroupConcat(GroupConcat { expression: de(), separator: match i / 14 { 0 => None, 1 => Some(String::new()), _ => Some("x".into()) } }),
        };
        st.evals += 1;
        st.case(Entry::Ask, &format!("{:?}", a));
        let got = call!(a, a.is_distinct());
        if got != d {
            return fail(format!("{:?}", a), format!("is_distinct: expected {}, got {}", d, got));
        }
        None
    });
    equality(r);
    more_equality(r);
    r.par("constructors", r.n(60_000, 400_000), |i, g, st| {
        let w = |g: &mut crate::rng::Rng| -> String {
            if g.one_in(3) {
                return g.pick(&words).clone();
            }
            let n = g.below(40);
            (0..n).map(|_| crate::mutate::any_char(g)).collect()
        };
        let s = w(g);
        let t = w(g);
        st.evals += 8;
        st.case(Entry::Stmt, &format!("constructors of {:?} {:?}", s, t));
        let l = call!(s, RdfLiteral::literal(&s));
        if l.literal != s || l.descriptor.is_some() {
            return fail(s, format!("RdfLiteral::literal returned {:?}", l));
        }
        for d in [RdfLiteralDescriptor::LangTag(t.clone()), RdfLiteralDescriptor::IriRef(Iri::Iri(t.clone()))] {
            let l = call!(s, RdfLiteral::new(s.as_str(), d.clone()));
            if l.literal != s || l.descriptor != Some(d) {
                return fail(s, format!("RdfLiteral::new returned {:?}", l));
            }
        }
        let num = g.next();
        let l = call!(num, RdfLiteral::literal(num));
        if l.literal != num.to_string() {
            return fail(num.to_string(), format!("RdfLiteral::literal returned {:?}", l));
        }
        let x = call!(s, Iri::iri_ref(&s));
        if x != Iri::Iri(s.clone()) {
            return fail(s, format!("Iri::iri_ref returned {:?}", x));
        }
        for p in [
            PrefixedName::PnameLN { pn_prefix: Some(s.clone()), pn_local: t.clone() },
            PrefixedName::PnameLN { pn_prefix: None, pn_local: s.clone() },
            PrefixedName::PnameNS(Some(s.clone())),
            PrefixedName::PnameNS(None),
        ] {
            let x = call!(s, Iri::prefixed_name(p.clone()));
            if x != Iri::PrefixedName(p.clone()) {
                return fail(s, format!("Iri::prefixed_name returned {:?} for {:?}", x, p));
            }
        }
        let edge = [0u64, 1, 2, 10, u32::MAX as u64, 1 << 32, i64::MAX as u64, 1 << 63, u64::MAX];
        let a = if i % 2 == 0 { *g.pick(&edge) } else { g.next() >> g.below(64) };
        let b = match g.below(4) {
            0 => None,
            1 => Some(a),
            2 => Some(*g.pick(&edge)),
            _ => Some(g.next() >> g.below(64)),
        };
        let x = call!((a, b), LimitOffsetClause::limit_offset(a, b));
        if x != (LimitOffsetClause::LimitOffset { limit: a, offset: b }) {
            return fail(format!("limit_offset({}, {:?})", a, b), format!("returned {:?}", x));
        }
        let x = call!((a, b), LimitOffsetClause::offset_limit(a, b));
        if x != (LimitOffsetClause::OffsetLimit { offset: a, limit: b }) {
            return fail(format!("offset_limit({}, {:?})", a, b), format!("returned {:?}", x));
        }
        use nom_sparql::data::*;
        use nom_sparql::prologue::PrefixDecl;
        use nom_sparql::var::Var;
        let p = call!(s, PrefixDecl::new(Some(s.clone()), t.clone()));
        if p.pname_ns.as_ref() != Some(&s) || p.iri_ref != t {
            return fail(s, format!("PrefixDecl::new returned {:?}", p));
        }
        let v = Var::QMark(s.clone());
        let vals = vec![DataBlockValue::Iri(Iri::Iri(t.clone())); g.below(4)];
        let d = call!(s, InlineDataOneVar::new(v.clone(), vals.clone()));
        if d.var != v || d.values != vals {
            return fail(s, format!("InlineDataOneVar::new returned {:?}", d));
        }
        let d = call!(s, InlineDataFull::new(vec![v.clone(), Var::Dollar(t.clone())], vec![vals.clone(), vec![]]));
        if d.vars != [v, Var::Dollar(t.clone())] || d.data_block_values != [vals, vec![]] {
            return fail(s, format!("InlineDataFull::new returned {:?}", d));
        }
        None
    });
}

/// equality, copies and debug output of whole syntax trees
fn equality(r: &mut Run) {
    r.par("equality, copies and debug text of parsed trees", r.n(120_000, 2_000_000), |_, g, st| {
        let e = crate::checks::any_entry(g);
        let mut c = crate::checks::general(g);
        c.budget = *g.pick(&[5, 10, 20, 40]);
        let (toks, _) = crate::checks::make(g, c, e);
        let a = render(g, &toks, Lay::Space, Case::Upper, leads(e));
        let mut t = toks.clone();
        let b = match g.below(4) {
            // the same tokens in other letters and layout
            0 => render(g, &toks, Lay::Mix, Case::Random, leads(e)),
            // one token changed, same kind
            1 | 2 => {
                let i = g.below(t.len().max(1));
                if let Some(x) = t.get_mut(i) {
                    crate::mutate::similar(g, x)
                }
                render(g, &t, Lay::Space, Case::Upper, leads(e))
            }
            _ => {
                crate::mutate::tokens(g, &mut t);
                render(g, &t, Lay::Space, Case::Upper, leads(e))
            }
        };
        compare(st, e, &a, &b)
    });
    // lists whose items differ in one place only
    r.par("equality of long lists", crate::lists::count() as u64 * 12, |i, g, st| {
        let k = crate::lists::count();
        let l = i as usize % k;
        let n = *g.pick(&[2usize, 3, 5, 17, 64, 257]);
        let a = crate::lists::nth(l, n);
        let b = match g.below(4) {
            0 => a.clone(),
            1 => crate::lists::nth(l, n + 1),
            2 => {
                // the last digit
                let p = a.rfind(|c: char| c.is_ascii_digit());
                match p {
                    Some(p) => format!("{}{}{}", &a[..p], if &a[p..p + 1] == "7" { "8" } else { "7" }, &a[p + 1..]),
                    None => a.clone(),
                }
            }
            _ => {
                let at: Vec<usize> = a.char_indices().filter(|c| c.1.is_ascii_digit()).map(|c| c.0).collect();
                if at.is_empty() {
                    a.clone()
                } else {
                    let p = at[g.below(at.len())];
                    format!("{}{}{}", &a[..p], if &a[p..p + 1] == "7" { "8" } else { "7" }, &a[p + 1..])
                }
            }
        };
        compare(st, crate::lists::entry(l), &a, &b)
    });
}
fn more_equality(r: &mut Run) {
    let exps: Vec<String> = ["", "e0", "e+0", "e-0", "e1", "e01", "e+1", "e-1", "e2", "e10", "e22", "e23", "e100", "e127", "e128", "e255", "e256", "e257", "e300", "e307", "e308", "e309", "e310", "e400", "e401", "e1000", "e32767", "e32768", "e65535", "e65536", "e65537", "e2147483647", "e2147483648", "e4294967295", "e4294967296", "e4294967297", "e9007199254740992", "e9007199254740993", "e9223372036854775806", "e9223372036854775807"]
        .iter()
        .flat_map(|x| if x.len() > 3 && !x.contains('+') { vec![x.to_string(), x.replace('e', "e-")] } else { vec![x.to_string()] })
        .collect();
    let ms = ["0", "1", "2", "1.0", "1.", ".5", "0.5", "-1", "-0.0", "0.0", "+1", "10.0", "9007199254740992", "9007199254740993", "9223372036854775807", "1.0000000000000002", "1.0000000000000001", "4.9", ".1", ".10", "0.30000000000000004", "0.3"];
    let mut nums: Vec<String> = vec![];
    for m in ms {
        for x in &exps {
            nums.push(format!("{}{}", m, x));
        }
    }
    let places: &[(Entry, &str, &str)] = &[(Entry::Stmt, "ASK { ?s ?p ", " }"), (Entry::Stmt, "ASK { FILTER ( ", " ) }"), (Entry::Stmt, "ASK { VALUES ?v { ", " } }"), (Entry::Stmt, "ASK { FILTER ( ?x", " ) }"), (Entry::Update, "INSERT DATA { <s> <p> ", " }"), (Entry::Stmt, "ASK { } ORDER BY ( 1 * ", " )")];
    let k = nums.len() as u64;
    r.par(&format!("equality of all pairs of {} numbers", k), k * k, |i, g, st| {
        let (e, a, b) = places[g.below(places.len())];
        let (x, y) = (&nums[(i / k) as usize], &nums[(i % k) as usize]);
        compare(st, e, &format!("{}{}{}", a, x, b), &format!("{}{}{}", a, y, b))
    });
    r.par("equality of nested templates", r.n(300_000, 4_000_000), |_, g, st| {
        let (e, toks, _) = crate::compose::random(g, 4)?;
        let a = render(g, &toks, Lay::Space, Case::Upper, false);
        let b = match g.below(3) {
            0 => {
                let mut t = toks.clone();
                if !t.is_empty() {
                    let i = g.below(t.len());
                    crate::mutate::similar(g, &mut t[i]);
                }
                render(g, &t, Lay::Space, Case::Upper, false)
            }
            1 => {
                let mut t = toks.clone();
                crate::mutate::tokens(g, &mut t);
                render(g, &t, Lay::Space, Case::Upper, false)
            }
            // one character in the other case, or another one
            _ => {
                let mut c: Vec<char> = a.chars().collect();
                if !c.is_empty() {
                    let i = g.below(c.len());
                    c[i] = if c[i].is_ascii_alphabetic() && g.coin() { (c[i] as u8 ^ 0x20) as char } else { *g.pick(&['a', 'b', '1', '2', '+', '-', '*', '/', '<', '>', '=', '|', '&', '?', '$', '"', '\'', ' ', ',', ';', '.', '^', '!']) };
                }
                c.into_iter().collect()
            }
        };
        compare(st, e, &a, &b)
    });
    // trees that differ at the bottom only
    let depths = [1usize, 2, 7, 33, 128];
    let deep: Vec<Vec<(Entry, String)>> = depths.iter().map(|n| crate::deep::nested_texts(*n)).collect();
    let m = deep[0].len() as u64;
    r.par(&format!("equality of {} kinds of nested trees", m), m * depths.len() as u64, |i, g, st| {
        let (d, k) = ((i / m) as usize, (i % m) as usize);
        let (e, a) = &deep[d][k];
        // the innermost name
        if let Some(v) = compare(st, *e, a, a) {
            return Some(v);
        }
        for (x, y) in [("?z", "?y"), ("<z>", "<y>"), ("?s ?p ?o", "?s ?p ?x"), ("?s ?p ?o", "?s ?x ?o"), ("?s ?p ?o", "?x ?p ?o"), ("?s ?p ?o", ""), ("?z", "?z0"), ("?z", "$z"), ("?z", "1")] {
            let b = match a.rfind(x) {
                Some(p) if depths[d] < 30 || g.one_in(4) => format!("{}{}{}", &a[..p], y, &a[p + x.len()..]),
                _ => continue,
            };
            if let Some(v) = compare(st, *e, a, &b) {
                return Some(v);
            }
        }
        if d > 0 && depths[d] < 64 {
            return compare(st, *e, a, &deep[d - 1][k].1);
        }
        None
    });
    let c: Vec<(Entry, &str)> = crate::corpus::CORPUS.iter().map(|s| match s.strip_prefix("U:") { Some(u) => (Entry::Update, u), None => (Entry::Stmt, *s) }).collect();
    let k = c.len() as u64;
    r.par(&format!("equality of all pairs of {} small sentences", k), k * k, |i, _, st| {
        let (a, b) = (c[(i / k) as usize], c[(i % k) as usize]);
        if a.0 != b.0 {
            return None;
        }
        compare(st, a.0, a.1, b.1)
    });
}
fn parsed(e: Entry, s: &str) -> Option<Ast> {
    match bare(e, s) {
        Ok(Ok((_, x))) => Some(x),
        _ => None,
    }
}
fn compare(st: &mut Stats, e: Entry, a: &str, b: &str) -> Option<Viol> {
    let (x, y) = match (parsed(e, a), parsed(e, b)) {
        (Some(x), Some(y)) => (x, y),
        _ => return None,
    };
    st.evals += 4;
    let both = format!("{}\u{1}{}", a, b);
    st.case(e, &both);
    let (t, u) = (tree_of(&x), tree_of(&y));
    let viol = |what: String| Some(Viol { what, entry: e, text: both.clone(), detail: format!("trees: {} / {}", cut(&t.to_string()), cut(&u.to_string())) });
    let eq = match guarded(|| (x == y, y == x, x == x.clone(), x.clone() == x, x != y)) {
        Ok(q) => q,
        Err(m) => return viol(format!("comparing or copying trees panicked: {}", m)),
    };
    // IEEE: zero equals minus zero
    let zero = |t: &T| crate::tree::T::to_string(t).replace("-0.0#8000000000000000", "0.0#0000000000000000");
    let want = t == u || zero(&t) == zero(&u);
    st.count(if want { "equal trees" } else { "different trees" });
    if eq.0 != want || eq.1 != want || eq.4 == want {
        return viol(format!("== of two parsed trees is {}/{} where their contents are {}", eq.0, eq.1, if want { "the same" } else { "different" }));
    }
    if !eq.2 || !eq.3 {
        return viol("a copy of a tree is not equal to it".into());
    }
    if tree_of(&x.clone()) != t {
        return viol("a copy of a tree has other contents".into());
    }
    // indented output of a tree as deep as that is mostly indentation
    let deep = a.len() > 100 && b.len() > 100 && t.depth() > 150;
    if deep && a != b {
        return None;
    }
    match guarded(|| (format!("{:?}", x), if deep { String::new() } else { format!("{:#?}", y) }, format!("{:?}", x.clone()))) {
        Err(m) => viol(format!("debug output panicked: {}", m)),
        Ok(d) if d.0 != d.2 => viol("debug output of a copy differs".into()),
        Ok(_) => None,
    }
}

fn find_aggregate(q: &nom_sparql::query::ask::AskQuery) -> Option<Aggregate> {
    crate::conv::first_constraint_aggregate(q)
}
