//! C21: the same construct in different surroundings, entry points, threads, buffers, orders.

use crate::checks::*;
use crate::exec::*;
use crate::gen::*;
use crate::lex::is_layout;
use crate::mutate;
use crate::refp::{parse, Entry, Verdict};
use crate::render::*;
use crate::rng::Rng;
use crate::run::*;
use crate::sweep::toks;
use crate::tree::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Group,
    Expr,
    Triples,
    Template,
    Data,
    Term,
    Iri,
    Var,
    Path,
    Constraint,
    Quads,
}
use Kind::*;

struct Ctx {
    entry: Entry,
    pre: Vec<Tok>,
    post: Vec<Tok>,
    /// where in the whole tree the construct's tree stands
    path: Vec<usize>,
}

/// a construct of the kind, recognisable in a tree
fn marker(k: Kind) -> &'static str {
    match k {
        Group => "{ ?mark7 ?mark8 ?mark9 }",
        Expr => "?mark7 + 31 * ?mark8 || ?mark9",
        Triples | Template => "?mark7 ?mark8 ?mark9 , ?mark6 .",
        Data => "( ?mark7 ?mark8 ) { ( 31 32 ) }",
        Term | Iri => "<mark7>",
        Var => "?mark7",
        Path => "<mark7> / <mark8> *",
        Constraint => "( ?mark7 + 31 )",
        Quads => "{ ?mark7 ?mark8 ?mark9 }",
    }
}
const PLACES: &[(Kind, Entry, &str, &str)] = &[
    (Group, Entry::Stmt, "SELECT *", ""),
    (Group, Entry::Stmt, "SELECT ?x WHERE", "LIMIT 1"),
    (Group, Entry::Ask, "ASK", ""),
    (Group, Entry::Stmt, "PREFIX x: <u> ASK FROM <u>", "VALUES ?v { }"),
    (Group, Entry::Stmt, "DESCRIBE *", "ORDER BY ?x"),
    (Group, Entry::Stmt, "CONSTRUCT { ?s ?p ?o }", ""),
    (Group, Entry::Ask, "ASK {", "}"),
    (Group, Entry::Ask, "ASK { ?s ?p ?o OPTIONAL", ". ?x ?y ?z }"),
    (Group, Entry::Ask, "ASK { { } UNION", "}"),
    (Group, Entry::Ask, "ASK {", "UNION { ?x ?y ?z } }"),
    (Group, Entry::Ask, "ASK { MINUS", "FILTER ( 1 ) }"),
    (Group, Entry::Ask, "ASK { GRAPH ?g", "}"),
    (Group, Entry::Ask, "ASK { SERVICE SILENT <s>", "}"),
    (Group, Entry::Ask, "ASK { FILTER EXISTS", "}"),
    (Group, Entry::Ask, "ASK { FILTER NOT EXISTS", "?x ?y ?z }"),
    (Group, Entry::Ask, "ASK { FILTER ( 1 && EXISTS", "|| 2 ) }"),
    (Group, Entry::Ask, "ASK { { SELECT *", "GROUP BY ?x } }"),
    (Group, Entry::Ask, "ASK { OPTIONAL { MINUS { GRAPH <g>", "} } }"),
    (Group, Entry::Stmt, "SELECT ( EXISTS", "AS ?x ) { }"),
    (Group, Entry::Stmt, "ASK { } HAVING EXISTS", ""),
    (Group, Entry::Update, "INSERT { } WHERE", ""),
    (Group, Entry::Update, "WITH <u> DELETE { } USING <v> WHERE", "; CLEAR ALL"),
    (Expr, Entry::Ask, "ASK { FILTER (", ") }"),
    (Expr, Entry::Ask, "ASK { ?s ?p ?o FILTER (", ") ?x ?y ?z }"),
    (Expr, Entry::Ask, "ASK { BIND (", "AS ?x ) }"),
    (Expr, Entry::Stmt, "SELECT (", "AS ?x ) { }"),
    (Expr, Entry::Stmt, "SELECT ?y (", "AS ?x ) ?z { }"),
    (Expr, Entry::Stmt, "ASK { } HAVING (", ")"),
    (Expr, Entry::Stmt, "ASK { } ORDER BY (", ") ?y"),
    (Expr, Entry::Stmt, "ASK { } ORDER BY ?y DESC (", ")"),
    (Expr, Entry::Stmt, "ASK { } GROUP BY (", "AS ?x )"),
    (Expr, Entry::Stmt, "ASK { } GROUP BY (", ") LIMIT 1"),
    (Expr, Entry::Ask, "ASK { FILTER ( ( (", ") ) ) }"),
    (Expr, Entry::Ask, "ASK { FILTER ( 1 * (", ") + 2 ) }"),
    (Expr, Entry::Ask, "ASK { FILTER ( ! (", ") ) }"),
    (Expr, Entry::Ask, "ASK { FILTER ( 1 IN ( 2 ,", ", 3 ) ) }"),
    (Expr, Entry::Ask, "ASK { FILTER ( 1 NOT IN (", ") ) }"),
    (Expr, Entry::Ask, "ASK { FILTER STR (", ") }"),
    (Expr, Entry::Ask, "ASK { FILTER IF ( 1 ,", ", 2 ) }"),
    (Expr, Entry::Ask, "ASK { FILTER IF (", ", 1 , 2 ) }"),
    (Expr, Entry::Ask, "ASK { FILTER COALESCE ( 1 ,", ") }"),
    (Expr, Entry::Ask, "ASK { FILTER REGEX ( 1 , 2 ,", ") }"),
    (Expr, Entry::Ask, "ASK { FILTER REPLACE (", ", 2 , 3 , 4 ) }"),
    (Expr, Entry::Ask, "ASK { FILTER SUBSTR ( 1 ,", ") }"),
    (Expr, Entry::Ask, "ASK { FILTER COUNT ( DISTINCT", ") }"),
    (Expr, Entry::Ask, "ASK { FILTER GROUP_CONCAT (", "; SEPARATOR = ',' ) }"),
    (Expr, Entry::Ask, "ASK { FILTER <f> (", ") }"),
    (Expr, Entry::Ask, "ASK { FILTER x:f ( DISTINCT 1 ,", ", 2 ) }"),
    (Expr, Entry::Ask, "ASK { FILTER EXISTS { FILTER (", ") } }"),
    (Expr, Entry::Ask, "ASK { { SELECT * { } HAVING (", ") } }"),
    (Expr, Entry::Update, "DELETE { } WHERE { FILTER (", ") }"),
    (Constraint, Entry::Ask, "ASK { FILTER", "}"),
    (Constraint, Entry::Ask, "ASK { ?s ?p ?o . FILTER", ". ?x ?y ?z }"),
    (Constraint, Entry::Stmt, "ASK { } HAVING", ""),
    (Constraint, Entry::Stmt, "ASK { } HAVING ( 1 )", "( 2 )"),
    (Constraint, Entry::Stmt, "ASK { } ORDER BY", ""),
    (Constraint, Entry::Stmt, "ASK { } ORDER BY ?x", "LIMIT 1"),
    (Constraint, Entry::Ask, "ASK { { SELECT * { } GROUP BY ?g HAVING", "} }"),
    (Constraint, Entry::Ask, "ASK { OPTIONAL { FILTER", "} }"),
    (Triples, Entry::Ask, "ASK {", "}"),
    (Triples, Entry::Ask, "ASK { FILTER ( 1 )", "}"),
    (Triples, Entry::Ask, "ASK { OPTIONAL { } .", "FILTER ( 1 ) }"),
    (Triples, Entry::Ask, "ASK { OPTIONAL {", "} }"),
    (Triples, Entry::Ask, "ASK { GRAPH <g> {", "} }"),
    (Triples, Entry::Ask, "ASK { FILTER EXISTS {", "BIND ( 1 AS ?v ) } }"),
    (Triples, Entry::Ask, "ASK { VALUES ?v { }", "{ } }"),
    (Triples, Entry::Ask, "ASK { { SELECT * {", "} } }"),
    (Triples, Entry::Stmt, "CONSTRUCT { } WHERE {", "}"),
    (Triples, Entry::Update, "INSERT { } WHERE {", "}"),
    (Template, Entry::Stmt, "CONSTRUCT {", "} WHERE { }"),
    (Template, Entry::Stmt, "CONSTRUCT WHERE {", "}"),
    (Template, Entry::SubConstruct, "{", "} { }"),
    (Template, Entry::SubTriples, "WHERE {", "}"),
    (Template, Entry::Update, "INSERT DATA {", "}"),
    (Template, Entry::Update, "INSERT DATA {", "GRAPH <g> { } }"),
    (Template, Entry::Update, "DELETE DATA { GRAPH <g> {", "} }"),
    (Template, Entry::Update, "DELETE WHERE { GRAPH ?g { }", "}"),
    (Template, Entry::Update, "DELETE {", "} INSERT { } WHERE { }"),
    (Template, Entry::Update, "DELETE { } INSERT {", "} WHERE { }"),
    (Quads, Entry::Update, "INSERT DATA", ""),
    (Quads, Entry::Update, "DELETE DATA", "; CLEAR ALL"),
    (Quads, Entry::Update, "DELETE WHERE", ""),
    (Quads, Entry::Update, "DELETE", "WHERE { }"),
    (Quads, Entry::Update, "WITH <u> DELETE { } INSERT", "USING <u> WHERE { }"),
    (Quads, Entry::Update, "CLEAR ALL ; INSERT", "WHERE { }"),
    (Data, Entry::Ask, "ASK { VALUES", "}"),
    (Data, Entry::Ask, "ASK { ?s ?p ?o VALUES", ". ?x ?y ?z }"),
    (Data, Entry::Ask, "ASK { OPTIONAL { VALUES", "FILTER ( 1 ) } }"),
    (Data, Entry::Stmt, "ASK { } VALUES", ""),
    (Data, Entry::Stmt, "SELECT * { } LIMIT 1 VALUES", ""),
    (Data, Entry::Stmt, "CONSTRUCT WHERE { } VALUES", ""),
    (Data, Entry::Stmt, "DESCRIBE <u> VALUES", ""),
    (Data, Entry::Ask, "ASK { { SELECT * { } VALUES", "} }"),
    (Data, Entry::Update, "DELETE { } WHERE { VALUES", "}"),
    (Term, Entry::Ask, "ASK { ?s ?p", "}"),
    (Term, Entry::Ask, "ASK {", "?p ?o }"),
    (Term, Entry::Ask, "ASK { ?s ?p ?o ,", "; ?q ?r }"),
    (Term, Entry::Ask, "ASK { ?s ?p (", "?o ) }"),
    (Term, Entry::Ask, "ASK { ?s ?p [ ?q", "] }"),
    (Term, Entry::Ask, "ASK { ?s ?p ?o . OPTIONAL { ?s <p> *", "} }"),
    (Term, Entry::Stmt, "CONSTRUCT { ?s ?p", "} { }"),
    (Term, Entry::Stmt, "CONSTRUCT WHERE {", "?p ?o }"),
    (Term, Entry::Update, "INSERT DATA { ?s ?p", "}"),
    (Iri, Entry::Ask, "ASK { ?s ?p", "}"),
    (Iri, Entry::Ask, "ASK {", "?p ?o }"),
    (Iri, Entry::Ask, "ASK { ?s", "?o }"),
    (Iri, Entry::Ask, "ASK { ?s <p> / ^", "* ?o }"),
    (Iri, Entry::Ask, "ASK { ?s ! (", "| a ) ?o }"),
    (Iri, Entry::Ask, "ASK { ?s ?p \"x\" ^^", "}"),
    (Iri, Entry::Ask, "ASK { GRAPH", "{ } }"),
    (Iri, Entry::Ask, "ASK { SERVICE", "{ } }"),
    (Iri, Entry::Ask, "ASK { VALUES ?v {", "} }"),
    (Iri, Entry::Ask, "ASK { FILTER ( 1 =", ") }"),
    (Iri, Entry::Ask, "ASK { FILTER", "( 1 ) }"),
    (Iri, Entry::Stmt, "ASK FROM", "{ }"),
    (Iri, Entry::Stmt, "ASK FROM NAMED", "{ }"),
    (Iri, Entry::Stmt, "DESCRIBE", ""),
    (Iri, Entry::Stmt, "CONSTRUCT { ?s", "?o } { }"),
    (Iri, Entry::Update, "LOAD", ""),
    (Iri, Entry::Update, "LOAD <u> INTO GRAPH", ""),
    (Iri, Entry::Update, "CLEAR GRAPH", ""),
    (Iri, Entry::Update, "COPY", "TO DEFAULT"),
    (Iri, Entry::Update, "MOVE DEFAULT TO", ""),
    (Iri, Entry::Update, "WITH", "DELETE { } WHERE { }"),
    (Iri, Entry::Update, "DELETE { } USING", "WHERE { }"),
    (Iri, Entry::Update, "INSERT DATA { GRAPH", "{ } }"),
    (Var, Entry::Stmt, "SELECT", "{ }"),
    (Var, Entry::Ask, "ASK { ?s ?p", "}"),
    (Var, Entry::Ask, "ASK {", "?p ?o }"),
    (Var, Entry::Ask, "ASK { ?s", "?o }"),
    (Var, Entry::Ask, "ASK { GRAPH", "{ } }"),
    (Var, Entry::Ask, "ASK { BIND ( 1 AS", ") }"),
    (Var, Entry::Ask, "ASK { VALUES", "{ } }"),
    (Var, Entry::Ask, "ASK { VALUES ( ?a", ") { } }"),
    (Var, Entry::Ask, "ASK { FILTER ( 1 +", ") }"),
    (Var, Entry::Ask, "ASK { FILTER BOUND (", ") }"),
    (Var, Entry::Stmt, "ASK { } GROUP BY", ""),
    (Var, Entry::Stmt, "ASK { } ORDER BY", "LIMIT 1"),
    (Var, Entry::Stmt, "DESCRIBE", ""),
    (Path, Entry::Ask, "ASK { ?s", "?o }"),
    (Path, Entry::Ask, "ASK { ?s ?p ?o ;", "1 , ?x }"),
    (Path, Entry::Ask, "ASK { OPTIONAL { [", "?o ] } }"),
    (Path, Entry::Ask, "ASK { ?s ^ (", ") ?o }"),
    (Path, Entry::Ask, "ASK { ?s <p> | (", ") * ?o }"),
    (Path, Entry::Ask, "ASK { ( 1 )", "[ ] }"),
    (Path, Entry::Ask, "ASK { FILTER EXISTS { <s>", "\"o\" } }"),
];

fn contexts() -> Vec<(Kind, Vec<Ctx>)> {
    let mut out: Vec<(Kind, Vec<Ctx>)> = vec![];
    for (k, e, a, b) in PLACES {
        let m = marker(*k);
        let text = format!("{} {} {}", a, m, b).trim().to_string();
        let t = match parse(*e, &text) {
            Verdict::Accept(t) => t,
            v => panic!("{:?} {}: {:?}", e, text, v),
        };
        let want = marker_tree(*k);
        let mut path = vec![];
        assert!(find(&t, &want, &mut path), "{:?} {} has no {}", k, t, want);
        let c = Ctx { entry: *e, pre: toks(a), post: toks(b), path };
        match out.iter_mut().find(|x| x.0 == *k) {
            Some(x) => x.1.push(c),
            None => out.push((*k, vec![c])),
        }
    }
    out
}
fn find(t: &T, w: &T, p: &mut Vec<usize>) -> bool {
    if t == w {
        return true;
    }
    if let T::N(_, k) = t {
        for (i, c) in k.iter().enumerate() {
            p.push(i);
            if find(c, w, p) {
                return true;
            }
            p.pop();
        }
    }
    false
}
fn at<'a>(mut t: &'a T, p: &[usize]) -> Option<&'a T> {
    for i in p {
        match t {
            T::N(_, k) => t = k.get(*i)?,
            _ => return None,
        }
    }
    Some(t)
}
/// the tree of the marker as the reference parser builds it in the kind's first place
fn marker_tree(k: Kind) -> T {
    let (_, e, a, b) = PLACES.iter().find(|p| p.0 == k).unwrap();
    let t = match parse(*e, format!("{} {} {}", a, marker(k), b).trim()) {
        Verdict::Accept(t) => t,
        v => panic!("{:?}: {:?}", k, v),
    };
    let name = match k {
        Group => "group",
        Expr => "or",
        Triples => "tb",
        Template => "tt",
        Data => "vn",
        Term | Iri => "iri",
        Var => "qvar",
        Path => "palt",
        Constraint => "c-br",
        Quads => "quads",
    };
    // the outermost node of that name that holds every part of the marker
    let mut best = None;
    t.walk(&mut |x| {
        if let T::N(m, _) = x {
            if *m == name && x.to_string().contains("mark7") {
                best = Some(x.clone());
            }
        }
    });
    best.unwrap_or_else(|| panic!("{:?}: no {} in {}", k, name, t))
}

fn construct(g: &mut Rng, k: Kind) -> Vec<Tok> {
    let mut c = if g.coin() { general(g) } else { Cfg::plain() };
    c.budget = *g.pick(&[5, 15, 40]);
    c.triples = 80;
    let mut q = Gen::new(g, c);
    let d = q.c.expr_depth;
    match k {
        Group => {
            q.group(q.c.group_depth);
        }
        Expr => {
            q.expr(d);
        }
        Triples => {
            q.triples(true);
        }
        Template => {
            q.triples(false);
        }
        Data => {
            q.datablock();
        }
        Term => {
            q.var_or_term();
        }
        Iri => {
            q.iri();
        }
        Var => {
            q.var();
        }
        Path => {
            let d = q.c.path_depth;
            q.path(d);
        }
        Constraint => {
            q.constraint();
        }
        Quads => {
            q.quads();
        }
    }
    q.t
}

fn v(e: Entry, text: &str, what: String, detail: String) -> Option<Viol> {
    Some(Viol { what, entry: e, text: text.to_string(), detail })
}

pub fn c21(r: &mut Run) {
    r.rule = "a case is a distinct text; the library's own trees of one construct in many places, of one text by several entry points, before and after other calls, alone and beside other threads, and from differently placed buffers are compared with each other".into();
    if std::env::var_os("VERIF_SAN").is_some() {
        {
            let cap = r.cap;
            concurrent(r, cap);
            return concurrent_nested(r);
        }
    }
    let ctx = contexts();
    let nctx: usize = ctx.iter().map(|c| c.1.len()).sum();
    r.par(&format!("one construct in all its places ({} kinds, {} places)", ctx.len(), nctx), r.n(20_000, 400_000), |_, g, st| {
        let (k, places) = g.pick(&ctx);
        let t = construct(g, *k);
        let mut seen: Option<(Option<T>, Entry, String)> = None;
        for c in places {
            let mut all = c.pre.clone();
            all.extend_from_slice(&t);
            all.extend_from_slice(&c.post);
            let lay = *g.pick(&[Lay::Space, Lay::Space, Lay::Mix]);
            let text = render(g, &all, lay, Case::Upper, false);
            st.evals += 1;
            // is the construct's tree at that place at all
            match parse(c.entry, &text) {
                Verdict::Accept(_) => {}
                _ => {
                    st.count("construct does not fit the place (not judged)");
                    continue;
                }
            }
            let sub = match run(c.entry, &text) {
                Out::Ok(n, x) if is_layout(&text[n..]) => at(&x, &c.path).cloned(),
                _ => None,
            };
            st.case(c.entry, &text);
            st.count("places compared");
            match &seen {
                None => seen = Some((sub, c.entry, text)),
                Some((s, e0, t0)) => {
                    if *s != sub {
                        let show = |x: &Option<T>| x.as_ref().map(|t| cut(&t.to_string())).unwrap_or("not accepted".into());
                        return v(c.entry, &text, format!("the same {:?} differs by place", k), format!("in {} {:?}: {}; here: {}", entry_name(*e0), cut(t0), show(s), show(&sub)));
                    }
                }
            }
        }
        None
    });
    r.par("entry points agree", r.n(60_000, 1_500_000), |_, g, st| {
        let e = *g.pick(&[Entry::Query, Entry::Ask, Entry::Describe, Entry::Construct, Entry::SubConstruct, Entry::SubTriples]);
        let mut c = general(g);
        c.budget = c.budget.min(80);
        let (mut toks, _) = make(g, c, e);
        if g.one_in(3) {
            mutate::tokens(g, &mut toks);
        }
        let lay = *g.pick(&[Lay::Min, Lay::Space, Lay::Mix]);
        let case = *g.pick(&CASES);
        let s = render(g, &toks, lay, case, false);
        st.evals += 2;
        st.case(e, &s);
        agreeing(st, e, &s)
    });
    r.par("earlier calls leave no trace", r.n(40_000, 1_000_000), |_, g, st| {
        let e = any_entry(g);
        let c = general(g);
        let (toks, _) = make(g, c, e);
        let s = text_of(g, &toks, e);
        let first = run(e, &s);
        for _ in 0..g.range(1, 4) {
            let e2 = *g.pick(&ENTRIES);
            let c = general(g);
            let (mut t2, _) = make(g, c, e2);
            mutate::tokens(g, &mut t2);
            let mut x = text_of(g, &t2, e2);
            if g.coin() {
                x = mutate::text(g, &x);
            }
            run(e2, &x);
        }
        st.evals += 2;
        st.case(e, &s);
        if run(e, &s) != first {
            return v(e, &s, "another result after other texts were parsed".into(), format!("before: {}", outline(&first)));
        }
        None
    });
    r.par("same text in other buffers", r.n(60_000, 1_000_000), |_, g, st| {
        let e = any_entry(g);
        let mut c = general(g);
        c.budget = c.budget.min(60);
        let (mut toks, _) = make(g, c, e);
        if g.coin() {
            mutate::tokens(g, &mut toks);
        }
        let s = text_of(g, &toks, e);
        let first = run(e, &s);
        st.case(e, &s);
        for _ in 0..3 {
            let before = "x".repeat(g.below(17));
            let after = *g.pick(&["", "}", " } LIMIT 7", "abc", "0", "\"", ".5", ":x", "\u{e9}", "*", "#", " VALUES ?v { }", "@en", "?", "{ ?s ?p ?o }", ";"]);
            let buf = format!("{}{}{}", before, s, after);
            let part = &buf[before.len()..before.len() + s.len()];
            st.evals += 1;
            let o = run(e, part);
            if o != first {
                return v(e, &s, format!("another result when the text lies before {:?} in a larger buffer", after), format!("alone: {}; there: {}", outline(&first), outline(&o)));
            }
        }
        None
    });
    r.par("another text in the same buffer", r.n(60_000, 1_000_000), |_, g, st| {
        // one buffer, never moved, holds text after text; results are compared with those of a
        // copy elsewhere
        let mut buf = String::with_capacity(1 << 16);
        let at = buf.as_ptr();
        let e = any_entry(g);
        let mut c = general(g);
        c.budget = c.budget.min(40);
        let (toks, _) = make(g, c, e);
        let base = text_of(g, &toks, e);
        let mut x = base.clone();
        for k in 0..4 {
            if x.len() > 1 << 16 {
                return None;
            }
            buf.clear();
            buf.push_str(&x);
            assert_eq!(at, buf.as_ptr());
            let here = run(e, &buf);
            st.evals += 2;
            st.case(e, &x);
            let there = run(e, &x.clone());
            if here != there {
                return v(e, &x, "another result in a buffer that held another text before".into(), format!("elsewhere: {}; there: {}", outline(&there), outline(&here)));
            }
            // the next text has the same length: one character exchanged for one as wide
            x = match k {
                1 => base.clone(),
                _ => swap_one(g, &base),
            };
        }
        None
    });
    r.par("look-alike texts in a row, each judged by the reference", r.n(24_000, 500_000), |_, g, st| {
        let e = any_entry(g);
        let mut c = general(g);
        c.budget = c.budget.min(40);
        let (toks, _) = make(g, c, e);
        let mut base = text_of(g, &toks, e);
        // a common beginning, middle or end of some length
        let pad = *g.pick(&[0usize, 0, 0, 10, 70, 140, 300, 1100, 4200]);
        if pad > 0 {
            let gaps: Vec<usize> = crate::lex::lex(&base).toks.iter().map(|t| t.s).collect();
            if let Some(at) = gaps.get(match g.below(3) {
                0 if e == Entry::Stmt || e == Entry::Update => 0,
                1 => gaps.len().saturating_sub(1),
                _ => g.below(gaps.len().max(1)).max(1),
            }) {
                let fill = if g.coin() { " ".repeat(pad) } else { format!("#{}\n", "-".repeat(pad)) };
                base.insert_str(*at, &fill);
            }
        }
        let mut seq = vec![base.clone()];
        for _ in 0..g.range(3, 9) {
            let from = if g.coin() { base.clone() } else { g.pick(&seq).clone() };
            seq.push(sibling(g, &from));
            if g.one_in(3) {
                seq.push(base.clone());
            }
        }
        for (k, x) in seq.iter().enumerate() {
            // the same text by the other entry points in between
            let e = if k % 4 == 3 { *g.pick(&ENTRIES) } else { e };
            st.evals += 1;
            st.case(e, x);
            let verdict = parse(e, x);
            match &verdict {
                Verdict::Accept(_) => st.count("look-alikes accepted"),
                Verdict::Reject => st.count("look-alikes not accepted"),
                Verdict::Grey(_) => st.count("look-alikes not judged"),
            }
            if let Some(what) = mismatch_with(e, x, true, verdict) {
                let mut d = describe(e, x);
                d.what = format!("after {} similar texts: {}", k, what);
                return Some(d);
            }
        }
        None
    });
    r.par("one text over and over", r.n(400, 6000), |_, g, st| {
        let e = any_entry(g);
        let mut c = general(g);
        c.budget = c.budget.min(30);
        let (mut toks, _) = make(g, c, e);
        if !g.one_in(3) {
            mutate::tokens(g, &mut toks);
        }
        let mut s = text_of(g, &toks, e);
        if g.coin() {
            let n = g.below(s.len() + 1);
            if s.is_char_boundary(n) {
                s.truncate(n);
            }
        }
        let k = *g.pick(&[40usize, 300, 1100]);
        st.case(e, &s);
        let mut first = None;
        // on a thread of its own: nothing was parsed there before
        std::thread::scope(|sc| {
            let f = &mut first;
            let s = &s;
            std::thread::Builder::new().stack_size(1 << 26).spawn_scoped(sc, move || *f = Some(run(e, s))).unwrap();
        });
        let first = first.unwrap();
        for i in 0..k {
            st.evals += 1;
            let o = run(e, &s);
            if o != first {
                return v(e, &s, "another result than on a fresh thread".into(), format!("fresh: {}; call {}: {}", outline(&first), i, outline(&o)));
            }
        }
        None
    });
    // nothing stays allocated: a growing store would make later calls depend on earlier ones
    r.par("memory returned after each parse", 8 * 4, |_, g, st| {
        let per = 4000;
        let mut grown = [0i64; 4];
        for x in grown.iter_mut() {
            for _ in 0..per {
                let e = any_entry(g);
                let mut c = general(g);
                c.budget = c.budget.min(20);
                let (mut toks, _) = make(g, c, e);
                if g.coin() {
                    mutate::tokens(g, &mut toks);
                }
                let s = text_of(g, &toks, e);
                // counted while the library runs and its result is dropped, nothing else
                let a = crate::alloc::live();
                drop(crate::exec::bare(e, &s));
                *x += crate::alloc::live() - a;
                st.evals += 1;
                st.count("parses whose memory was balanced");
            }
        }
        st.max("bytes left allocated by 4000 parses", grown.iter().copied().max().unwrap().max(0) as u64);
        // tables built once on first use are no growth
        if grown[1..].iter().all(|d| *d > per as i64) {
            return v(Entry::Stmt, "", format!("memory stays allocated: {:?} bytes in four rounds of {} parses", grown, per), String::new());
        }
        None
    });
    first_text(r);
    many_calls(r);
    if r.t0.elapsed() > r.cap {
        return;
    }
    // workers wait for one another here: none may stop at the wall limit
    let cap = std::mem::replace(&mut r.cap, std::time::Duration::from_secs(1 << 30));
    concurrent(r, cap);
    concurrent_nested(r);
    r.cap = cap;
}

/// sentences of every sort, and what they give on a thread that has parsed nothing else
fn probes(seed: u64) -> Vec<(Entry, String, Out)> {
    let mut g = Rng::new(crate::rng::mix(seed, 0x9B0));
    let mut v: Vec<(Entry, String, Out)> = vec![];
    for l in 0..crate::lists::count() {
        v.push((crate::lists::entry(l), crate::lists::nth(l, 3), Out::Incomplete));
    }
    for x in crate::deep::nested_texts(6) {
        v.push((x.0, x.1, Out::Incomplete));
    }
    for i in 0..150 {
        let e = ENTRIES[i % ENTRIES.len()];
        let mut c = general(&mut g);
        c.budget = 30;
        let (mut toks, _) = make(&mut g, c, e);
        if i % 3 == 2 {
            mutate::tokens(&mut g, &mut toks);
        }
        let s = render(&mut g, &toks, Lay::Space, Case::Upper, leads(e));
        v.push((e, s, Out::Incomplete));
    }
    std::thread::scope(|sc| {
        for x in v.iter_mut() {
            std::thread::Builder::new().stack_size(1 << 26).spawn_scoped(sc, move || x.2 = run(x.0, &x.1)).unwrap().join().unwrap();
        }
    });
    v
}

/// counters that run over: one text a great many times, accepted or stopped short, then the probes
fn many_calls(r: &mut Run) {
    if std::env::var_os("VERIF_SAN").is_some() {
        return;
    }
    let ps = probes(r.seed);
    let mut texts: Vec<(Entry, String)> = (0..crate::lists::count()).map(|l| (crate::lists::entry(l), crate::lists::nth(l, 2))).collect();
    for (e, s) in [
        (Entry::Stmt, "ASK { ?s ?p ?o . { } FILTER EXISTS { ?a ?b 1 } }"),
        (Entry::Stmt, "ASK { { SELECT * { } } ?s a 'x'@en , 1.5 }"),
        (Entry::Stmt, "BASE <b> PREFIX x: <u> SELECT ( COUNT ( * ) AS ?n ) FROM <u> WHERE { [ ] <p> ( 1 ) } GROUP BY ?x LIMIT 1"),
        (Entry::Stmt, "CONSTRUCT { _:b a x:y } FROM NAMED <u> { } ORDER BY DESC ( ?x ) OFFSET 2 VALUES ?v { UNDEF }"),
        (Entry::Stmt, "DESCRIBE <u> ?v WHERE { ?s ^ <p> / ! ( a | <q> ) * ?o }"),
        (Entry::Stmt, "ASK { SERVICE SILENT <s> { GRAPH ?g { } } MINUS { } BIND ( - 1 * ( 2 + ?x ) AS ?y ) }"),
        (Entry::Update, "INSERT DATA { GRAPH <g> { <s> <p> 1 } } ; DELETE WHERE { ?s ?p ?o } ; LOAD SILENT <u> INTO GRAPH <v>"),
        (Entry::Update, "WITH <g> DELETE { ?s ?p ?o } INSERT { } USING NAMED <u> WHERE { OPTIONAL { } } ; ADD DEFAULT TO <u>"),
    ] {
        texts.push((e, s.to_string()));
    }
    let calls = if r.thorough { 300_000u64 } else { 70_000 };
    let secs = if r.thorough { 8.0 } else { 1.6 };
    let k = texts.len() as u64;
    let per = if r.thorough { 12 } else { 2 };
    r.par(&format!("{} probes after one text was parsed up to {} times", ps.len(), calls), k * per, |i, g, st| {
        let (e, s) = &texts[(i % k) as usize];
        // whole, or broken off after a token
        let toks = crate::lex::lex(s).toks;
        let ends: Vec<usize> = toks.iter().map(|t| t.e).collect();
        let x = if i < k || ends.is_empty() { s.clone() } else { s[..*g.pick(&ends)].to_string() };
        let x = if i >= k && g.coin() { format!("{} \u{1}", x) } else { x };
        let mut bad = None;
        // in another order each time
        let mut order: Vec<usize> = (0..ps.len()).collect();
        for i in 1..order.len() {
            order.swap(i, g.below(i + 1));
        }
        std::thread::scope(|sc| {
            let bad = &mut bad;
            let order = &order;
            let x = &x;
            let ps = &ps;
            let st = &mut *st;
            std::thread::Builder::new().stack_size(1 << 28).spawn_scoped(sc, move || {
                let t = std::time::Instant::now();
                let mut n = 0u64;
                while n < calls {
                    drop(bare(*e, x));
                    n += 1;
                    if n % 256 == 0 && t.elapsed().as_secs_f64() > secs {
                        break;
                    }
                }
                st.evals += n + ps.len() as u64;
                st.add("calls before the probes", n);
                st.max("calls on one thread before the probes", n);
                for p in order.iter().map(|i| &ps[*i]) {
                    let o = run(p.0, &p.1);
                    if o != p.2 {
                        *bad = v(p.0, &p.1, format!("another result than on a fresh thread, after {} calls on {:?}", n, x), format!("fresh: {}; then: {}", outline(&p.2), outline(&o)));
                        return;
                    }
                }
            }).unwrap();
        });
        st.case(*e, &x);
        bad
    });
}

/// what a process may parse first
fn first_texts() -> Vec<(Entry, String)> {
    let mut v: Vec<(Entry, String)> = vec![];
    for s in crate::corpus::CORPUS {
        let (e, s) = match s.strip_prefix("U:") {
            Some(u) => (Entry::Update, u),
            None => (Entry::Stmt, *s),
        };
        v.push((e, s.to_string()));
    }
    for l in 0..crate::lists::count() {
        v.push((crate::lists::entry(l), crate::lists::nth(l, 2)));
    }
    for e in ENTRIES {
        for s in [
            "", " ", "\n", "\r\n", "\t", "#", "# c\n", "\u{feff}", "\0", "\u{e9}", "}", "x", ";", "BASE <> ASK {}", "BASE <b> SELECT * {}", "PREFIX : <> ASK {}", "ask{}", "select*{}", "describe*", "construct{}{}", "Select * Where {}",
            "clear all", "insert data {}", "SELECT * {} LIMIT 0", "SELECT", "ASK {", "ASK { ?s ?p \"", "ASK {} LIMIT 99999999999999999999", "\r\nASK\r\n{}\r\n", "#\u{e9}\nASK {}", "ASK { ?s ?p 'x'@en }", "ASK { ?s ?p 1e400 }",
        ] {
            v.push((e, s.to_string()));
        }
    }
    v
}
/// the texts a process is asked for after its first one
fn after_texts(g: &mut Rng) -> Vec<(Entry, String)> {
    let mut v = first_texts();
    v.retain(|x| x.1.len() > 2);
    for b in ["BASE <>", "BASE <b>", "PREFIX : <>", "PREFIX x: <u>", "base<>prefix x:<>", " ", "\r\n", "#c\n", "\t"] {
        for q in ["ASK {}", "ASK { ?s ?p ?o }", "SELECT * {}", "SELECT DISTINCT ?x WHERE {}", "DESCRIBE *", "DESCRIBE <u>", "CONSTRUCT {} {}", "CONSTRUCT WHERE { ?s ?p 1 }", "ASK { VALUES ?v { 1 } }"] {
            v.push((Entry::Stmt, format!("{} {}", b, q)));
        }
        for q in ["CLEAR ALL", "LOAD <u>", "INSERT DATA {}", "DELETE WHERE {}", "DELETE {} WHERE {}", ""] {
            v.push((Entry::Update, format!("{} {}", b, q)));
        }
    }
    for x in crate::deep::nested_texts(3) {
        v.push((x.0, x.1));
    }
    for i in 0..200 {
        let e = ENTRIES[i % ENTRIES.len()];
        let mut c = general(g);
        c.budget = 30;
        let (mut toks, _) = make(g, c, e);
        if i % 3 == 2 {
            mutate::tokens(g, &mut toks);
        }
        v.push((e, text_of(g, &toks, e)));
    }
    for i in 1..v.len() {
        v.swap(i, g.below(i + 1));
    }
    v
}
/// a process whose first parse is that of the i-th text
pub fn first_child(i: usize, seed: u64) {
    crate::exec::install_hook();
    let h = std::thread::Builder::new().stack_size(1 << 28).spawn(move || {
        let ts = first_texts();
        let (e, s) = &ts[i % ts.len()];
        drop(bare(*e, s));
        let mut g = Rng::new(crate::rng::mix(seed, i as u64));
        let mut n = 0;
        for (e, s) in after_texts(&mut g) {
            n += 1;
            if let Some(what) = crate::run::mismatch(e, &s, true) {
                println!("{}\n{}\n--- text ---\n{}", crate::exec::entry_name(e), what.replace('\n', " "), s);
                return;
            }
        }
        println!("as ever {}", n);
    });
    h.unwrap().join().unwrap();
}
/// nothing that is set up once may depend on the text that happens to come first
fn first_text(r: &mut Run) {
    if std::env::var_os("VERIF_SAN").is_some() {
        return;
    }
    let n = first_texts().len() as u64;
    let per = if r.thorough { 10 } else { 1 };
    let seed = r.seed;
    r.par(&format!("processes that begin with each of {} texts", n), n * per, |i, _, st| {
        let ts = first_texts();
        let (e, s) = &ts[(i % n) as usize];
        let o = std::process::Command::new(std::env::current_exe().unwrap()).args(["first", &i.to_string(), &seed.to_string()]).output();
        let o = match o {
            Ok(o) => o,
            Err(_) => {
                st.count("processes that could not be started");
                return None;
            }
        };
        let out = String::from_utf8_lossy(&o.stdout).to_string();
        if let Some(k) = out.strip_prefix("as ever ") {
            st.case(*e, s);
            st.evals += 1;
            st.add("texts parsed after the first one of a process", k.trim().parse().unwrap_or(0));
            return None;
        }
        match out.split_once("\n--- text ---\n") {
            Some((head, text)) => {
                let (en, what) = head.split_once('\n').unwrap_or(("stmt", head));
                let text = text.strip_suffix('\n').unwrap_or(text);
                v(crate::exec::entry_by_name(en).unwrap_or(Entry::Stmt), text, format!("in a process that began with {:?} ({}): {}", s, crate::exec::entry_name(*e), what), String::new())
            }
            // killed from outside: no verdict
            None if o.status.code().is_none() && !o.status.success() && crate::signal(&o.status) == Some(9) => {
                st.count("processes that were killed");
                None
            }
            None => v(*e, s, format!("a process that began with this text ended: {}", o.status), out),
        }
    });
}

/// the same deeply nested text on all threads at the same time
fn concurrent_nested(r: &mut Run) {
    let san = std::env::var_os("VERIF_SAN").is_some();
    let n = r.threads as u64;
    let deep = crate::deep::nested_texts(if san { 12 } else { 128 });
    let mut wants: Vec<Out> = vec![Out::Incomplete; deep.len()];
    for (w, x) in wants.iter_mut().zip(&deep) {
        std::thread::scope(|sc| {
            std::thread::Builder::new().stack_size(1 << 28).spawn_scoped(sc, move || *w = run(x.0, &x.1)).unwrap();
        });
    }
    let secs = if r.thorough { 1.0 } else { 0.015 };
    let bar = std::sync::Barrier::new(r.threads);
    let (b, d, w) = (&bar, &deep, &wants);
    // every worker takes exactly one case: they meet at each text
    r.par(&format!("{} deeply nested texts on all threads at once", d.len()), n, |_, _, st| {
        let mut bad = None;
        for (j, (e, s)) in d.iter().enumerate() {
            b.wait();
            let t = std::time::Instant::now();
            let mut k = 0;
            while bad.is_none() && (k < 2 || (!san && t.elapsed().as_secs_f64() < secs)) {
                k += 1;
                st.evals += 1;
                st.count("nested parses beside other threads");
                let o = run(*e, s);
                if o != w[j] {
                    bad = v(*e, s, "another result while other threads parse the same nested text".into(), format!("alone: {}; then: {}", outline(&w[j]), outline(&o)));
                }
            }
        }
        bad
    });
}

fn concurrent(r: &mut Run, cap: std::time::Duration) {
    // many threads parse the same texts at the same time, in different orders
    // the race detector is slow, and needs no results repeated
    let san = std::env::var_os("VERIF_SAN").is_some();
    let rounds = if san { if r.thorough { 20 } else { 3 } } else { r.n(12, 200) };
    let size = if san { 250 } else { 1500 };
    let mut seed = Rng::new(crate::rng::mix(r.seed, 0xC21));
    for _ in 0..rounds {
        if r.viol.is_some() || r.t0.elapsed() > cap {
            break;
        }
        let batch: Vec<(Entry, String, Out)> = (0..size)
            .map(|_| {
                let e = any_entry(&mut seed);
                let c = general(&mut seed);
                let (mut toks, _) = make(&mut seed, c, e);
                if seed.one_in(3) {
                    mutate::tokens(&mut seed, &mut toks);
                }
                let s = text_of(&mut seed, &toks, e);
                (e, s, Out::Incomplete)
            })
            .collect();
        // the sequential results, from a fresh thread
        let mut batch = batch;
        std::thread::scope(|sc| {
            let b = &mut batch;
            std::thread::Builder::new().stack_size(1 << 28).spawn_scoped(sc, move || {
                for x in b.iter_mut() {
                    x.2 = run(x.0, &x.1);
                }
            }).unwrap();
        });
        let barrier = std::sync::Barrier::new(r.threads);
        let (b, bar) = (&batch, &barrier);
        let k = r.threads as u64;
        let nb = batch.len();
        r.par("same texts on all threads at once", k, |i, g, st| {
            bar.wait();
            // alternating directions: threads meet on the same texts
            for j in 0..nb {
                let j = if i % 2 == 0 { j } else { nb - 1 - j };
                let j = if g.one_in(8) { g.below(nb) } else { j };
                let (e, s, want) = &b[j];
                st.evals += 1;
                st.count("parses beside other threads");
                let o = run(*e, s);
                if o != *want {
                    return v(*e, s, "another result while other threads are parsing".into(), format!("alone: {}; then: {}", outline(want), outline(&o)));
                }
            }
            None
        });
    }
}

/// a text that is hard to tell from `s`: of the same length, made of the same characters,
/// with the same beginning and end, ...
fn sibling(g: &mut Rng, s: &str) -> String {
    let at: Vec<usize> = s.char_indices().filter(|(_, c)| c.is_ascii_alphanumeric()).map(|x| x.0).collect();
    let late = |g: &mut Rng, n: usize| if g.coin() { n - 1 - g.below(n.min(12)) } else { g.below(n) };
    if at.len() < 2 {
        return format!("{} ", s);
    }
    match g.below(8) {
        0 | 1 => {
            let i = at[late(g, at.len())];
            let c = *g.pick(&['0', '1', '2', 'a', 'e', 'x', 'Z', '9']);
            format!("{}{}{}", &s[..i], c, &s[i + 1..])
        }
        // two characters change places
        2 | 3 => {
            let i = at[late(g, at.len())];
            let j = at[g.below(at.len())];
            let mut b = s.as_bytes().to_vec();
            b.swap(i, j);
            String::from_utf8(b).unwrap()
        }
        4 => {
            let i = at[late(g, at.len())];
            let c = s.as_bytes()[i] as char;
            let c = if c.is_ascii_uppercase() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() };
            format!("{}{}{}", &s[..i], c, &s[i + 1..])
        }
        // two tokens of a kind change places
        5 => {
            let l = crate::lex::lex(s).toks;
            let i = g.below(l.len());
            let same: Vec<usize> = (0..l.len()).filter(|j| std::mem::discriminant(&l[*j].k) == std::mem::discriminant(&l[i].k)).collect();
            let j = *g.pick(&same);
            let (i, j) = (i.min(j), i.max(j));
            if i == j {
                return swap_one(g, s);
            }
            format!("{}{}{}{}{}", &s[..l[i].s], &s[l[j].s..l[j].e], &s[l[i].e..l[j].s], &s[l[i].s..l[i].e], &s[l[j].e..])
        }
        6 => {
            let mut t = s.to_string();
            t.pop();
            if g.coin() {
                t.push(*g.pick(&['}', ' ', 'x', '1', ')']));
            }
            t
        }
        _ => {
            let i = at[late(g, at.len())];
            format!("{}{}{}", &s[..i], g.pick(&["a", "1", " "]), &s[i..])
        }
    }
}

/// one letter or digit exchanged for another
fn swap_one(g: &mut Rng, s: &str) -> String {
    let at: Vec<usize> = s.char_indices().filter(|(_, c)| c.is_ascii_alphanumeric()).map(|x| x.0).collect();
    if at.is_empty() {
        return s.to_string();
    }
    let i = at[g.below(at.len())];
    let c = *g.pick(&['0', '1', '2', 'a', 'e', 'x', 'Z', '9']);
    format!("{}{}{}", &s[..i], c, &s[i + 1..])
}

/// statement, query and form entry points on one text without prologue and trailing VALUES
fn agreeing(st: &mut Stats, e: Entry, s: &str) -> Option<Viol> {
    let o = run(e, s);
    let wrap = |t: &T| n("stmt", vec![n("prologue", vec![]), t.clone(), opt(None)]);
    let full = |o: &Out, s: &str| match o {
        Out::Ok(n, _) => is_layout(&s[*n..]),
        _ => false,
    };
    // chains of entry points, each a wrapper of the one before
    let mut levels: Vec<(Entry, String)> = vec![(e, s.to_string())];
    match e {
        Entry::SubConstruct | Entry::SubTriples => {
            let c = format!("CONSTRUCT {}", s);
            levels.push((Entry::Construct, c.clone()));
            levels.push((Entry::Query, c.clone()));
            levels.push((Entry::Stmt, c));
        }
        Entry::Ask | Entry::Describe | Entry::Construct => {
            levels.push((Entry::Query, s.to_string()));
            levels.push((Entry::Stmt, s.to_string()));
        }
        _ => levels.push((Entry::Stmt, s.to_string())),
    }
    for (f, x) in &levels[1..] {
        let p = run(*f, x);
        match (full(&o, s), &o, &p) {
            (true, Out::Ok(_, t), Out::Ok(m, u)) => {
                let want = if *f == Entry::Stmt { wrap(t) } else { t.clone() };
                if *u != want || !is_layout(&x[*m..]) {
                    return v(*f, x, format!("{} and {} disagree", entry_name(e), entry_name(*f)), format!("{}: {}; {}: {}", entry_name(e), outline(&o), entry_name(*f), outline(&p)));
                }
                st.count("agreeing entry points, accepted");
            }
            (true, _, _) => {
                return v(*f, x, format!("{} accepts what {} does not", entry_name(e), entry_name(*f)), outline(&p));
            }
            // not accepted by the narrower entry point: the wider one may know a prologue, a
            // trailing VALUES, leading layout or another query form
            (false, _, Out::Ok(m, u)) if is_layout(&x[*m..]) => {
                let bare = match u {
                    T::N("stmt", k) => k[0] == n("prologue", vec![]) && k[2] == opt(None),
                    _ => true,
                };
                let same_form = matches!((e, u.clone()), (Entry::Query, _)) || form(u) == Some(e);
                if bare && same_form && crate::lex::skip_layout(s, 0) == 0 {
                    return v(*f, x, format!("{} accepts what {} does not", entry_name(*f), entry_name(e)), outline(&o));
                }
            }
            _ => st.count("agreeing entry points, not accepted"),
        }
    }
    None
}
fn form(t: &T) -> Option<Entry> {
    match t {
        T::N("stmt", k) => form(&k[1]),
        T::N("ask", _) => Some(Entry::Ask),
        T::N("describe", _) => Some(Entry::Describe),
        T::N("construct", _) | T::N("constructw", _) => Some(Entry::Construct),
        _ => None,
    }
}
