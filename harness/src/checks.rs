//! One function per property: which workloads are run and which monitors watch them.

use crate::exec::*;
use crate::gen::*;
use crate::lex::{is_layout, KEYWORDS};
use crate::mutate;
use crate::refp::{parse, Entry, Shape, Verdict, AGGREGATES, BUILTINS};
use crate::render::*;
use crate::rng::Rng;
use crate::run::*;
use crate::sweep::*;
use crate::tree::*;

pub const IDS: [&str; 21] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13",
    "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21",
];

pub fn run_check(r: &mut Run) {
    match r.id.as_str() {
        "C01" => c01(r),
        "C02" => c02(r),
        "C03" => c03(r),
        "C04" => c04(r),
        "C05" => c05(r),
        "C06" => c06(r),
        "C07" => c07(r),
        "C08" => c08(r),
        "C09" => c09(r),
        "C10" => c10(r),
        "C11" => c11(r),
        "C12" => c12(r),
        "C13" => c13(r),
        "C14" => c14(r),
        "C15" => c15(r),
        "C16" => c16(r),
        "C17" => c17(r),
        "C18" => crate::deep::c18(r),
        "C19" => crate::deep::c19(r),
        "C20" => crate::helpers::c20(r),
        "C21" => crate::context::c21(r),
        _ => unreachable!(),
    }
    if r.id == "C21" && std::env::var_os("VERIF_SAN").is_none() {
        let all = "GLSCEKTNPVMDOR";
        let m = if r.thorough { 10 } else { 1 };
        crate::compose::chains(r, "any construct in any", Entry::Stmt, &[("", 'R', "")], all, all, 5, m * 400_000);
        crate::compose::chains(r, "any construct in any update", Entry::Update, &[("", 'U', "")], "GLSCEKTNPVUQ", "GLSCEKTNPVUQ", 5, m * 200_000);
    }
    if let "C03" | "C07" | "C08" | "C09" | "C10" | "C11" | "C12" | "C13" | "C14" | "C15" = r.id.as_str() {
        crate::lists::long_lists(r);
        crate::lists::matrices(r);
        composed(r);
    }
    if let "C05" | "C16" | "C21" = r.id.as_str() {
        crate::aligned::aligned(r);
    }
    if let "C03" | "C05" | "C06" | "C07" | "C08" | "C09" | "C10" | "C11" | "C12" | "C13" | "C14" | "C15" = r.id.as_str() {
        crate::notable::corpus(r, false);
    }
}

/// constructs inside constructs, see compose.rs
fn composed(r: &mut Run) {
    use crate::compose::chains;
    use Entry::*;
    let m = |q: u64| if r.thorough { 10 * q } else { q };
    let (a, b) = (m(1_600_000), m(300_000));
    match r.id.as_str() {
        "C03" => chains(r, "any construct in any", Stmt, &[("", 'R', "")], "GLSCEKTNPVMDOR", "GLSCEKTNPVMDOR", 7, m(800_000)),
        "C07" => {
            chains(r, "triples", Stmt, &[("ASK {", 'T', "}"), ("CONSTRUCT {", 'T', "} { }"), ("CONSTRUCT WHERE {", 'T', "}")], "TN", "TN", 4, a);
            chains(r, "triples with paths, in groups", Stmt, &[("ASK {", 'L', "}")], "LGTNP", "TN", 7, b);
            chains(r, "quads", Update, &[("INSERT DATA {", 'Q', "}"), ("DELETE {", 'Q', "} WHERE { }")], "QTN", "TN", 5, b)
        }
        "C08" => {
            chains(r, "paths", Stmt, &[("ASK { ?s", 'P', "?o }"), ("ASK { ?s ?p ?o ;", 'P', "1 , ?x }")], "P", "P", 5, m(1_000_000));
            chains(r, "paths in triples in groups", Stmt, &[("ASK {", 'L', "}")], "LGTNP", "P", 8, b)
        }
        "C09" => {
            chains(r, "groups", Stmt, &[("ASK {", 'L', "}")], "LGS", "LGST", 5, a);
            chains(r, "groups with expressions", Stmt, &[("SELECT *", 'G', "")], "LGSCEK", "LG", 8, b);
            chains(r, "groups of updates", Update, &[("INSERT { } WHERE", 'G', "")], "LGSCT", "LGST", 6, b / 4)
        }
        "C10" => {
            chains(r, "expressions", Stmt, &[("ASK { FILTER (", 'E', ") }"), ("SELECT (", 'E', "AS ?v ) { }")], "EK", "EK", 4, a);
            chains(r, "expressions in modifiers and groups", Stmt, &[("", 'R', "")], "RMDOLGCEK", "EK", 9, b)
        }
        "C11" => {
            chains(r, "calls", Stmt, &[("ASK { FILTER", 'C', "}"), ("ASK { FILTER (", 'K', ") }")], "CKE", "CK", 5, a);
            chains(r, "calls in modifiers and groups", Stmt, &[("", 'R', "")], "RMDOLGCEK", "KCDO", 9, b)
        }
        "C12" => {
            chains(r, "statements", Stmt, &[("", 'R', "")], "RMSLGV", "RMSLGV", 5, a);
            chains(r, "statements and subselects", Stmt, &[("", 'R', "")], "RSLGTN", "RSLGTN", 8, b)
        }
        "C13" => {
            chains(r, "modifiers", Stmt, &[("", 'R', "")], "RMDOC", "MDOC", 5, a);
            chains(r, "modifiers of subselects", Stmt, &[("ASK {", 'L', "}")], "LGSMDOCEK", "MDO", 8, b)
        }
        "C14" => {
            chains(r, "data blocks", Stmt, &[("", 'R', "")], "RLGSCV", "V", 6, a);
            chains(r, "data blocks of updates", Update, &[("INSERT { } WHERE", 'G', "")], "LGSV", "V", 6, b / 4)
        }
        _ => {
            chains(r, "updates", Update, &[("", 'U', "")], "UQT", "UQT", 5, a);
            chains(r, "updates with groups", Update, &[("", 'U', "")], "UQTNLG", "QTNLG", 7, b)
        }
    }
}

// ---- workload building blocks

pub fn general(r: &mut Rng) -> Cfg {
    let mut c = Cfg::general();
    c.budget = *r.pick(&[8, 15, 30, 60, 120, 250]);
    c.names = *r.pick(&[0, 10, 60]);
    c.strings = *r.pick(&[0, 10, 60]);
    c.numbers = *r.pick(&[0, 20, 80]);
    if r.one_in(40) {
        c.long = 15;
        c.maxlist = *r.pick(&[20, 40, 80, 140]);
        c.budget = 400;
    }
    c
}
pub fn any_entry(r: &mut Rng) -> Entry {
    match r.below(10) {
        0..=3 => Entry::Stmt,
        4..=5 => Entry::Update,
        _ => *r.pick(&ENTRIES),
    }
}
pub fn make(r: &mut Rng, c: Cfg, e: Entry) -> (Vec<Tok>, T) {
    let mut g = Gen::new(r, c);
    let t = g.entry(e);
    (g.t, t)
}
pub fn text_of(r: &mut Rng, toks: &[Tok], e: Entry) -> String {
    let lay = *r.pick(&[Lay::Min, Lay::Space, Lay::Space, Lay::Mix, Lay::Mix, Lay::Heavy]);
    let case = *r.pick(&CASES);
    let mut s = render(r, toks, lay, case, leads(e));
    let t = tail(r, lay, toks.last());
    s.push_str(&t);
    s
}
/// the plain layout only: for checks whose property says nothing about layout or casing
pub fn calm_text(r: &mut Rng, toks: &[Tok], e: Entry) -> String {
    let lay = *r.pick(&[Lay::Min, Lay::Space, Lay::Space, Lay::Mix]);
    let case = *r.pick(&CASES);
    let mut s = render(r, toks, lay, case, leads(e));
    if r.one_in(4) {
        let t = tail(r, lay, toks.last());
        s.push_str(&t);
    }
    s
}

/// generated sentences, read back
fn sentences(
    r: &mut Run,
    name: &str,
    n: u64,
    cfg: impl Fn(&mut Rng) -> Cfg + Sync,
    entry: impl Fn(&mut Rng) -> Entry + Sync,
) {
    r.par(&format!("generated sentences: {}", name), n, |_, g, st| {
        let e = entry(g);
        let c = cfg(g);
        let (toks, t) = make(g, c, e);
        let s = calm_text(g, &toks, e);
        let v = expect(st, e, &s, &t);
        if v.is_some() || !g.one_in(5) {
            return v;
        }
        // the same with values that recur
        let mut toks = toks;
        crate::notable::coincide(g, &mut toks);
        let s = calm_text(g, &toks, e);
        agree(st, e, &s, false)
    });
}
/// near misses of generated sentences; judged both ways if `rej`
fn near(
    r: &mut Run,
    name: &str,
    n: u64,
    cfg: impl Fn(&mut Rng) -> Cfg + Sync,
    entry: impl Fn(&mut Rng) -> Entry + Sync,
    rej: bool,
) {
    r.par(&format!("near misses: {}", name), n, |_, g, st| {
        let e = entry(g);
        let c = cfg(g);
        let (mut toks, _) = make(g, c, e);
        let s = if g.below(10) < 7 {
            mutate::tokens(g, &mut toks);
            calm_text(g, &toks, e)
        } else {
            let s = calm_text(g, &toks, e);
            mutate::text(g, &s)
        };
        agree(st, e, &s, rej)
    });
}
fn stmt(_: &mut Rng) -> Entry {
    Entry::Stmt
}
fn stmt_or_update(r: &mut Rng) -> Entry {
    if r.one_in(4) {
        Entry::Update
    } else {
        Entry::Stmt
    }
}
/// half dense and small, half in a general surrounding
fn focus(r: &mut Rng, f: impl Fn(&mut Rng, &mut Cfg)) -> Cfg {
    let mut c = if r.coin() {
        let mut c = Cfg::plain();
        c.budget = *r.pick(&[20, 40, 80]);
        c
    } else {
        let mut c = Cfg::general();
        c.budget = *r.pick(&[30, 60, 120]);
        c.names = 3;
        c.strings = 3;
        c.numbers = 3;
        c
    };
    if r.one_in(25) {
        c.long = 20;
        c.maxlist = *r.pick(&[10, 20, 40, 80, 150]);
        c.budget = 400;
    }
    f(r, &mut c);
    c
}

// ---- C01

fn hostile(g: &mut Rng) -> (Entry, String) {
    let e = any_entry(g);
    if g.one_in(3) {
        return (e, mutate::soup(g));
    }
    let mut c = general(g);
    c.budget = c.budget.min(60);
    let (mut toks, _) = make(g, c, e);
    if g.coin() {
        mutate::tokens(g, &mut toks);
    }
    let mut s = text_of(g, &toks, e);
    if g.coin() {
        s = mutate::text(g, &s);
    }
    (e, s)
}
/// outcomes no input may have
fn ill(st: &mut Stats, e: Entry, s: &str, o: &Out) -> Option<Viol> {
    st.evals += 1;
    st.case(e, s);
    let bad = |o: &Out| matches!(o, Out::Panic(_) | Out::Incomplete);
    match o {
        Out::Ok(_, t) => {
            st.count("returned a tree");
            st.tree(t);
        }
        Out::Err(..) => st.count("returned an error"),
        _ => {}
    }
    if !bad(o) {
        return None;
    }
    let small = shrink(s, &mut |x| bad(&run(e, x)));
    let o = run(e, &small);
    Some(Viol {
        what: match &o {
            Out::Incomplete => "asked for more input".into(),
            Out::Panic(m) => format!("panicked: {}", m),
            _ => "panicked or asked for more input".into(),
        },
        entry: e,
        text: small,
        detail: outline(&o),
    })
}
fn total_on(st: &mut Stats, e: Entry, s: &str) -> Option<Viol> {
    let (o, steps) = run_steps(e, s);
    st.max("steps", steps);
    ill(st, e, s, &o)
}

const NUMBER_PLACES: &[(&str, &str)] = &[
    ("ASK { ?s ?p ", " }"), ("ASK { ?s ?p (1 ", ") }"), ("ASK { FILTER(1 + ", ") }"), ("ASK { FILTER(?x ", ") }"), ("ASK { VALUES ?x { ", " } }"),
    ("SELECT (", " AS ?v) {}"), ("ASK {} LIMIT ", ""), ("ASK {} OFFSET ", " LIMIT 1"), ("CONSTRUCT { ?s ?p ", " } {}"), ("ASK {} ORDER BY ASC(-", ")"),
];
/// integers, decimals and exponents at, next to and beyond the limits of machine numbers
fn extreme_numbers() -> &'static [String] {
    static ALL: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    ALL.get_or_init(|| {
        let mut limits: Vec<String> = [0u128, 1, 9, 10, 15, 16, 17, 21, 22, 23, 99, 100, 307, 308, 309, 310, 322, 323, 324, 325, 326, 1073, 1074, 1075]
            .iter()
            .map(|x| x.to_string())
            .collect();
        for b in [7, 8, 10, 15, 16, 31, 32, 53, 62, 63, 64, 127] {
            for d in 0..3 {
                limits.push(((1u128 << b) + d - 1).to_string())
            }
        }
        for z in [19, 20, 21, 38, 39, 40] {
            limits.push(format!("1{}", "0".repeat(z)));
        }
        let mut out = vec![];
        for v in &limits {
            for sign in ["", "+", "-"] {
                for zeros in ["", "0", "00000000000000000000000"] {
                    let x = format!("{}{}{}", sign, zeros, v);
                    for m in ["0", "1", "9", "00", ".5", "1.", "1.5", "-0.0", "+123456789012345678901234567890", "-4.9", ".0000000000000000000000000000000000000001"] {
                        out.push(format!("{}e{}", m, x));
                    }
                    out.push(format!("-1.7976931348623157E{}", x));
                    out.push(x.clone());
                    out.push(format!("{}.", x));
                    out.push(format!("{}.5", x));
                    out.push(format!("{}.{}e-{}", x, v, v));
                    out.push(format!("{}.{}", sign, v));
                    out.push(format!("{}0.{}{}", sign, zeros, v));
                }
            }
        }
        out
    })
}

fn c01(r: &mut Run) {
    r.rule = "every text is given to parsing entry points; a case is a distinct (entry, text); each must return a tree or an error without panic, overflow, Incomplete, step limit or death of the process".into();
    r.par("every keyword and symbol as a whole text, in pairs and triples", {
        let k = mutate::vocabulary().len() as u64;
        k + k * k
    }, |i, g, st| {
        let v = mutate::vocabulary();
        let k = v.len() as u64;
        let mut t = vec![];
        if i < k {
            t.push(v[i as usize].clone())
        } else {
            t.push(v[((i - k) / k) as usize].clone());
            t.push(v[((i - k) % k) as usize].clone());
            if g.coin() {
                t.push(g.pick(&v).clone());
            }
        }
        let s = render(g, &t, Lay::Min, Case::Random, false);
        for e in ENTRIES {
            if let Some(v) = total_on(st, e, &s) {
                return Some(v);
            }
        }
        None
    });
    r.par("hostile texts, all entries", r.n(500_000, 8_000_000), |_, g, st| {
        let (e, s) = hostile(g);
        if let Some(v) = total_on(st, e, &s) {
            return Some(v);
        }
        if g.one_in(3) {
            for e in ENTRIES {
                if let Some(v) = total_on(st, e, &s) {
                    return Some(v);
                }
            }
        }
        None
    });
    // the text may stop anywhere
    r.par("every prefix of generated texts", r.n(6000, 100_000), |_, g, st| {
        let e = any_entry(g);
        let mut c = general(g);
        c.budget = *g.pick(&[8, 15, 30]);
        let (toks, _) = make(g, c, e);
        let s = text_of(g, &toks, e);
        if s.len() > 1500 {
            return None;
        }
        for (i, _) in s.char_indices() {
            if let Some(v) = total_on(st, e, &s[..i]) {
                return Some(v);
            }
        }
        None
    });
    r.par("every prefix of nested templates, and with a character put in", r.n(15_000, 200_000), |_, g, st| {
        let (e, t, _) = match crate::compose::random(g, 4) {
            Some(x) => x,
            None => return None,
        };
        let lay = *g.pick(&[Lay::Min, Lay::Space, Lay::Mix]);
        let s = render(g, &t, lay, Case::Random, false);
        for (i, _) in s.char_indices() {
            if let Some(v) = total_on(st, e, &s[..i]) {
                return Some(v);
            }
            let x = format!("{}{}{}", &s[..i], g.pick(EDIT_CHARS), &s[i..]);
            if let Some(v) = total_on(st, e, &x) {
                return Some(v);
            }
        }
        None
    });
    r.par("every suffix and every single-character edit of short texts", r.n(1500, 12_000), |_, g, st| {
        let e = any_entry(g);
        let mut c = general(g);
        c.budget = 8;
        let (toks, _) = make(g, c, e);
        let s = text_of(g, &toks, e);
        if s.len() > 200 {
            return None;
        }
        let ix: Vec<usize> = s.char_indices().map(|x| x.0).collect();
        for i in &ix {
            if let Some(v) = total_on(st, e, &s[*i..]) {
                return Some(v);
            }
            for c in ['é', '日', '\u{1F600}', '\u{0}', '\\', '"', '.', '-', '9', '(', '[', '{', '<', '?', '#', ':', '_', '%', '@', '^'] {
                let mut x = String::with_capacity(s.len() + 4);
                x.push_str(&s[..*i]);
                x.push(c);
                x.push_str(&s[*i..]);
                if let Some(v) = total_on(st, e, &x) {
                    return Some(v);
                }
            }
        }
        None
    });
    // numbers at and beyond every width
    r.par("digit runs and exponents of every length", r.n(700, 700), |i, g, st| {
        let n = i as usize + 1;
        let d: String = (0..n).map(|_| (b'0' + g.below(10) as u8) as char).collect();
        let nines = "9".repeat(n);
        for x in [&d, &nines] {
            for num in [
                format!("{}", x), format!("-{}", x), format!("+{}", x), format!("{}.", x), format!(".{}", x),
                format!("{}.{}", x, x), format!("1e{}", x), format!("1e-{}", x), format!("{}e{}", x, x),
                format!("-{}.{}E+{}", x, x, x),
            ] {
                for (a, b) in [("ASK { ?s ?p ", " }"), ("ASK { ?s ?p ?o } LIMIT ", ""), ("ASK { FILTER(1+", ") }"),
                    ("ASK { } OFFSET ", " LIMIT 1"), ("ASK { VALUES ?x { ", " } }"), ("ASK { ?s <u>*", " ?o }")]
                {
                    let s = format!("{}{}{}", a, num, b);
                    if let Some(v) = total_on(st, Entry::Stmt, &s) {
                        return Some(v);
                    }
                }
            }
        }
        None
    });
    r.par("every way of nesting, beyond 128 levels, on a large stack", crate::deep::beyond_total(), |i, g, st| {
        let (e, ts) = crate::deep::beyond(i, g.below(1000))?;
        ts.iter().find_map(|s| total_on(st, e, s))
    });
    let k = extreme_numbers().len();
    r.par("numbers at the limits of every width, in every place", (k * NUMBER_PLACES.len()) as u64, |i, _, st| {
        let (a, b) = NUMBER_PLACES[i as usize / k];
        total_on(st, Entry::Stmt, &format!("{}{}{}", a, extreme_numbers()[i as usize % k], b))
    });
    r.par("large texts", r.n(60, 600), |i, g, st| {
        let n = *g.pick(&[1000usize, 10_000, 60_000]);
        let fill = g.pick(&["a", " ", "é", "日", "\\\\", "#\n", "9", "?v ", "(1)", ". ", ";", "||", "<u>", "_", "\u{0}", "%41", "\\-"]).repeat(n);
        let (a, b) = *g.pick(&[
            ("", ""), ("ASK { ?s ?p \"", "\" }"), ("ASK { ?s ?p '''", "''' }"), ("ASK { ?s ?p <", "> }"),
            ("ASK { ?", " ?p ?o }"), ("ASK { x:", " ?p ?o }"), ("ASK { _:", " ?p ?o }"), ("ASK { ?s ?p \"\"@a", " }"),
            ("PREFIX ", ": <> ASK {}"), ("ASK #", "\n{}"), ("ASK{", "}"), ("SELECT ", " {}"), ("ASK { FILTER(", ") }"),
            ("ASK { ?s ?p (", ") }"), ("INSERT DATA {", "}"), ("ASK { VALUES () {", "} }"),
        ]);
        let s = format!("{}{}{}", a, fill, if i % 3 == 0 { "" } else { b });
        for e in [Entry::Stmt, Entry::Query, Entry::Update] {
            if let Some(v) = total_on(st, e, &s) {
                return Some(v);
            }
        }
        None
    });
    let top = if r.thorough { 600 } else { 100 };
    long_tokens(r, top, true);
    let sizes = [1usize, 2, 3, 10, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2049, 4097, 10_001, 32_769, 65_537];
    let k = crate::lists::count() as u64;
    r.par(&format!("{} kinds of long list", k), k * sizes.len() as u64, |i, g, st| {
        let (l, n) = ((i % k) as usize, sizes[sizes.len() - 1 - (i / k) as usize]);
        let e = crate::lists::entry(l);
        if n > crate::lists::most(l) {
            return None;
        }
        let mut s = crate::lists::nth(l, n);
        st.max("items in a list", n as u64);
        if let Some(v) = total_on(st, e, &s) {
            return Some(v);
        }
        let j = (0..=g.below(s.len() + 1)).rev().find(|j| s.is_char_boundary(*j)).unwrap();
        s.truncate(j);
        total_on(st, e, &s)
    });
    r.par("string arguments", r.n(60_000, 600_000), |_, g, st| {
        let mut s = if g.coin() { mutate::soup(g) } else { String::new() };
        {
            let mut c = Cfg::plain();
            c.strings = 70;
            let mut q = Gen::new(g, c);
            q.literal();
            let t = std::mem::take(&mut q.t);
            s.insert_str(0, &render(g, &t, Lay::Mix, Case::Random, false));
        }
        if g.coin() {
            s = mutate::text(g, &s);
        }
        st.evals += 1;
        match guarded(|| match nom_sparql::verif_hooks::string_literal_arg(&s) {
            Err(nom::Err::Incomplete(_)) => true,
            _ => false,
        }) {
            Ok(false) => None,
            Ok(true) => Some(Viol { what: "string_literal_arg asked for more input".into(), entry: Entry::Stmt, text: s, detail: String::new() }),
            Err(m) => Some(Viol { what: format!("string_literal_arg panicked: {}", m), entry: Entry::Stmt, text: s, detail: String::new() }),
        }
    });
}

// ---- C02

const JUNK: &[&str] = &[
    "}", ")", "]", ">", "|", "||", "&&", "^", ",", "!", "=", "\\", "%", "~", "`", "\u{1}", "é",
    "\u{feff}", "SELECT * {}", "ASK {}", "DESCRIBE <u>", "INSERT DATA {}", "WHERE {}", "} }", "*",
    "}# c\n", "\"s\"", "'''", "UNION {}", "FILTER(1)", "]]", "/", "-", "PREFIX x: <u>", "{",
    "\0", "\u{b}", "\u{c}", "\u{85}", "\u{a0}", "\u{2028}", "\u{2029}", "\u{3000}", "\u{200b}", "\u{1a}", "\u{4}", "\u{7f}", "\u{1b}",
    "\u{200e}", "\u{fe0f}", "\u{ad}", "\0\0", "\u{1a}\n", "\u{c}\n", "\u{feff}\n", "$", "?", "@", "@en", "_", "_:", "&", "$0", ";;", ".", ";", ":",
];
fn c02(r: &mut Run) {
    r.rule = "a case is a distinct text on which an entry point returned; monitored: identity of remainder and error positions with the caller's buffer, re-parse of the consumed part, repeatability, effect of appended text".into();
    r.par("mutated and hostile texts", r.n(220_000, 4_000_000), |_, g, st| {
        let (e, s) = hostile(g);
        honest(st, e, &s)
    });
    r.par("text after a complete query or update", r.n(90_000, 1_500_000), |_, g, st| {
        let e = any_entry(g);
        let mut c = general(g);
        c.budget = c.budget.min(60);
        let (toks, t) = make(g, c, e);
        let s = calm_text(g, &toks, e);
        if run(e, &s) != Out::Ok(s.len(), t.clone()) {
            let o = run(e, &s);
            match o {
                Out::Ok(n, ref x) if *x == t && is_layout(&s[n..]) => {}
                _ => {
                    st.count("base text not accepted (not judged here)");
                    return None;
                }
            }
        }
        for n in 0..5 {
            let j = match n {
                0 | 1 => g.pick(JUNK).to_string(),
                // the tail of another text
                4 => {
                    let e = any_entry(g);
                    let mut c = general(g);
                    c.budget = c.budget.min(12);
                    let (toks, _) = make(g, c, e);
                    if toks.is_empty() {
                        continue;
                    }
                    let k = g.below(toks.len());
                    // on one line: the text may end in a comment
                    render(g, &toks[k..], Lay::Space, Case::Random, false).replace(|c| c == '\n' || c == '\r', " ")
                }
                // a token, a few tokens, or the beginning of something that could continue the text
                2 => {
                    let v = mutate::any_token(g);
                    let mut j = v.s;
                    for _ in 0..g.below(3) {
                        j.push(' ');
                        j.push_str(&mutate::any_token(g).s);
                    }
                    j
                }
                _ => {
                    let mut j = g.pick(KEYWORDS).to_string();
                    if g.coin() {
                        j.push(' ');
                        j.push_str(g.pick(&["?", "here", "(", "{", "<u", "x:", "\"s", "1", "NAMED", "BY", "GRAPH", "( 1", "?v", "() {"]));
                    }
                    j
                }
            };
            if let Some(v) = appended(st, e, &s, &t, *g.pick(&[" ", "\n", "  ", "\t", " # c\n", "\r\n"]), &j) {
                return Some(v);
            }
        }
        None
    });
    r.par("text after nested templates, and every prefix of them", r.n(60_000, 300_000), |_, g, st| {
        let (e, toks, t) = match crate::compose::random(g, 4) {
            Some(x) => x,
            None => return None,
        };
        let lay = *g.pick(&[Lay::Min, Lay::Space, Lay::Mix]);
        let s = render(g, &toks, lay, Case::Random, false);
        for i in 0..toks.len() {
            let p = render(g, &toks[..i], lay, Case::Random, false);
            if let Some(v) = honest(st, e, &p) {
                return Some(v);
            }
        }
        if !matches!(run(e, &s), Out::Ok(n, ref x) if *x == t && is_layout(&s[n..])) {
            st.count("base text not accepted (not judged here)");
            return None;
        }
        for n in 0..6 {
            let j = if n % 2 == 0 { g.pick(JUNK).to_string() } else { mutate::any_token(g).s };
            if let Some(v) = appended(st, e, &s, &t, *g.pick(&[" ", "\n", " # c\n"]), &j) {
                return Some(v);
            }
        }
        None
    });
    let corpus = small_corpus();
    r.par(&format!("{} small sentences, each followed by {} characters and {} pieces of text", corpus.len(), EDIT_CHARS.len(), JUNK.len()), corpus.len() as u64 * 2, |i, g, st| {
        let (e, toks, t) = &corpus[i as usize / 2];
        let s = render(g, toks, if i % 2 == 0 { Lay::Min } else { Lay::Space }, Case::Random, false);
        let s = s.trim_end();
        if !matches!(run(*e, s), Out::Ok(n, ref x) if x == t && is_layout(&s[n..])) {
            st.count("base text not accepted (not judged here)");
            return None;
        }
        let last = crate::lex::lex(s).toks.last().map_or(0, |k| k.e);
        let chars = EDIT_CHARS.iter().map(|c| c.to_string()).filter(|c| !is_layout(c));
        chars.chain(JUNK.iter().map(|j| j.to_string())).find_map(|j| {
            for glue in ["", " ", "#\n"] {
                // what follows may not become one token with the last one
                let x = format!("{}{}{}", s, glue, j);
                if crate::lex::lex(&x).toks.iter().any(|k| k.e == last) {
                    if let Some(v) = appended(st, *e, s, t, glue, &j) {
                        return Some(v);
                    }
                }
            }
            None
        })
    });
    // whole clauses, and whole sentences, after the end: every tail of every sentence
    let mut tails: Vec<String> = vec![];
    for (_, toks, _) in &corpus {
        for k in 0..toks.len() {
            let x = toks[k..].iter().map(|x| x.s.as_str()).collect::<Vec<_>>().join(" ");
            tails.push(x);
        }
    }
    tails.sort();
    tails.dedup();
    r.par(&format!("{} small sentences, each followed by {} tails of others", corpus.len(), tails.len()), corpus.len() as u64 * 4, |i, g, st| {
        let (e, toks, t) = &corpus[i as usize / 4];
        let s = render(g, toks, if i % 4 < 2 { Lay::Min } else { Lay::Space }, Case::Random, false);
        let s = s.trim_end();
        if !matches!(run(*e, s), Out::Ok(n, ref x) if x == t && is_layout(&s[n..])) {
            st.count("base text not accepted (not judged here)");
            return None;
        }
        tails.iter().enumerate().find_map(|(n, j)| {
            if n as u64 % 2 != i % 2 {
                return None;
            }
            // whole, and broken off after some token
            let w: Vec<&str> = j.split(' ').collect();
            let part = w[..1 + g.below(w.len())].join(" ");
            for j in [j, &part] {
                if let Some(v) = appended(st, *e, s, t, *g.pick(&[" ", "\n", "\t# c\n"]), j) {
                    return Some(v);
                }
            }
            None
        })
    });
    let mut starts: Vec<&str> = KEYWORDS.to_vec();
    starts.extend(mutate::PUNCT);
    starts.extend(["<u>", "x:y", "x:", "?v", "\"s\"", "1", "-1", "()", "[]", "_:b", "a", "@en", "GROUP BY", "ORDER BY", "FROM NAMED", "VALUES ?v {", "VALUES (", "LIMIT ?v", "OFFSET -1", "HAVING (", "ORDER BY ASC", "GROUP BY (", "GROUP BY ( 1 AS", "; INSERT", "; DELETE DATA {", "; LOAD", "; PREFIX x:", "INTO GRAPH", "TO GRAPH", "USING NAMED", "WHERE {", "SELECT * {", "AS ?v )", "IN (", "NOT IN", "UNION {", "SILENT <u>"]);
    let bases: &[(Entry, &str)] = &[
        (Entry::Stmt, "ASK { }"), (Entry::Stmt, "SELECT * { }"), (Entry::Stmt, "SELECT * WHERE { ?s ?p ?o }"), (Entry::Stmt, "SELECT ?v FROM <u> { } LIMIT 1"), (Entry::Stmt, "SELECT ?v { } OFFSET 1"), (Entry::Stmt, "ASK { } GROUP BY ?x"),
        (Entry::Stmt, "ASK { } HAVING ( 1 )"), (Entry::Stmt, "ASK { } ORDER BY ?x"), (Entry::Stmt, "ASK { } ORDER BY ASC ( 1 )"), (Entry::Stmt, "ASK { } VALUES ?v { }"), (Entry::Stmt, "DESCRIBE *"), (Entry::Stmt, "DESCRIBE <u>"),
        (Entry::Stmt, "DESCRIBE ?v FROM <u>"), (Entry::Stmt, "DESCRIBE x: FROM NAMED x:y WHERE { }"), (Entry::Stmt, "CONSTRUCT { } { }"), (Entry::Stmt, "CONSTRUCT WHERE { }"), (Entry::Stmt, "CONSTRUCT { ?s ?p ?o } WHERE { } LIMIT 1 OFFSET 2"),
        (Entry::Stmt, "ASK { } GROUP BY COUNT ( ?x )"), (Entry::Stmt, "ASK { } GROUP BY <f> ( )"), (Entry::Stmt, "BASE <b> ASK { } OFFSET 1 LIMIT 2"), (Entry::Query, "ASK { }"), (Entry::Query, "SELECT * { }"), (Entry::Ask, "ASK { }"), (Entry::Describe, "DESCRIBE <u>"),
        (Entry::Construct, "CONSTRUCT WHERE { }"), (Entry::SubConstruct, "{ } { }"), (Entry::SubTriples, "WHERE { }"),
        (Entry::Update, ""), (Entry::Update, "BASE <b>"), (Entry::Update, "LOAD <u>"), (Entry::Update, "LOAD SILENT <u> INTO GRAPH <v>"), (Entry::Update, "CLEAR ALL"), (Entry::Update, "DROP GRAPH <u>"), (Entry::Update, "CREATE GRAPH <u> ;"), (Entry::Update, "ADD <u> TO DEFAULT"),
        (Entry::Update, "COPY DEFAULT TO <u>"), (Entry::Update, "INSERT DATA { }"), (Entry::Update, "DELETE WHERE { }"), (Entry::Update, "DELETE { } WHERE { }"), (Entry::Update, "INSERT { } USING <u> WHERE { }"), (Entry::Update, "CLEAR ALL ; DROP ALL"),
    ];
    r.par(&format!("{} complete texts x {} continuations that stop short", bases.len(), starts.len()), (bases.len() * starts.len()) as u64, |i, g, st| {
        let (e, s) = bases[i as usize / starts.len()];
        let j = starts[i as usize % starts.len()];
        let t = match parse(e, s) {
            Verdict::Accept(t) => t,
            v => panic!("{} is no sentence: {:?}", s, v),
        };
        if !matches!(run(e, s), Out::Ok(n, ref x) if *x == t && is_layout(&s[n..])) {
            st.count("base text not accepted (not judged here)");
            return None;
        }
        for j in [j.to_string(), recase(g, j, Case::Lower)] {
            for glue in [" ", "\n", " # c\r"] {
                if let Some(v) = appended(st, e, s, &t, glue, &j) {
                    return Some(v);
                }
            }
        }
        None
    });
    // offsets beyond every width
    let k = crate::lists::count() as u64;
    let sizes: &[usize] = &[1, 5, 40, 127, 256, 257, 1025, 10_001];
    r.par(&format!("{} kinds of long text with something after the end", k), k * sizes.len() as u64, |i, g, st| {
        let l = (i % k) as usize;
        let m = sizes[sizes.len() - 1 - (i / k) as usize];
        if m > crate::lists::most(l) {
            return None;
        }
        let e = crate::lists::entry(l);
        let s = crate::lists::nth(l, m);
        for j in 0..4 {
            let x = match j {
                0 => s.clone(),
                1 => format!("{}\n{}", s, g.pick(JUNK)),
                2 => format!("{}\n# {}\n{}", s, "x".repeat(g.below(70_000)), g.pick(JUNK)),
                _ => {
                    let mut n = g.below(s.len());
                    while !s.is_char_boundary(n) {
                        n -= 1;
                    }
                    s[..n].to_string()
                }
            };
            if let Some(v) = honest(st, e, &x) {
                return Some(v);
            }
        }
        None
    });
    r.par("every truncation", r.n(1500, 30_000), |_, g, st| {
        let e = any_entry(g);
        let mut c = general(g);
        c.budget = *g.pick(&[8, 15, 30]);
        let (toks, _) = make(g, c, e);
        let s = text_of(g, &toks, e);
        if s.len() > 1000 {
            return None;
        }
        for (i, _) in s.char_indices() {
            if let Some(v) = honest(st, e, &s[..i]) {
                return Some(v);
            }
        }
        None
    });
    sweep(r, Sweep {
        name: "frames",
        entry: Entry::Stmt,
        frames: &[("", ""), ("SELECT", ""), ("ASK", "")],
        alphabet: &["SELECT", "*", "?v", "WHERE", "{ }", "VALUES", "?v { }", "LIMIT", "1", "GROUP BY", "( ?x )", "<u>", "."],
        lo: 1,
        hi: if r.thorough { 5 } else { 4 },
        rej: false,
    });
}
/// `s` is complete, with tree `t`; what does `j` after it do
fn appended(st: &mut Stats, e: Entry, s: &str, t: &T, glue: &str, j: &str) -> Option<Viol> {
    let x = format!("{}{}{}", s, glue, j);
    st.evals += 1;
    // a longer part of x may be a sentence as well: then that is what should be read
    let toks = crate::lex::lex(&x).toks;
    for k in toks.iter().filter(|k| k.e > s.len()) {
        if parse(e, &x[..k.e]) != Verdict::Reject {
            st.count("continuation is part of the text (not judged)");
            return None;
        }
    }
    if parse(e, &x) != Verdict::Reject {
        st.count("continuation is part of the text (not judged)");
        return None;
    }
    st.case(e, &x);
    match run(e, &x) {
        Out::Ok(n, y) => {
            let rest = &x[n..];
            // `LIMIT 1.5`: what was consumed is a longer sentence, though it ends inside a token
            // (`limit1:x`: words run together are not judged anywhere)
            let read = |p: Verdict| match p {
                Verdict::Accept(u) => u == y,
                Verdict::Grey(_) => true,
                Verdict::Reject => false,
            };
            if n > s.len() && lex_splits(&x, n) && read(parse(e, &x[..n])) {
                st.count("continuation is part of the text (not judged)");
                return None;
            }
            if y != *t {
                return Some(Viol { what: format!("text after the end ({:?}) changed the tree", j), entry: e, text: x.clone(), detail: format!("with: {}; without: {}", cut(&y.to_string()), cut(&t.to_string())) });
            }
            if n > x.len() - j.len() {
                return Some(Viol { what: format!("appended text {:?} is not left over as written: {:?}", j, rest), entry: e, text: x.clone(), detail: String::new() });
            }
            if n <= s.len() && !is_layout(&s[n..]) {
                return Some(Viol { what: format!("with {:?} appended, part of the complete text is left over: {:?}", j, rest), entry: e, text: x.clone(), detail: String::new() });
            }
            st.count("appended text left over");
            None
        }
        o => Some(Viol { what: format!("a complete text is no longer parsed when {:?} follows", j), entry: e, text: x.clone(), detail: outline(&o) }),
    }
}
/// does position n lie inside a token
fn lex_splits(x: &str, n: usize) -> bool {
    crate::lex::lex(x).toks.iter().any(|k| k.s < n && n < k.e)
}
fn honest(st: &mut Stats, e: Entry, s: &str) -> Option<Viol> {
    st.evals += 1;
    let o = run(e, s);
    let bad = |e: Entry, s: &str| dishonest(e, s).is_some();
    match &o {
        Out::Ok(n, _) => {
            st.case(e, s);
            st.count(if *n == s.len() { "consumed all" } else { "left something" });
        }
        Out::Err(_, p, _) => {
            st.count("errors");
            st.max("error offset", *p as u64);
        }
        _ => {}
    }
    let w = dishonest_with(e, s, o);
    if w.is_some() && bad(e, s) {
        let small = shrink(s, &mut |x| bad(e, x));
        return Some(Viol { what: dishonest(e, &small).unwrap_or_default(), entry: e, detail: outline(&run(e, &small)), text: small });
    }
    w.map(|w| Viol { what: w, entry: e, text: s.to_string(), detail: "not repeatable".into() })
}
fn dishonest(e: Entry, s: &str) -> Option<String> {
    dishonest_with(e, s, run(e, s))
}
fn dishonest_with(e: Entry, s: &str, o: Out) -> Option<String> {
    if let Out::Foreign(m) = &o {
        return Some(m.clone());
    }
    if run(e, s) != o {
        return Some("parsing the same text again gave another result".into());
    }
    if let Out::Ok(n, t) = o {
        match run(e, &s[..n]) {
            Out::Ok(m, u) => {
                if u != t {
                    return Some("the consumed part on its own has another tree".into());
                }
                if !is_layout(&s[m..n]) {
                    return Some("the consumed part on its own is not consumed".into());
                }
            }
            o => return Some(format!("the consumed part on its own is not parsed: {}", outline(&o))),
        }
    }
    None
}

// ---- C03

fn c03(r: &mut Run) {
    r.rule = "generated sentences of the SPARQL 1.1 grammar with their expected tree (and mutated texts the reference parser accepts); a case is a distinct text accepted in full with exactly the expected tree".into();
    sentences(r, "statements, general", r.n(160_000, 4_000_000), general, stmt);
    sentences(r, "query forms on their own", r.n(40_000, 600_000), general, |g| *g.pick(&ENTRIES[1..7]));
    sentences(r, "small and dense", r.n(120_000, 2_500_000), |g| {
        let mut c = Cfg::general();
        c.budget = *g.pick(&[2, 4, 8, 12]);
        c.frame = 60;
        c.mods = 40;
        c
    }, stmt);
    r.par("mutated texts that are still valid", r.n(120_000, 2_500_000), |_, g, st| {
        let mut c = general(g);
        c.budget = c.budget.min(60);
        c.names = 5;
        c.strings = 5;
        let (mut toks, _) = make(g, c, Entry::Stmt);
        mutate::tokens(g, &mut toks);
        let s = text_of(g, &toks, Entry::Stmt);
        agree(st, Entry::Stmt, &s, false)
    });
    r.par("every way of nesting, beyond 128 levels, on a large stack", crate::deep::beyond_total(), |i, g, st| {
        let (e, ts) = crate::deep::beyond(i, g.below(1000))?;
        agree(st, e, &ts[0], false)
    });
    r.par("long texts", r.n(150, 4000), |_, g, st| {
        let mut c = Cfg::general();
        c.long = 30;
        c.maxlist = *g.pick(&[100, 300]);
        c.budget = *g.pick(&[1000, 5000]);
        c.group_depth = 4;
        let (toks, t) = make(g, c, Entry::Stmt);
        let s = text_of(g, &toks, Entry::Stmt);
        expect(st, Entry::Stmt, &s, &t)
    });
}

// ---- C04

/// a few tokens of any entry
fn tiny_doc(g: &mut Rng) -> (Vec<Tok>, Entry) {
    let e = any_entry(g);
    let mut c = Cfg::general();
    c.budget = *g.pick(&[3, 7, 12]);
    c.names = 0;
    c.strings = 0;
    c.numbers = 0;
    c.frame = 30;
    c.mods = 40;
    (make(g, c, e).0, e)
}

/// the hand-written sentences, each with its tree
pub fn small_corpus() -> Vec<(Entry, Vec<Tok>, T)> {
    crate::corpus::CORPUS
        .iter()
        .map(|s| {
            let (e, s) = match s.strip_prefix("U:") {
                Some(u) => (Entry::Update, u),
                None => (Entry::Stmt, *s),
            };
            match parse(e, s) {
                Verdict::Accept(t) => (e, crate::sweep::toks(s), t),
                v => panic!("{} is no sentence: {:?}", s, v),
            }
        })
        .collect()
}
/// characters that begin, end or separate tokens, and some that never do
const EDIT_CHARS: &[char] = &[
    ' ', '\t', '\n', '\r', '#', '{', '}', '(', ')', '[', ']', '.', ';', ',', '*', '+', '-', '/', '|', '&', '!', '=', '<', '>', '^', '?', '$', '@', '_', ':', '%', '\\', '"', '\'', '~', '`',
    '0', '9', '1', 'a', 'A', 'e', 'E', 'x', 'z', 'T', 'F', 's', 'u', '\0', '\u{c}', '\u{7f}', '\u{85}', '\u{a0}', '\u{b7}', 'é', '\u{301}', '\u{37e}', '\u{131}', '\u{17f}', '\u{200d}', '\u{2028}', '\u{203f}', '\u{212a}', '日', '\u{feff}', '\u{1F600}', '\u{f0000}',
];

fn c04(r: &mut Run) {
    r.rule = "texts near the grammar's border, judged by the reference parser; a case is a distinct text with a definite verdict; invalid texts must not be accepted in full, consumed parts must be sentences with that tree".into();
    let voc = mutate::vocabulary();
    let k = voc.len();
    let corpus = small_corpus();
    let edits = |t: &Vec<Tok>| t.len() * k + (t.len() + 1) * k + 3 * t.len();
    let ends: Vec<usize> = corpus
        .iter()
        .scan(0, |a, (_, t, _)| {
            *a += edits(t);
            Some(*a)
        })
        .collect();
    let one_edit = |t: &mut Vec<Tok>, mut j: usize| {
        let m = t.len();
        if m == 0 {
            return t.push(voc[j % k].clone());
        }
        if j < m * k {
            t[j / k] = voc[j % k].clone();
            return;
        }
        j -= m * k;
        if j < (m + 1) * k {
            return t.insert(j / k, voc[j % k].clone());
        }
        j -= (m + 1) * k;
        match j / m {
            0 => {
                t.remove(j % m);
            }
            1 => {
                let x = t[j % m].clone();
                t.insert(j % m, x);
            }
            _ => t.swap(j % m, (j + 1) % m),
        }
    };
    r.par(&format!("{} small sentences, every single-token edit with {} tokens", corpus.len(), k), *ends.last().unwrap() as u64, |i, g, st| {
        let i = i as usize;
        let d = ends.partition_point(|e| *e <= i);
        let (e, t, _) = &corpus[d];
        let j = i - if d == 0 { 0 } else { ends[d - 1] };
        let mut t = t.clone();
        one_edit(&mut t, j);
        let lay = *g.pick(&[Lay::Min, Lay::Space]);
        let s = render(g, &t, lay, Case::Random, leads(*e));
        agree(st, *e, &s, true)
    });
    r.par("small sentences, two or three token edits", r.n(3_000_000, 40_000_000), |_, g, st| {
        let (e, t, _) = g.pick(&corpus);
        let mut t = t.clone();
        for _ in 0..if g.one_in(4) { 3 } else { 2 } {
            let n = edits(&t);
            // deletions and repetitions are as frequent as the rest together
            let j = if g.one_in(3) { n - 1 - g.below(3 * t.len().max(1)).min(n - 1) } else { g.below(n) };
            one_edit(&mut t, j);
        }
        let lay = *g.pick(&[Lay::Min, Lay::Space]);
        let s = render(g, &t, lay, Case::Random, leads(*e));
        agree(st, *e, &s, true)
    });
    // characters: inserted, put in the place of another, and single ones taken away
    let lines: Vec<(Entry, String)> = {
        let mut g = Rng::new(crate::rng::mix(r.seed, 0xED17));
        corpus.iter().flat_map(|(e, t, _)| [Lay::Min, Lay::Space].iter().map(|l| (*e, render(&mut g, t, *l, Case::Upper, false))).collect::<Vec<_>>()).collect()
    };
    let nl = lines.len() as u64;
    r.par(&format!("{} small sentences, every single-character edit with {} characters", nl, EDIT_CHARS.len()), nl, |i, _, st| {
        let (e, s) = &lines[i as usize];
        for (at, c) in s.char_indices().chain(std::iter::once((s.len(), ' '))) {
            let (a, b) = s.split_at(at);
            let rest = if b.is_empty() { "" } else { &b[c.len_utf8()..] };
            for x in EDIT_CHARS {
                let v = agree(st, *e, &format!("{}{}{}", a, x, b), true);
                let v = v.or_else(|| agree(st, *e, &format!("{}{}{}", a, x, rest), true));
                if v.is_some() {
                    return v;
                }
            }
            let v = agree(st, *e, &format!("{}{}", a, rest), true);
            if v.is_some() {
                return v;
            }
        }
        None
    });
    r.par("small sentences, two or three character edits", r.n(1_000_000, 20_000_000), |_, g, st| {
        let (e, s) = g.pick(&lines);
        let mut c: Vec<char> = s.chars().collect();
        for _ in 0..if g.one_in(4) { 3 } else { 2 } {
            let i = g.below(c.len() + 1);
            match g.below(5) {
                0 | 1 => c.insert(i, *g.pick(EDIT_CHARS)),
                2 if i < c.len() => c[i] = *g.pick(EDIT_CHARS),
                3 if i < c.len() => {
                    c.remove(i);
                }
                _ if i < c.len() => {
                    let j = g.below(c.len());
                    c.swap(i, j);
                }
                _ => {}
            }
        }
        agree(st, *e, &c.into_iter().collect::<String>(), true)
    });
    r.par("nested templates, one or two token edits", r.n(2_500_000, 30_000_000), |_, g, st| {
        let (e, mut t, _) = match crate::compose::random(g, 3) {
            Some(x) => x,
            None => return None,
        };
        for _ in 0..if g.one_in(3) { 2 } else { 1 } {
            let n = edits(&t);
            let j = if g.one_in(3) { n - 1 - g.below(3 * t.len().max(1)).min(n - 1) } else { g.below(n) };
            one_edit(&mut t, j);
        }
        let lay = *g.pick(&[Lay::Min, Lay::Space]);
        let s = render(g, &t, lay, Case::Random, leads(e));
        agree(st, e, &s, true)
    });
    crate::notable::corpus(r, true);
    keyword_letters(r);
    let sizes: Vec<usize> = (1..=24).chain([31, 32, 33, 40, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257]).collect();
    let m = sizes.len() as u64;
    r.par(&format!("{} kinds of list at {} lengths, with faults at the ends and inside", crate::lists::count(), m), crate::lists::count() as u64 * m, |i, g, st| {
        let l = (i / m) as usize;
        let n = sizes[(i % m) as usize];
        let e = crate::lists::entry(l);
        crate::lists::faulty(l, n, g).iter().find_map(|s| agree(st, e, s, true))
    });
    // every single-token edit of a corpus of short sentences
    let docs = r.n(26, 600);
    let per = 4000u64;
    r.par("all single-token edits of generated sentences", docs * per, |i, g, st| {
        // the document depends on i / per only
        let mut dg = Rng::new(crate::rng::mix(0xC04, i / per));
        let e = if i / per < 8 { ENTRIES[(i / per) as usize] } else { any_entry(&mut dg) };
        let mut c = Cfg::general();
        c.budget = 7;
        c.names = 0;
        c.strings = 0;
        c.numbers = 0;
        c.frame = 30;
        let (toks, _) = make(&mut dg, c, e);
        let m = toks.len();
        let edits = m * k + (m + 1) * k + m + m * m.min(12) + m;
        let j = (i % per) as usize;
        // spread over the edit space
        if edits == 0 {
            return None;
        }
        let j = if edits <= per as usize {
            if j >= edits {
                return None;
            }
            j
        } else {
            g.below(edits)
        };
        let mut t = toks.clone();
        let mut j = j;
        if j < m * k {
            t[j / k] = voc[j % k].clone();
        } else {
            j -= m * k;
            if j < (m + 1) * k {
                t.insert(j / k, voc[j % k].clone());
            } else {
                j -= (m + 1) * k;
                if j < m {
                    t.remove(j);
                } else {
                    j -= m;
                    if j < m {
                        let x = t[j].clone();
                        t.insert(j, x);
                    } else {
                        j -= m;
                        let w = m.min(12);
                        let (a, b) = (j / w, (j / w + 1 + j % w) % m);
                        t.swap(a, b);
                    }
                }
            }
        }
        let lay = *g.pick(&[Lay::Min, Lay::Space]);
        let s = render(g, &t, lay, Case::Random, leads(e));
        agree(st, e, &s, true)
    });
    r.par("every token and bracketed part in more or fewer brackets, or repeated after a separator", r.n(8_000, 200_000), |_, g, st| {
        let (toks, e) = tiny_doc(g);
        if toks.len() > 45 {
            return None;
        }
        for (a, b) in mutate::spans(&toks) {
            for w in 0..mutate::WAYS {
                if let Some(x) = mutate::around(&toks, a, b, w) {
                    let s = render(g, &x, if w % 2 == 0 { Lay::Min } else { Lay::Space }, Case::Random, leads(e));
                    if let Some(v) = agree(st, e, &s, true) {
                        return Some(v);
                    }
                }
            }
        }
        None
    });
    let gaps: Vec<(usize, usize)> = corpus.iter().enumerate().flat_map(|(d, c)| (0..=c.1.len()).map(move |i| (d, i))).collect();
    let some = r.n(700, 4 * gaps.len() as u64);
    r.par("pairs of tokens in one gap or around one token", r.n(300, 10_000) + some, |i, g, st| {
        let (toks, e, at) = if i < some {
            let (d, at) = if some > gaps.len() as u64 { gaps[i as usize % gaps.len()] } else { *g.pick(&gaps) };
            (corpus[d].1.clone(), corpus[d].0, at)
        } else {
            let (toks, e) = tiny_doc(g);
            let at = g.below(toks.len() + 1);
            (toks, e, at)
        };
        if toks.is_empty() || toks.len() > 60 {
            return None;
        }
        let mut w: Vec<Tok> = mutate::PUNCT.iter().map(|s| Tok { s: s.to_string(), k: TK::P }).collect();
        for _ in 0..12 {
            w.push(g.pick(&voc).clone());
        }
        let i = at;
        for a in &w {
            for b in &w {
                for how in 0..3 {
                    let mut t = toks.clone();
                    match how {
                        // both into a gap
                        0 => {
                            t.splice(i..i, [a.clone(), b.clone()]);
                        }
                        // around a token
                        1 if i < toks.len() => {
                            t.insert(i + 1, b.clone());
                            t.insert(i, a.clone());
                        }
                        // in place of a token
                        2 if i < toks.len() => {
                            t.splice(i..i + 1, [a.clone(), b.clone()]);
                        }
                        _ => continue,
                    }
                    let s = render(g, &t, Lay::Space, Case::Random, leads(e));
                    if let Some(v) = agree(st, e, &s, true) {
                        return Some(v);
                    }
                }
            }
        }
        None
    });
    near(r, "general", r.n(300_000, 4_000_000), |g| {
        let mut c = general(g);
        c.budget = c.budget.min(60);
        c
    }, any_entry, true);
    near(r, "small", r.n(400_000, 3_000_000), |g| {
        let mut c = Cfg::general();
        c.budget = *g.pick(&[2, 5, 10]);
        c.names = 5;
        c.frame = 60;
        c.mods = 50;
        c
    }, any_entry, true);
    r.par("token soup", r.n(60_000, 1_000_000), |_, g, st| {
        let s = mutate::soup(g);
        let e = any_entry(g);
        agree(st, e, &s, true)
    });
    sweep(r, Sweep {
        name: "update operations",
        entry: Entry::Update,
        frames: &[("", "")],
        alphabet: UPDATE,
        lo: 1,
        hi: if r.thorough { 5 } else { 4 },
        rej: true,
    });
    sweep(r, Sweep {
        name: "query frames",
        entry: Entry::Stmt,
        frames: &[("", "")],
        alphabet: FRAME,
        lo: 1,
        hi: if r.thorough { 5 } else { 4 },
        rej: true,
    });
    sweep(r, Sweep {
        name: "group content",
        entry: Entry::Ask,
        frames: &[("ASK {", "}")],
        alphabet: &["?v", "<u>", "a", "{", "}", ".", ";", ",", "(", ")", "[", "]", "()", "[]", "1", "\"s\"", "@en", "FILTER", "OPTIONAL", "UNION", "+", "|"],
        lo: 1,
        hi: if r.thorough { 5 } else { 4 },
        rej: true,
    });
    sweep(r, Sweep {
        name: "expressions",
        entry: Entry::Ask,
        frames: &[("ASK { FILTER (", ") }")],
        alphabet: EXPR,
        lo: 1,
        hi: if r.thorough { 5 } else { 4 },
        rej: true,
    });
    sweep(r, Sweep {
        name: "modifiers",
        entry: Entry::Query,
        frames: &[("SELECT * { }", "")],
        alphabet: MODS,
        lo: 1,
        hi: if r.thorough { 5 } else { 4 },
        rej: true,
    });
}

// ---- C05

fn texts_profile(g: &mut Rng) -> Cfg {
    let mut c = Cfg::general();
    c.names = 95;
    c.strings = 95;
    c.numbers = 0;
    c.budget = *g.pick(&[8, 20, 40]);
    c.expr_depth = 2;
    c.frame = 50;
    c
}
/// contexts in which one character is placed: inside, at the start and at the end of every
/// kind of terminal
const SPOTS: &[(&str, &str)] = &[
    ("ASK { ?a", "b ?p ?o }"),
    ("ASK { ?", " ?p ?o }"),
    ("ASK { ?s ?p ?o", " }"),
    ("ASK { $a", "b ?p ?o }"),
    ("ASK { $", " ?p ?o }"),
    ("ASK { <a", "b> ?p ?o }"),
    ("ASK { <", "> ?p ?o }"),
    ("ASK { x:a", "b ?p ?o }"),
    ("ASK { x:", " ?p ?o }"),
    ("ASK { x:a", " ?p ?o }"),
    ("ASK { ?s :a.", "b ?o }"),
    ("ASK { ?s ", ":b ?o }"),
    ("ASK { ?s a", "b:c ?o }"),
    ("ASK { ?s a", ":c ?o }"),
    ("ASK { _:a", "b ?p ?o }"),
    ("ASK { _:", " ?p ?o }"),
    ("ASK { _:a", " ?p ?o }"),
    ("ASK { ?s ?p \"a", "b\" }"),
    ("ASK { ?s ?p '", "' }"),
    ("ASK { ?s ?p \"\"\"a", "b\"\"\" }"),
    ("ASK { ?s ?p '''", "''' }"),
    ("ASK { ?s ?p \"a\\", "b\" }"),
    ("ASK { ?s ?p \"a\"@e", "n }"),
    ("ASK { ?s ?p \"a\"@en-", " }"),
    ("ASK { ?s ?p \"a\"@en", " }"),
    ("PREFIX a", "b: <u> ASK { }"),
    ("PREFIX ", ": <u> ASK { }"),
    ("BASE <a", "b> ASK { }"),
    ("ASK { x:a\\", "b ?p ?o }"),
    ("ASK { x:%4", " ?p ?o }"),
    ("ASK { x:%", "1 ?p ?o }"),
    ("DESCRIBE x:a", " LIMIT 1"),
    ("SELECT ?a", " { }"),
    ("ASK { ?s <p>*", " ?o }"),
    ("ASK { ?s ?p ?o . ", " }"),
    ("ASK { FILTER(?a", "?b) }"),
    ("ASK { FILTER(REGEX(?a, \"", "\")) }"),
    ("SELECT (GROUP_CONCAT(?a; SEPARATOR=\"", "\") AS ?x) { }"),
    ("ASK { VALUES ?a { \"", "\" } }"),
    ("ASK { GRAPH <g", "> { } }"),
];

/// lengths that are small, or near the sizes buffers and limits have
pub fn token_lengths(n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (1..=n).collect();
    for m in [100usize, 255, 256, 500, 511, 512, 1000, 1024, 2000, 2048, 3000, 4000, 4096, 5000, 8192, 10_000, 16_384, 32_768, 65_535, 65_536] {
        v.extend([m - 1, m, m + 1]);
    }
    v.sort();
    v.dedup();
    v
}
pub const TOKEN_KINDS: u64 = 30;
/// a text with one token of length `n`, in some respect
pub fn long_token(k: u64, g: &mut Rng, n: usize) -> String {
    let fill = |g: &mut Rng, al: &[&str]| -> String { (0..n).map(|_| *g.pick(al)).collect() };
    let obj = |x: String| format!("ASK {{ ?s ?p {} }}", x);
    match k {
        0 => obj(format!("<{}>", fill(g, &["a", "/", "é", "#", "%", ":"]))),
        1 => obj(format!("x:{}", fill(g, &["a", "b", "0", "é", "_"]))),
        2 => obj(format!("x:a{}b", fill(g, &["."]))),
        3 => obj(format!("x:{}a", fill(g, &["a.", "b-"]))),
        4 => obj(format!("x:{}", fill(g, &["%41", "%ff", "%0a"]))),
        5 => obj(format!("x:{}", fill(g, &["\\-", "\\.", "\\%", "\\'"]))),
        6 => obj(format!("x:{}", fill(g, &[":"]))),
        7 => obj(format!("a{}:b", fill(g, &["a", "é", "-", "0"]))),
        8 => format!("PREFIX a{}b: <u> ASK {{ }}", fill(g, &["."])),
        9 => obj(format!("_:{}", fill(g, &["a", "0", "é", "_"]))),
        10 => obj(format!("_:a{}b", fill(g, &[".", "-"]))),
        11 => obj(format!("?{}", fill(g, &["a", "0", "é", "_"]))),
        12 => obj(format!("${}", fill(g, &["_", "9", "日"]))),
        13 => obj(format!("''@{}", fill(g, &["a", "Z", "q"]))),
        14 => obj(format!("''@en{}", fill(g, &["-a", "-0", "-Latn"]))),
        15 => obj(format!("''@en-{}", fill(g, &["a", "0", "Z"]))),
        16 => obj(format!("\"{}\"", fill(g, &["a", " ", "é", "'", "#"]))),
        17 => obj(format!("'{}'", fill(g, &["\\n", "\\\\", "\\'", "\\\""]))),
        18 => obj(format!("'''{}'''", fill(g, &["'a", "''b", "\"\"\"", "\n"]))),
        19 => obj(format!("\"\"\"{}\"\"\"", fill(g, &["\\\"", "\"\\\"", "'''", "\r\n", "é"]))),
        20 => format!("ASK #{}\n{{ }}", fill(g, &["a", "{", "#", "\"", "é"])),
        21 => format!("ASK {}{{ }}", fill(g, &["#\n", "#a\r", "# \r\n"])),
        22 => format!("ASK {}{{ }}", fill(g, &[" ", "\t", "\r", "\n"])),
        23 => format!("DESCRIBE <{}>", fill(g, &["a", "/"])),
        24 => format!("BASE <{}> ASK {{ }}", fill(g, &["a", "/"])),
        25 => format!("ASK {{ FILTER x:{}(1) }}", fill(g, &["a", "0"])),
        26 => format!("SELECT (1 AS ?{}) {{ }}", fill(g, &["a", "0", "é"])),
        27 => format!("ASK {{ VALUES ?{} {{ }} }}", fill(g, &["a", "0", "é"])),
        28 => format!("ASK {{ FILTER GROUP_CONCAT(?x; SEPARATOR='{}') }}", fill(g, &["a", ",", "\\t"])),
        _ => format!("ASK {{ GRAPH <{}> {{ ?s <{}> '{}'^^<{}> }} }}", fill(g, &["a"]), fill(g, &["b"]), fill(g, &["c"]), fill(g, &["d"])),
    }
}
/// something after the long token, a character off, or cut short
fn long_tokens(r: &mut Run, n: usize, only_total: bool) {
    let ls = token_lengths(n);
    let m = ls.len() as u64;
    r.par(&format!("tokens of {} lengths, {} kinds", m, TOKEN_KINDS), m * TOKEN_KINDS, |i, g, st| {
        let n = ls[(i / TOKEN_KINDS) as usize];
        let mut s = long_token(i % TOKEN_KINDS, g, n);
        st.max("repetitions in a token", n as u64);
        for k in 0..3 {
            let o = if only_total { total_on(st, Entry::Stmt, &s) } else { agree(st, Entry::Stmt, &s, true) };
            if o.is_some() {
                return o;
            }
            if k == 0 {
                // one character exchanged
                let mut x: Vec<char> = s.chars().collect();
                let j = g.below(x.len());
                x[j] = mutate::any_char(g);
                s = x.into_iter().collect();
            } else {
                let j = (0..=g.below(s.len() + 1)).rev().find(|j| s.is_char_boundary(*j)).unwrap();
                s.truncate(j);
            }
        }
        None
    });
}

fn c05(r: &mut Run) {
    r.rule = "a case is a distinct text; every Unicode code point of the set in every kind of terminal and at every position class, judged against the terminals of SPARQL 1.1; plus sentences whose names, IRIs, strings and tags are drawn from the whole alphabet".into();
    let mut cps: Vec<char> = vec![];
    if r.thorough {
        cps.extend((0..0x110000u32).filter_map(char::from_u32));
    } else {
        let mut s = std::collections::BTreeSet::new();
        s.extend((0..0x10000u32).filter_map(char::from_u32));
        let mut around = |x: u32| {
            for d in x.saturating_sub(2)..=x + 2 {
                s.extend(char::from_u32(d));
            }
        };
        for b in [
            0xC0, 0xD6, 0xD7, 0xD8, 0xF6, 0xF7, 0xF8, 0x2FF, 0x300, 0x36F, 0x370, 0x37D, 0x37E, 0x37F, 0x1FFF,
            0x200C, 0x200D, 0x203F, 0x2040, 0x2070, 0x218F, 0x2C00, 0x2FEF, 0x3001, 0xD7FF, 0xE000, 0xF900,
            0xFDCF, 0xFDF0, 0xFFFD, 0x10000, 0xEFFFF, 0xF0000, 0x10FFFF, 0xFEFF, 0x2028, 0x85, 0xA0, 0x1680,
            0x180E, 0x2000, 0x200B, 0x202F, 0x205F, 0x3000, 0xFE00, 0xFF10, 0xFF21, 0xFF41, 0x660, 0x6F0, 0x966,
            0x130, 0x131, 0x17F, 0x212A, 0x1E9E, 0x1F600,
        ] {
            around(b);
        }
        // code points whose low byte or low 16 bits look like ASCII
        for hi in [0x1u32, 0x2, 0x4, 0x20, 0x30, 0x100, 0x1F6] {
            for lo in 0x20..0x7f {
                s.extend(char::from_u32(hi * 0x100 + lo));
            }
        }
        for hi in [1u32, 2, 14] {
            for lo in 0x20..0x7f {
                s.extend(char::from_u32(hi * 0x10000 + lo));
            }
        }
        for i in (0x10000..0x110000u32).step_by(0x80) {
            s.extend(char::from_u32(i));
        }
        cps.extend(s);
    }
    let m = SPOTS.len() as u64;
    let stats_name = format!("{} code points in {} positions", cps.len(), m);
    r.par(&stats_name, cps.len() as u64, |i, _, st| {
        let c = cps[i as usize];
        for (a, b) in SPOTS {
            let mut s = String::with_capacity(64);
            s.push_str(a);
            s.push(c);
            s.push_str(b);
            let e = if s.starts_with("ASK") { Entry::Ask } else { Entry::Stmt };
            if let Some(v) = agree(st, e, &s, true) {
                return Some(v);
            }
        }
        None
    });
    r.par("random code points in all positions", r.n(4000, 20_000), |_, g, st| {
        for (a, b) in SPOTS {
            let mut s = String::from(*a);
            for _ in 0..g.range(1, 3) {
                let x = if g.coin() { g.below(0x3000) } else { g.below(0x110000) };
                s.extend(char::from_u32(x as u32));
                if g.one_in(4) {
                    s.push(*g.pick(&['.', '-', ':', '_', '\\', '%', '0', 'a']));
                }
            }
            s.push_str(b);
            if let Some(v) = agree(st, Entry::Stmt, &s, true) {
                return Some(v);
            }
        }
        None
    });
    let top = if r.thorough { 600 } else { 150 };
    long_tokens(r, top, false);
    // all short strings over the characters that matter in names
    char_sweep(r, "prefixed names", &[("ASK { ?s ?p ", " }"), ("ASK { ", " ?p ?o }"), ("DESCRIBE ", "")],
        &["a", ":", ".", "-", "_", "0", "%4f", "\\.", "é", "\u{B7}"], if r.thorough { 6 } else { 5 });
    char_sweep(r, "prefix declarations", &[("PREFIX ", ": <u> ASK { }"), ("PREFIX ", " <u> ASK { }")],
        &["a", ":", ".", "-", "_", "0", "é", "\u{B7}"], if r.thorough { 5 } else { 4 });
    char_sweep(r, "blank node labels and variables", &[("ASK { ?s ?p _:", " }"), ("ASK { ?s ?p ?", " }"), ("ASK { ?", " ?p ?o }")],
        &["a", ".", "-", "_", "0", "é", "\u{B7}", ":"], if r.thorough { 6 } else { 4 });
    char_sweep(r, "strings", &[("ASK { ?s ?p ", " }"), ("ASK { ?s ?p ", " , ?x }")],
        &["\"", "'", "\\", "a", "n", " "], if r.thorough { 8 } else { 6 });
    char_sweep(r, "long strings", &[("ASK { ?s ?p \"\"\"", "\"\"\" }"), ("ASK { ?s ?p '''", "''' }")],
        &["\"", "'", "\\", "a", "\"\"\"", "'''", "\n"], if r.thorough { 7 } else { 5 });
    char_sweep(r, "language tags and datatypes", &[("ASK { ?s ?p \"x\"", " }"), ("ASK { VALUES ?v { \"x\"", " } }")],
        &["@", "e", "-", "1", "^^", "<u>", "x:y", "^", " ", "é"], if r.thorough { 5 } else { 4 });
    // forms that are easily put into another, equivalent one
    char_sweep(r, "IRIs",
        &[("ASK { ?s ?p <", "> }"), ("ASK { <", "> ?p ?o }"), ("ASK { ?s <", ">/<q> ?o }"), ("BASE <", "> ASK { }"), ("PREFIX x: <", "> ASK { }"), ("ASK { ?s ?p 'x'^^<", "> }"), ("ASK FROM <", "> { GRAPH ?g { } }"), ("ASK { FILTER <", ">(1) }"), ("ASK { VALUES ?v { <", "> } }")],
        &["http:", "HTTP:", "/", ".", "..", "a", "A", "%41", "%2f", "#", "?", ":80", "é", "e\u{301}", "&amp;"], if r.thorough { 5 } else { 4 });
    char_sweep(r, "string contents",
        &[("ASK { ?s ?p '", "' }"), ("ASK { ?s ?p \"\"\"", "\"\"\" }"), ("ASK { FILTER ( \"", "\" ) }")],
        &["\\t", "\\\\", "\t", "\u{a0}", " ", "\\u0041", "%20", "&#65;", "e\u{301}", "é", "\u{feff}", "\u{130}", "ﬁ", "{x}", "$1", "a", "A", "\0", "\r", "//", "--", "/*", "#"], if r.thorough { 4 } else { 3 });
    char_sweep(r, "labels, variables and local names",
        &[("ASK { ?s ?p _:", " }"), ("ASK { ?s ?p ?", " }"), ("ASK { ?s ?p $", " }"), ("ASK { ?s ?p x:", " }"), ("ASK { _:", " ?p ?o }"), ("SELECT ?", " { }"), ("ASK { ?s ?p b", ":x }"), ("DESCRIBE :", "")],
        &["0", "00", "1", "a", "A", "_", "__", "é", "É", "e\u{301}", "ﬁ", "\u{130}", "ß", "-", ".", "\u{b7}"], if r.thorough { 4 } else { 3 });
    char_sweep(r, "language tags", &[("ASK { ?s ?p 'x'@", " }"), ("ASK { ?s ?p 'x'@", ", 1 }"), ("ASK { FILTER('x'@", "= ?y) }"), ("ASK { VALUES ?v { 'x' @", " } }")],
        &["en", "EN", "En", "-", "-US", "-us", "-Latn", "-x", "-0", "-001", "i", "x", "a"], if r.thorough { 5 } else { 4 });
    sentences(r, "names, IRIs, strings and tags", r.n(90_000, 2_000_000), texts_profile, any_entry);
    r.par("names of every length", r.n(700, 2200), |i, g, st| {
        let n = i as usize + 1;
        let id: String = (0..n).map(|_| *g.pick(&['a', 'b', 'Z', '_', '0', 'é', '日'])).collect();
        let id = format!("q{}", &id);
        let t = [
            (format!("ASK {{ ?{} ?p ?o }}", id)),
            (format!("ASK {{ <{}> ?p ?o }}", id)),
            (format!("ASK {{ x:{} ?p ?o }}", id)),
            (format!("ASK {{ {}:a ?p ?o }}", id.replace('_', "-"))),
            (format!("ASK {{ _:{} ?p ?o }}", id)),
            (format!("ASK {{ ?s ?p \"{}\" }}", id)),
            (format!("ASK {{ ?s ?p '''{}''' }}", id)),
            (format!("ASK {{ ?s ?p \"\"@{} }}", "x".repeat(n))),
            (format!("ASK {{ ?s ?p \"\"@a{} }}", "-b1".repeat(n))),
        ];
        for s in &t {
            if let Some(v) = agree(st, Entry::Ask, s, true) {
                return Some(v);
            }
        }
        None
    });
}

fn char_sweep(r: &mut Run, name: &str, frames: &[(&str, &str)], atoms: &[&str], hi: usize) {
    let per = total(atoms.len(), 0, hi);
    let f = frames.len() as u64;
    let n = format!("{}: all strings of up to {} of {} pieces in {} places", name, hi, atoms.len(), f);
    r.par(&n, per * f, |i, _, st| {
        let mut ix = vec![];
        nth(atoms.len(), 0, i / f, &mut ix);
        let (a, b) = frames[(i % f) as usize];
        let mut s = String::from(a);
        for x in &ix {
            s.push_str(atoms[*x]);
        }
        s.push_str(b);
        agree(st, Entry::Stmt, &s, true)
    });
}

// ---- C06

fn c06(r: &mut Run) {
    r.rule = "a case is a distinct text holding numbers or booleans; all short digit/dot/exponent/sign strings in every number context, plus sentences dense in numbers; expected value computed with exact integer and correctly rounded conversion".into();
    char_sweep(r, "numbers",
        &[("ASK { ?s ?p ", " }"), ("ASK { FILTER(?a=", ") }"), ("ASK { VALUES ?v { ", " } }"), ("ASK { FILTER(1", ") }"), ("ASK { ", " ?p ?o }")],
        &["0", "1", "9", ".", "e", "E", "+", "-"], if r.thorough { 6 } else { 5 });
    char_sweep(r, "limits", &[("SELECT * { } LIMIT ", ""), ("ASK { } OFFSET ", " LIMIT 2"), ("ASK { } LIMIT 2 OFFSET ", " VALUES ?v { }")],
        &["0", "1", "9", ".", "e", "+", "-", " "], if r.thorough { 6 } else { 4 });
    sweep(r, Sweep {
        name: "signs between operands",
        entry: Entry::Ask,
        frames: &[("ASK { FILTER (", ") }"), ("ASK { FILTER ( ?x", ") }"), ("ASK { FILTER ( ?x IN (", ") ) }")],
        alphabet: &["1", "-2", "+3", "-4.5", "+.5e1", "6e-7", "-", "+", "*", "/", "?y", ","],
        lo: 1,
        hi: if r.thorough { 5 } else { 4 },
        rej: true,
    });
    r.par("integers around every power", r.n(64 * 9 * 8, 64 * 9 * 8), |i, _, st| {
        let b = i / 72;
        let v = ((1u128 << b) as i128 + (i / 8 % 9) as i128 - 4).max(0) as u128;
        let t = match i % 8 {
            0 => format!("ASK {{ ?s ?p {} }}", v),
            1 => format!("ASK {{ ?s ?p -{} }}", v),
            2 => format!("ASK {{ ?s ?p +{} , 1 }}", v),
            3 => format!("ASK {{ FILTER(1 + -{}) }}", v),
            4 => format!("ASK {{ FILTER(?x-{}) }}", v),
            5 => format!("ASK {{ VALUES ?x {{ -{} +{} }} }}", v, v),
            6 => format!("ASK {{ }} LIMIT {}", v),
            _ => format!("ASK {{ }} OFFSET {:030}", v),
        };
        agree(st, Entry::Stmt, &t, true)
    });
    let k = extreme_numbers().len();
    r.par("numbers at the limits of every width, in every place", (k * NUMBER_PLACES.len()) as u64, |i, _, st| {
        let (a, b) = NUMBER_PLACES[i as usize / k];
        agree(st, Entry::Stmt, &format!("{}{}{}", a, extreme_numbers()[i as usize % k], b), true)
    });
    r.par("decimal and double mantissas", r.n(150_000, 3_000_000), |_, g, st| {
        // hard cases for correct rounding: many digits, midpoints between doubles, subnormals
        let x = f64::from_bits(match g.below(4) {
            0 => g.next() & 0x7fef_ffff_ffff_ffff,
            1 => g.next() & 0x001f_ffff_ffff_ffff,
            2 => (1023 << 52) + (g.next() >> 12),
            _ => ((1023 + g.below(64) as u64) << 52) | (g.next() >> 12),
        });
        let mut m = match g.below(4) {
            0 => format!("{:.*}", g.range(1, 40), if x < 1e30 { x } else { x / 1e290 }),
            1 => format!("{}.{}", g.next() % 1_000_000, g.next()),
            2 => format!("{:.60}", if x < 1e20 { x } else { 0.1 }),
            _ => {
                let y = (1u64 << 53) + g.below(1000) as u64;
                format!("{}.{}{}", y, g.pick(&["5", "50", "49999999999999999999", "500000000000000000000001"]), "0".repeat(g.below(5)))
            }
        };
        if g.one_in(5) {
            m = format!("{}{}", "0".repeat(g.range(1, 30)), m);
        }
        let exp = match g.below(5) {
            0 => format!("e{}", g.below(400)),
            1 => format!("E-{}", g.next() >> 1),
            2 => format!("e+{}", g.below(9)),
            _ => String::new(),
        };
        let sign = g.pick(&["", "-", "+"]);
        let lit = format!("{}{}{}", sign, m, exp);
        let (a, b) = *g.pick(&[("ASK { ?s ?p ", " }"), ("ASK { FILTER(?a = ", ") }"), ("ASK { VALUES ?v { ", " } }"), ("ASK { FILTER(1*", ") }"), ("SELECT (", " AS ?v) { }"), ("ASK { ?s ?p (", ") }")]);
        agree(st, Entry::Stmt, &format!("{}{}{}", a, lit, b), true)
    });
    sentences(r, "dense in numbers", r.n(60_000, 1_500_000), |g| {
        let mut c = Cfg::general();
        c.names = 0;
        c.strings = 0;
        c.numbers = 90;
        c.builtins = 10;
        c.budget = *g.pick(&[15, 30, 60]);
        c
    }, any_entry);
    sweep(r, Sweep {
        name: "booleans",
        entry: Entry::Stmt,
        frames: &[("ASK { ?s ?p", "}"), ("ASK { VALUES ?v {", "} }"), ("ASK { FILTER (", ") }")],
        alphabet: &["true", "false", "TRUE", "?x", ",", "&&", "!", "(", ")", "1"],
        lo: 1,
        hi: 4,
        rej: true,
    });
}

// ---- C07

const TRIPLE: &[&str] = &["?v", "<u>", "a", "x:y", "_:b", "\"s\"", "1", "[]", "()", "[", "]", "(", ")", ".", ";", ","];
fn c07(r: &mut Run) {
    r.rule = "a case is a distinct text; all short token strings in triples blocks, templates and quads, plus sentences dense in triples; the tree must be the grammar's derivation".into();
    sweep(r, Sweep {
        name: "triples",
        entry: Entry::Stmt,
        frames: &[("ASK {", "}"), ("CONSTRUCT {", "} WHERE { }"), ("CONSTRUCT WHERE {", "}")],
        alphabet: &["?v", "<u>", "a", "1", "[]", "[", "]", "(", ")", ".", ";", ","],
        lo: 1,
        hi: if r.thorough { 5 } else { 4 },
        rej: false,
    });
    sweep(r, Sweep {
        name: "after a triple",
        entry: Entry::Stmt,
        frames: &[("ASK { ?s ?p ?o", "}"), ("CONSTRUCT { ?s ?p ?o", "} WHERE { }"), ("ASK { ?s ?p ?o ;", "?q ?r }"), ("ASK { ?s ?p [", "] }"), ("ASK { (", ") ?p ?o }")],
        alphabet: TRIPLE,
        lo: 1,
        hi: if r.thorough { 5 } else { 3 },
        rej: false,
    });
    sweep(r, Sweep {
        name: "quads",
        entry: Entry::Update,
        frames: &[("INSERT DATA { ?s ?p ?o", "}"), ("DELETE WHERE {", "}"), ("INSERT DATA { GRAPH <g> { ?s ?p ?o", "} }")],
        alphabet: &["?v", "<u>", "a", "1", "[]", "[", "]", "(", ")", ".", ";", ","],
        lo: 1,
        hi: if r.thorough { 5 } else { 4 },
        rej: false,
    });
    let cfg = |g: &mut Rng| {
        focus(g, |g, c| {
            c.triples = 100;
            c.nodes = *g.pick(&[0, 25, 60]);
            c.node_depth = *g.pick(&[1, 3, 5]);
            c.paths = *g.pick(&[0, 10]);
            c.builtins = 0;
            c.expr_depth = 1;
            c.mods = 0;
        })
    };
    sentences(r, "dense in triples", r.n(180_000, 4_000_000), cfg, any_entry);
    near(r, "dense in triples", r.n(60_000, 1_000_000), cfg, any_entry, false);
    r.par("long lists", r.n(300, 3000), |_, g, st| {
        let mut c = Cfg::plain();
        c.triples = 100;
        c.nodes = 20;
        c.node_depth = 2;
        c.long = 60;
        c.maxlist = *g.pick(&[50, 130, 300]);
        c.budget = 1500;
        let e = any_entry(g);
        let (toks, t) = make(g, c, e);
        let s = calm_text(g, &toks, e);
        expect(st, e, &s, &t)
    });
}

// ---- C08

fn c08(r: &mut Run) {
    r.rule = "a case is a distinct text; all short path token strings as verbs in several positions, plus sentences dense in paths; the tree must be the grammar's derivation".into();
    let path: &[&str] = &["<u>", "a", "x:y", "/", "|", "^", "!", "(", ")", "*", "+", "?"];
    sweep(r, Sweep {
        name: "paths",
        entry: Entry::Ask,
        frames: &[("ASK { ?s", "?o }")],
        alphabet: path,
        lo: 1,
        hi: if r.thorough { 6 } else { 5 },
        rej: false,
    });
    sweep(r, Sweep {
        name: "paths next to other objects",
        entry: Entry::Ask,
        frames: &[("ASK { ?s", "1 }"), ("ASK { ?s <p>", "-1 }"), ("ASK { ?s ?p ?o ;", "( 1 ) . }"), ("ASK { [", "?o ] }"), ("ASK { ?s <p>", "+.5 , ?x }"), ("ASK { ( 1 )", "[ ] }")],
        alphabet: path,
        lo: 1,
        hi: if r.thorough { 5 } else { 3 },
        rej: false,
    });
    sweep(r, Sweep {
        name: "inside a negated property set",
        entry: Entry::Ask,
        frames: &[("ASK { ?s ! (", ") ?o }"), ("ASK { ?s !", "?o }"), ("ASK { ?s <p> / ! (", ") * ?o }")],
        alphabet: &["<u>", "a", "x:y", "|", "^", "(", ")", "*", "/", "()"],
        lo: 1,
        hi: if r.thorough { 6 } else { 4 },
        rej: false,
    });
    let cfg = |g: &mut Rng| {
        focus(g, |g, c| {
            c.triples = 100;
            c.paths = 90;
            c.path_depth = *g.pick(&[1, 2, 4, 6]);
            c.nodes = *g.pick(&[0, 0, 20]);
            c.node_depth = 2;
            c.builtins = 5;
            c.mods = 0;
            c.forms = [3, 0, 1, 3];
        })
    };
    sentences(r, "dense in paths", r.n(220_000, 4_000_000), cfg, stmt);
    near(r, "dense in paths", r.n(60_000, 1_500_000), cfg, stmt, false);
}

// ---- C09

fn c09(r: &mut Run) {
    r.rule = "a case is a distinct text; all short sequences of group elements, plus sentences dense in group elements; the tree must list them in order, each with its triples".into();
    let el: &[&str] = &[
        "?a ?b ?c", ".", "{ }", "UNION { ?u ?b ?c }", "OPTIONAL { }", "MINUS { ?m ?b ?c }", "GRAPH ?g { }", "SERVICE <s> { }",
        "SERVICE SILENT ?s { }", "FILTER ( ?f )", "FILTER EXISTS { }", "FILTER <f> ( )", "BIND ( 1 AS ?v )", "VALUES ?v { 1 }", "{ SELECT * { } }",
        "FILTER STR ( ?x )",
    ];
    sweep(r, Sweep {
        name: "group elements",
        entry: Entry::Ask,
        frames: &[("ASK {", "}"), ("ASK { OPTIONAL {", "} ?x ?y ?z }")],
        alphabet: el,
        lo: 0,
        hi: if r.thorough { 5 } else { 4 },
        rej: false,
    });
    sweep(r, Sweep {
        name: "union chains",
        entry: Entry::Ask,
        frames: &[("ASK {", "}")],
        alphabet: &["{ }", "{ ?a ?b ?c }", "UNION", ".", "{ SELECT * { } }", "{ { } }", "FILTER ( 1 )"],
        lo: 1,
        hi: if r.thorough { 7 } else { 5 },
        rej: false,
    });
    sweep(r, Sweep {
        name: "subselects",
        entry: Entry::Ask,
        frames: &[("ASK { {", "} }"), ("ASK {", "}")],
        alphabet: &["SELECT", "DISTINCT", "*", "?v", "{ }", "{ ?a ?b ?c }", "WHERE", "LIMIT 1", "GROUP BY ?g", "VALUES ?v { }", "( 1 AS ?e )"],
        lo: 1,
        hi: if r.thorough { 6 } else { 4 },
        rej: false,
    });
    let cfg = |g: &mut Rng| {
        focus(g, |g, c| {
            c.group_depth = *g.pick(&[1, 2, 4, 6]);
            c.elems = *g.pick(&[[2, 2, 2, 2, 2, 2, 2, 2], [5, 1, 1, 1, 1, 1, 1, 1], [1, 1, 1, 1, 4, 1, 4, 4], [0, 4, 4, 4, 0, 4, 0, 0]]);
            c.triples = *g.pick(&[0, 30, 70, 100]);
            c.subsel = *g.pick(&[0, 10, 30]);
            c.expr_depth = *g.pick(&[1, 1, 2]);
            c.builtins = 20;
        })
    };
    sentences(r, "dense in group elements", r.n(200_000, 4_000_000), cfg, stmt_or_update);
    near(r, "dense in group elements", r.n(60_000, 1_000_000), cfg, stmt, false);
    r.par("long groups", r.n(300, 3000), |_, g, st| {
        let mut c = Cfg::plain();
        c.elems = [2; 8];
        c.group_depth = 1;
        c.long = 80;
        c.maxlist = *g.pick(&[50, 130, 300]);
        c.budget = 1500;
        let (toks, t) = make(g, c, Entry::Ask);
        let s = calm_text(g, &toks, Entry::Ask);
        expect(st, Entry::Ask, &s, &t)
    });
}

// ---- C10

const EXPR: &[&str] = &[
    "?a", "1", "-2", "<u>", "\"s\"", "true", "(", ")", "!", "+", "-", "*", "/", "=", "!=", "<", ">", "<=", ">=", "&&", "||", "IN", "NOT", ",", "()",
];
fn c10(r: &mut Run) {
    r.rule = "a case is a distinct text; all short token strings inside brackets, all operator sequences between operands under several spacings, plus sentences dense in expressions; the tree must be the grammar's derivation".into();
    sweep(r, Sweep {
        name: "expression tokens",
        entry: Entry::Ask,
        frames: &[("ASK { FILTER (", ") }")],
        alphabet: &["?a", "1", "-2", "<u>", "true", "(", ")", "!", "+", "-", "*", "=", "<", ">=", "&&", "||", "IN", "NOT", ",", "()"],
        lo: 1,
        hi: 4,
        rej: false,
    });
    let ops: &[&str] = &["||", "&&", "=", "!=", "<", ">", "<=", ">=", "+", "-", "*", "/", "-3", "+4.5", "IN ( 1 , ?x )", "NOT IN ()", "NOT IN ( ?y , 2 )", "IN ()"];
    let operands: &[&str] = &["?a", "1", "-2", "+1.5", "<u>", "x:y", "true", "\"s\"", "\"t\" @en", "( ?b )", "( ?b || 1 )", "! ?c", "- ?d", "+ ( 1 )", "STR ( ?e )", "<f> ( 1 )", "COUNT ( * )", "EXISTS { }"];
    let hi = if r.thorough { 4 } else { 3 };
    let per = total(ops.len(), 1, hi);
    let frames: &[(&str, &str)] = &[("ASK { FILTER (", ") }"), ("SELECT (", "AS ?v ) { }"), ("ASK { BIND (", "AS ?v ) }"), ("ASK { FILTER <f> (", ") }"), ("ASK { } HAVING (", ")"), ("ASK { } ORDER BY DESC (", ")"), ("ASK { FILTER IF ( 1 ,", ", 2 ) }")];
    let reps = 8;
    r.par(&format!("operator sequences of up to {} of {} operators between operands", hi, ops.len()), per * reps, |i, g, st| {
        let mut ix = vec![];
        nth(ops.len(), 1, i / reps, &mut ix);
        let (a, b) = frames[g.below(frames.len())];
        let mut s = String::from(a);
        s.push(' ');
        s.push_str(g.pick(operands));
        for x in &ix {
            let op = ops[*x];
            s.push(' ');
            s.push_str(op);
            if !op.starts_with(|c: char| c.is_ascii_alphabetic()) && !op.ends_with(|c: char| c.is_ascii_digit()) {
                s.push(' ');
                s.push_str(g.pick(operands));
            }
        }
        s.push(' ');
        s.push_str(b);
        let t = toks(&s);
        let lay = LAYS[(i % reps % 4) as usize];
        let text = render(g, &t, lay, Case::Random, false);
        agree(st, Entry::Stmt, &text, true)
    });
    let cfg = |g: &mut Rng| {
        focus(g, |g, c| {
            c.expr_depth = *g.pick(&[2, 3, 5, 7]);
            c.builtins = *g.pick(&[0, 10, 25]);
            c.elems = [0, 1, 0, 0, 0, 5, 3, 0];
            c.triples = 10;
            c.mods = *g.pick(&[0, 40]);
            c.budget = *g.pick(&[30, 60, 120]);
        })
    };
    sentences(r, "dense in expressions", r.n(200_000, 4_000_000), cfg, stmt);
    near(r, "dense in expressions", r.n(60_000, 1_000_000), cfg, stmt, false);
}

// ---- C11

fn c11(r: &mut Run) {
    r.rule = "a case is a distinct text; every built-in, aggregate and function call with every argument list of a family and every arity, in every place a call may stand, every pair nested, plus sentences dense in calls; wrong arities must not be accepted".into();
    let mut names: Vec<String> = BUILTINS.iter().map(|b| b.0.to_string()).collect();
    names.extend(AGGREGATES.iter().map(|s| s.to_string()));
    names.extend(["EXISTS", "NOT EXISTS", "NOT", "<f>", "x:f", "TRUE", "STRLENGTH", "SEPARATOR", "MEDIAN"].map(String::from));
    let args: &[&str] = &[
        "()", "( )", "( ?v )", "( 1 )", "( ?v , 2 )", "( 1 , \"b\" , ?c )", "( 1 , 2 , 3 , 4 )", "( 1 , 2 , 3 , 4 , 5 )", "( * )", "( DISTINCT ?v )",
        "( DISTINCT * )", "( DISTINCT 1 , 2 )", "( ?v ; SEPARATOR = \",\" )", "( DISTINCT ?v ; SEPARATOR = '' )", "( ?v ; SEPARATOR = \"a\" @en )", "( ?v ; )",
        "( ?v ; SEPARATOR = 1 )", "{ }", "{ ?a ?b ?c }", "", "( ( ?v ) )", "( ?v + 1 )", "( , )", "( ?v , )", "( 1 2 )", "( $w )", "( <u> )", "( \"s\" )",
        "( DISTINCT )", "( REDUCED ?v )", "[]", "( ?v AS ?w )", "( true )", "( -1 )", "( ?a && ?b , ! ?c )", "( IF ( 1 , 2 , 3 ) )", "( * , 1 )", "( 1 , * )",
        "( DISTINCT ( ?v ) )", "( DISTINCT ( ?v ) , ?w )", "( ?v ; SEPARATOR \",\" )", "( 1 , 2 ; SEPARATOR = \",\" )", "( <f> ( ) )", "( EXISTS { } )",
    ];
    let frames: &[(&str, &str)] = &[
        ("ASK { FILTER", "}"), ("ASK { FILTER (", ") }"), ("SELECT (", "AS ?x ) { }"), ("ASK { BIND (", "AS ?x ) }"), ("ASK { } GROUP BY", ""), ("ASK { } HAVING", ""),
        ("ASK { } ORDER BY", ""), ("ASK { FILTER ( 1 + ", "* 2 ) }"), ("ASK { FILTER ( ?q IN (", ", 2 ) ) }"), ("ASK { FILTER ( !", ") }"), ("ASK { } ORDER BY ASC (", ")"),
        ("ASK { FILTER COALESCE (", ", ?z ) }"),
    ];
    let n = (names.len() * args.len() * frames.len()) as u64;
    r.par(&format!("{} names x {} argument lists x {} places", names.len(), args.len(), frames.len()), n, |i, g, st| {
        let i = i as usize;
        let (a, b) = frames[i % frames.len()];
        let ar = args[i / frames.len() % args.len()];
        let nm = &names[i / frames.len() / args.len()];
        let s = format!("{} {} {} {}", a, nm, ar, b);
        let t = toks(&s);
        for lay in [Lay::Min, Lay::Space, Lay::Mix] {
            let text = render(g, &t, lay, Case::Random, false);
            if let Some(v) = agree(st, Entry::Stmt, &text, true) {
                return Some(v);
            }
        }
        None
    });
    // every call nested in every argument position of every call
    let calls: Vec<String> = BUILTINS
        .iter()
        .flat_map(|(n, s)| match s {
            Shape::Var => vec![format!("{} ( ?v )", n)],
            Shape::List => vec![format!("{} ()", n), format!("{} ( @ )", n), format!("{} ( @ , @ , 3 )", n)],
            Shape::Args(lo, hi) => (*lo..=*hi)
                .map(|c| if c == 0 { format!("{} ()", n) } else { format!("{} ( {} )", n, vec!["@"; c].join(" , ")) })
                .collect(),
        })
        .chain(AGGREGATES.iter().map(|n| format!("{} ( DISTINCT @ )", n)))
        .chain(["COUNT ( * )", "COUNT ( DISTINCT * )", "GROUP_CONCAT ( @ ; SEPARATOR = \"x\" )", "EXISTS { FILTER ( @ ) }", "NOT EXISTS { }", "<f> ( @ , @ )", "<f> ( DISTINCT @ )", "<f> ()", "( @ )", "! @", "- @"].map(String::from))
        .collect();
    let k = calls.len();
    r.par(&format!("all {} calls nested in all argument positions of each other", k), (k * k) as u64, |i, g, st| {
        let (o, n) = (&calls[i as usize / k], calls[i as usize % k].replace('@', "?n"));
        let slots = o.matches('@').count();
        for sl in 0..slots.max(1) {
            let mut s = String::from("ASK { FILTER ( ");
            let mut c = 0;
            for w in o.split(' ') {
                if w == "@" {
                    if c == sl {
                        s.push_str(&n)
                    } else {
                        s.push_str(&format!("?a{}", c))
                    }
                    c += 1;
                } else {
                    s.push_str(w)
                }
                s.push(' ');
            }
            s.push_str(") }");
            let t = toks(&s);
            let lay = *g.pick(&LAYS);
            let text = render(g, &t, lay, Case::Random, false);
            if let Some(v) = agree(st, Entry::Ask, &text, true) {
                return Some(v);
            }
        }
        None
    });
    sweep(r, Sweep {
        name: "aggregate arguments",
        entry: Entry::Ask,
        frames: &[("ASK { FILTER COUNT (", ") }"), ("ASK { FILTER GROUP_CONCAT (", ") }"), ("ASK { FILTER SUM (", ") }"), ("ASK { FILTER <f> (", ") }")],
        alphabet: &["DISTINCT", "*", "?v", "1", ",", ";", "SEPARATOR", "=", "\",\"", "(", ")"],
        lo: 0,
        hi: if r.thorough { 6 } else { 4 },
        rej: true,
    });
    let cfg = |g: &mut Rng| {
        focus(g, |g, c| {
            c.expr_depth = *g.pick(&[2, 4, 6]);
            c.builtins = 80;
            c.elems = [0, 1, 0, 0, 0, 5, 3, 0];
            c.triples = 10;
            c.mods = *g.pick(&[0, 50]);
        })
    };
    sentences(r, "dense in calls", r.n(150_000, 3_000_000), cfg, stmt);
    near(r, "dense in calls", r.n(60_000, 1_000_000), cfg, stmt, true);
}

// ---- C12

const FRAME: &[&str] = &[
    "SELECT", "DISTINCT", "REDUCED", "*", "?v", "( 1 AS ?e )", "FROM", "NAMED", "<u>", "x:y", "WHERE", "{ }", "{ ?s ?p ?o }", "BASE", "PREFIX", "x:", "CONSTRUCT",
    "DESCRIBE", "ASK", "VALUES ?v { 1 }", "LIMIT 1",
];
fn c12(r: &mut Run) {
    r.rule = "a case is a distinct text; all short sequences of frame tokens after each form's keyword, plus sentences with every combination of prologue, form, projection, datasets and trailing VALUES".into();
    sweep(r, Sweep {
        name: "frames",
        entry: Entry::Stmt,
        frames: &[("", "")],
        alphabet: FRAME,
        lo: 1,
        hi: if r.thorough { 5 } else { 4 },
        rej: false,
    });
    sweep(r, Sweep {
        name: "after a form keyword",
        entry: Entry::Stmt,
        frames: &[("SELECT", "{ ?s ?p ?o }"), ("SELECT DISTINCT", "WHERE { }"), ("DESCRIBE", ""), ("DESCRIBE <u>", "{ }"), ("ASK", "{ }"), ("CONSTRUCT", "{ ?s ?p ?o }"), ("CONSTRUCT { ?s ?p ?o }", "WHERE { }"), ("CONSTRUCT", "WHERE { ?s ?p ?o }")],
        alphabet: &["FROM <u>", "FROM NAMED x:y", "FROM", "NAMED", "?v", "$w", "( ?x AS ?e )", "( 1 + 2 AS ?e )", "*", "<u>", "x:y", "DISTINCT", "REDUCED", "WHERE", "{ }", ":"],
        lo: 0,
        hi: if r.thorough { 4 } else { 3 },
        rej: false,
    });
    sweep(r, Sweep {
        name: "prologues",
        entry: Entry::Stmt,
        frames: &[("", "ASK { }"), ("PREFIX x: <u>", "SELECT * { } VALUES ?v { }")],
        alphabet: &["BASE <u>", "BASE <>", "PREFIX x: <v>", "PREFIX : <w>", "PREFIX a.b: <>", "PREFIX", "BASE", "<u>", "x:"],
        lo: 0,
        hi: if r.thorough { 6 } else { 5 },
        rej: false,
    });
    let cfg = |g: &mut Rng| {
        focus(g, |g, c| {
            c.frame = *g.pick(&[40, 80, 100]);
            c.mods = *g.pick(&[0, 20, 60]);
            c.expr_depth = 2;
            c.elems = [0, 1, 0, 0, 0, 1, 0, 1];
            c.forms = *g.pick(&[[1, 1, 1, 1], [1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0]]);
            c.subsel = *g.pick(&[0, 0, 40]);
            c.names = *g.pick(&[0, 30]);
        })
    };
    sentences(r, "all frames", r.n(200_000, 4_000_000), cfg, stmt);
    near(r, "frames", r.n(80_000, 1_500_000), cfg, stmt, false);
    r.par("all optional parts present or absent", r.n(40_000, 400_000), |i, g, st| {
        // prologue, datasets, where, modifiers, values: every subset, each form
        let bits = i as usize;
        let mut c = Cfg::plain();
        c.frame = 0;
        c.budget = 60;
        c.expr_depth = 1;
        c.forms = [0; 4];
        c.forms[bits & 3] = 1;
        let mut q = Gen::new(g, c);
        let on = |q: &mut Gen, b: usize| q.c.frame = if bits >> b & 1 == 1 { 100 } else { 0 };
        on(&mut q, 2);
        let p = q.prologue();
        on(&mut q, 3);
        q.c.mods = if bits >> 4 & 1 == 1 { 50 } else { 0 };
        q.c.triples = if bits >> 5 & 1 == 1 { 100 } else { 0 };
        let x = q.query();
        q.c.frame = if bits >> 6 & 1 == 1 { 200 } else { 0 };
        let v = q.values_opt();
        let t = n("stmt", vec![p, x, v]);
        let toks = std::mem::take(&mut q.t);
        let s = calm_text(g, &toks, Entry::Stmt);
        expect(st, Entry::Stmt, &s, &t)
    });
}

// ---- C13

const MODS: &[&str] = &[
    "GROUP BY", "HAVING", "ORDER BY", "LIMIT", "OFFSET", "1", "?x", "( ?y )", "( ?y AS ?z )", "ASC ( ?a )", "DESC ( ?d )", "STR ( ?s )", "<f> ( )", "VALUES ?v { }", "ASC ?x", "GROUP", "BY",
];
fn c13(r: &mut Run) {
    r.rule = "a case is a distinct text; all short sequences of modifier parts after every query form and in sub-selects (invalid orders must not be accepted), plus sentences with every combination of modifiers and 64-bit limits".into();
    let forms: &[(&str, &str)] = &[
        ("SELECT * { }", ""), ("ASK { }", ""), ("DESCRIBE <u>", ""), ("DESCRIBE * WHERE { }", ""), ("CONSTRUCT { } { }", ""), ("CONSTRUCT WHERE { }", ""), ("ASK { { SELECT * { }", "} }"),
    ];
    sweep(r, Sweep {
        name: "modifiers",
        entry: Entry::Stmt,
        frames: forms,
        alphabet: &["GROUP BY", "HAVING", "ORDER BY", "LIMIT 1", "OFFSET 2", "?x", "( ?y )", "( ?y AS ?z )", "ASC ( ?a )", "DESC ( ?d )", "STR ( ?s )", "<f> ( )"],
        lo: 0,
        hi: if r.thorough { 5 } else { 4 },
        rej: true,
    });
    sweep(r, Sweep {
        name: "whole clauses",
        entry: Entry::Stmt,
        frames: forms,
        alphabet: &["GROUP BY ?g", "HAVING ( ?h )", "ORDER BY ?o", "LIMIT 10", "OFFSET 20", "VALUES ?v { }", "GROUP BY ( 1 AS ?z ) ?q", "ORDER BY DESC ( ?d ) ASC ( 1 ) ?z"],
        lo: 0,
        hi: if r.thorough { 6 } else { 5 },
        rej: true,
    });
    sweep(r, Sweep {
        name: "limit and offset tokens",
        entry: Entry::Stmt,
        frames: &[("SELECT * { }", ""), ("ASK { } ORDER BY ?x", "VALUES ?v { }")],
        alphabet: &["LIMIT", "OFFSET", "0", "1", "18446744073709551615", "007", "-1", "+2", "1.5", "1e2", "\"1\"", "?x"],
        lo: 1,
        hi: if r.thorough { 5 } else { 4 },
        rej: true,
    });
    let cfg = |g: &mut Rng| {
        focus(g, |g, c| {
            c.mods = *g.pick(&[50, 80, 100]);
            c.expr_depth = *g.pick(&[0, 1, 3]);
            c.elems = [0, 1, 0, 0, 0, 1, 0, 0];
            c.subsel = *g.pick(&[0, 50]);
            c.group_depth = 2;
            c.triples = 30;
            c.forms = [1, 1, 1, 1];
        })
    };
    sentences(r, "dense in modifiers", r.n(200_000, 4_000_000), cfg, stmt);
    near(r, "dense in modifiers", r.n(80_000, 1_500_000), cfg, stmt, true);
}

// ---- C14

fn c14(r: &mut Run) {
    r.rule = "a case is a distinct text; all short token strings inside VALUES blocks (inline, trailing, in sub-selects), plus sentences dense in VALUES; the tree must hold every row and value in place".into();
    let al: &[&str] = &["(", ")", "()", "{", "}", "?v", "$w", "UNDEF", "1", "-1.5", "\"s\"", "\"t\" @en", "\"t\" ^^ x:y", "<u>", "x:y", "true"];
    sweep(r, Sweep {
        name: "data blocks",
        entry: Entry::Stmt,
        frames: &[("ASK { VALUES", "}"), ("ASK { } VALUES", ""), ("ASK { { SELECT * { } VALUES", "} }")],
        alphabet: al,
        lo: 1,
        hi: if r.thorough { 5 } else { 4 },
        rej: false,
    });
    sweep(r, Sweep {
        name: "rows",
        entry: Entry::Stmt,
        frames: &[("ASK { VALUES ( ?a ?b ) {", "} }"), ("SELECT * { } VALUES ( ?a ) {", "}"), ("ASK { VALUES () {", "} }"), ("ASK { VALUES ( ?a ?b ?c ) { ( 1 2 3 )", "} }")],
        alphabet: &["(", ")", "()", "UNDEF", "1", "\"s\"", "<u>", "true"],
        lo: 0,
        hi: if r.thorough { 7 } else { 5 },
        rej: false,
    });
    sweep(r, Sweep {
        name: "single column",
        entry: Entry::Stmt,
        frames: &[("ASK { VALUES ?a {", "} }"), ("ASK { } VALUES $a {", "}")],
        alphabet: &["UNDEF", "1", "-1", "\"s\"", "\"s\" @en", "<u>", "x:y", "true", "false", "1.5e3", "'' ^^ <t>", ":"],
        lo: 0,
        hi: if r.thorough { 5 } else { 4 },
        rej: false,
    });
    let cfg = |g: &mut Rng| {
        focus(g, |g, c| {
            c.elems = [0, 1, 0, 0, 0, 0, 0, 8];
            c.frame = *g.pick(&[20, 200]);
            c.triples = 20;
            c.mods = *g.pick(&[0, 20]);
            c.expr_depth = 1;
            c.names = *g.pick(&[0, 30]);
            c.strings = *g.pick(&[0, 30]);
            c.numbers = *g.pick(&[0, 50]);
            c.subsel = *g.pick(&[0, 30]);
        })
    };
    sentences(r, "dense in VALUES", r.n(200_000, 4_000_000), cfg, stmt);
    near(r, "dense in VALUES", r.n(80_000, 1_500_000), cfg, stmt, false);
    r.par("all table shapes", r.n(8000, 60_000), |i, g, st| {
        let (cols, rows) = (i as usize % 40, i as usize / 40 % 50);
        let pre = *g.pick(&["ASK { VALUES ", "ASK { } VALUES ", "SELECT * { } LIMIT 1 VALUES "]);
        let mut q = Gen::new(g, Cfg::plain());
        let mut vars = vec![];
        q.t.extend(toks(pre));
        q.p("(");
        for _ in 0..cols {
            vars.push(q.var());
        }
        q.p(")");
        q.p("{");
        for _ in 0..rows {
            q.p("(");
            for _ in 0..cols {
                q.dval();
            }
            q.p(")");
        }
        q.p("}");
        if pre.starts_with("ASK { V") {
            q.p("}");
        }
        let t = std::mem::take(&mut q.t);
        let s = calm_text(g, &t, Entry::Stmt);
        agree(st, Entry::Stmt, &s, false)
    });
}

// ---- C15

const UPDATE: &[&str] = &[
    "LOAD", "SILENT", "<u>", "x:y", "INTO", "GRAPH", "CLEAR", "DROP", "CREATE", "ADD", "MOVE", "COPY", "TO", "DEFAULT", "NAMED", "ALL", "INSERT", "DELETE", "DATA", "WHERE", "WITH", "USING", "{ }",
    "{ ?s ?p ?o }", ";", "PREFIX x: <u>",
];
fn c15(r: &mut Run) {
    r.rule = "a case is a distinct text; all short sequences of update tokens and of the tail of each operation (missing or extra parts must not be accepted), plus generated update sequences of all twelve operations".into();
    sweep(r, Sweep { name: "update tokens", entry: Entry::Update, frames: &[("", "")], alphabet: UPDATE, lo: 0, hi: if r.thorough { 5 } else { 4 }, rej: true });
    sweep(r, Sweep {
        name: "graph management",
        entry: Entry::Update,
        frames: &[("LOAD", ""), ("CLEAR", ""), ("DROP", ""), ("CREATE", ""), ("ADD", ""), ("MOVE", ""), ("COPY", "")],
        alphabet: &["SILENT", "<u>", "x:y", "INTO", "GRAPH", "TO", "DEFAULT", "NAMED", "ALL", ";"],
        lo: 0,
        hi: if r.thorough { 6 } else { 5 },
        rej: true,
    });
    sweep(r, Sweep {
        name: "modify",
        entry: Entry::Update,
        frames: &[("", "{ }"), ("WITH <g>", "WHERE { ?a ?b ?c }"), ("DELETE { ?s ?p ?o }", "WHERE { }"), ("INSERT DATA { } ;", "")],
        alphabet: &["INSERT", "DELETE", "{ }", "{ ?s ?p ?o . }", "WHERE", "USING <u>", "USING NAMED x:y", "WITH <w>", "DATA", ";", "USING"],
        lo: 0,
        hi: if r.thorough { 6 } else { 4 },
        rej: true,
    });
    sweep(r, Sweep {
        name: "quads",
        entry: Entry::Update,
        frames: &[("INSERT DATA {", "}"), ("DELETE {", "} WHERE { }"), ("DELETE WHERE {", "}")],
        alphabet: &["?s ?p ?o", ".", "GRAPH <g> { }", "GRAPH ?g { ?a ?b ?c }", "GRAPH x:g { ?a ?b ?c . }", "GRAPH", "{ }", ";", "<u>"],
        lo: 0,
        hi: if r.thorough { 6 } else { 4 },
        rej: true,
    });
    sweep(r, Sweep {
        name: "sequences of whole operations",
        entry: Entry::Update,
        frames: &[("", "")],
        alphabet: &["LOAD SILENT <u> INTO GRAPH <g>", "CLEAR ALL", "DROP SILENT GRAPH <g>", "CREATE GRAPH <g>", "ADD DEFAULT TO <g>", "MOVE <a> TO DEFAULT", "COPY GRAPH <a> TO GRAPH <b>",
            "INSERT DATA { ?s ?p ?o }", "DELETE DATA { }", "DELETE WHERE { GRAPH <g> { } }", "WITH <g> DELETE { } INSERT { } USING <u> WHERE { }", "INSERT { } WHERE { ?s ?p ?o }", ";", "PREFIX x: <u>", "BASE <b>"],
        lo: 0,
        hi: if r.thorough { 5 } else { 4 },
        rej: true,
    });
    let cfg = |g: &mut Rng| {
        focus(g, |g, c| {
            c.triples = *g.pick(&[20, 60, 100]);
            c.frame = *g.pick(&[0, 30, 80]);
            c.expr_depth = 1;
            c.budget = *g.pick(&[10, 40, 120]);
        })
    };
    sentences(r, "updates", r.n(200_000, 4_000_000), cfg, |_| Entry::Update);
    near(r, "updates", r.n(120_000, 2_500_000), cfg, |_| Entry::Update, true);
}

// ---- C16

const ATOMS: &[&str] = &[
    "", " ", "\t", "\n", "\r", "\r\n", "  \t ", "\n\n\n", " #\n", "#c\n", "#c\r", " # } ) ] . ; , \"\n", "#<u> ?v 'x'\r\n", "#a\n#b\n", " \n # é日\u{1F600}\u{10a}\n\t", "#\\\n", "#\n#\n", "# SELECT * {}\n", "\t#\t\n ", "##\r\n",
];
const NO_LAYOUT_ASCII: &[char] = &['\u{b}', '\u{c}', '\0', '\u{1c}', '\u{1d}', '\u{1e}', '\u{1f}', '\u{8}', '\u{7f}'];
const NO_LAYOUT: &[char] = &[
    '\u{b}', '\u{c}', '\0', '\u{1c}', '\u{1d}', '\u{1e}', '\u{1f}', '\u{7f}', '\u{85}', '\u{a0}', '\u{ad}', '\u{180e}', '\u{1680}', '\u{2000}', '\u{2003}', '\u{2009}',
    '\u{200a}', '\u{200b}', '\u{200c}', '\u{200d}', '\u{2028}', '\u{2029}', '\u{202f}', '\u{205f}', '\u{2060}', '\u{3000}', '\u{feff}', '\u{fffe}', '\u{e0020}', ';', '!', '%',
];

fn c16(r: &mut Run) {
    r.rule = "a case is a distinct rendering of a generated token sequence; each gap takes each layout atom while the rest stays, then all gaps are mixed; the tree must be the generator's whatever the layout".into();
    let small = |g: &mut Rng| {
        let mut c = Cfg::general();
        c.names = 2;
        c.strings = 5;
        c.numbers = 5;
        c.frame = 50;
        c.mods = 40;
        c.budget = *g.pick(&[6, 12, 25]);
        c.elems = [2; 8];
        c
    };
    let corpus = small_corpus();
    r.par(&format!("{} small sentences, each gap, each layout atom, then the same one everywhere, and characters that are no layout", corpus.len()), corpus.len() as u64, |i, g, st| {
        let (e, toks, t) = &corpus[i as usize];
        for gap in 0..=toks.len() {
            for at in ATOMS {
                for base in [Lay::Space, Lay::Min] {
                    if !gap_takes(toks, gap, at) {
                        continue;
                    }
                    let s = render_gap(g, toks, base, gap, at);
                    if let Some(v) = expect(st, *e, &s, t) {
                        return Some(v);
                    }
                    st.count("gap/atom pairs");
                }
            }
            for ch in NO_LAYOUT.iter().chain(NO_LAYOUT_ASCII) {
                for x in [format!("{}", ch), format!(" {}", ch), format!("{} ", ch), format!("\n{}\n", ch), format!("#c\n{}", ch)] {
                    let s = render_gap(g, toks, Lay::Space, gap, &x);
                    if let Some(v) = agree(st, *e, &s, true) {
                        return Some(v);
                    }
                    st.count("gap/character pairs");
                }
            }
        }
        for a in ATOMS {
            for b in ATOMS {
                if a.is_empty() || b.is_empty() {
                    continue;
                }
                let mut s = String::new();
                for (j, x) in toks.iter().enumerate() {
                    s.push_str(if j % 2 == 0 { a } else { b });
                    s.push_str(&x.s);
                }
                if let Some(v) = expect(st, *e, &s, t) {
                    return Some(v);
                }
            }
        }
        None
    });
    r.par("nested templates in all layouts, and each gap with some atom", r.n(90_000, 400_000), |_, g, st| {
        let (e, toks, t) = match crate::compose::random(g, 4) {
            Some(x) => x,
            None => return None,
        };
        for lay in LAYS {
            let mut s = render(g, &toks, lay, Case::Upper, leads(e));
            let tl = tail(g, lay, toks.last());
            s.push_str(&tl);
            if let Some(v) = expect(st, e, &s, &t) {
                return Some(v);
            }
        }
        for gap in 0..=toks.len() {
            let at = *g.pick(ATOMS);
            if !gap_takes(&toks, gap, at) {
                continue;
            }
            let base = if at.is_empty() { Lay::Space } else { *g.pick(&[Lay::Min, Lay::Space]) };
            let s = render_gap(g, &toks, base, gap, at);
            if let Some(v) = expect(st, e, &s, &t) {
                return Some(v);
            }
            st.count("gap/atom pairs");
        }
        None
    });
    r.par("each gap, each layout atom", r.n(1800, 60_000), |i, g, st| {
        let e = if i < 64 { ENTRIES[i as usize % 8] } else { any_entry(g) };
        let c = small(g);
        let (toks, t) = make(g, c, e);
        let m = toks.len();
        for gap in 0..=m {
            if gap == 0 && !leads(e) {
                continue;
            }
            for at in ATOMS {
                if !gap_takes(&toks, gap, at) {
                    continue;
                }
                let base = if g.one_in(8) && !at.is_empty() { Lay::Min } else { Lay::Space };
                let s = render_gap(g, &toks, base, gap, at);
                if let Some(v) = expect(st, e, &s, &t) {
                    return Some(v);
                }
                st.count("gap/atom pairs");
            }
        }
        None
    });
    r.par("all layouts of one token sequence", r.n(40_000, 800_000), |_, g, st| {
        let e = any_entry(g);
        let c = small(g);
        let (toks, t) = make(g, c, e);
        for lay in LAYS {
            let mut s = render(g, &toks, lay, Case::Upper, leads(e));
            let tl = tail(g, lay, toks.last());
            s.push_str(&tl);
            if let Some(v) = expect(st, e, &s, &t) {
                return Some(v);
            }
        }
        None
    });
    r.par("comments at the end of the text", r.n(30_000, 300_000), |_, g, st| {
        let e = any_entry(g);
        let mut c = small(g);
        c.budget = 6;
        let (toks, t) = make(g, c, e);
        let base = render(g, &toks, Lay::Space, Case::Upper, false);
        for x in [" # c", "\n#", " #}", " # \u{1F600}", " #\n#", "\n# a\n# b", " #\r", " # c\r\n", " ##", "\t# <\"'"] {
            if !gap_takes(&toks, toks.len(), x) {
                continue;
            }
            if let Some(v) = expect(st, e, &format!("{}{}", base, x), &t) {
                return Some(v);
            }
        }
        None
    });
    r.par("comment contents", r.n(40_000, 500_000), |_, g, st| {
        let e = any_entry(g);
        let mut c = small(g);
        c.budget = 8;
        let (toks, t) = make(g, c, e);
        let gap = g.below(toks.len() + 1);
        if gap == 0 && !leads(e) {
            return None;
        }
        let mut body = String::from(" #");
        for _ in 0..g.below(20) {
            let ch = mutate::any_char(g);
            if ch != '\n' && ch != '\r' {
                body.push(ch);
            }
        }
        body.push_str(g.pick(&["\n", "\r", "\r\n"]));
        // codepoint escapes are not judged
        if body.contains("\\u") || body.contains("\\U") {
            return None;
        }
        let s = render_gap(g, &toks, Lay::Space, gap, &body);
        expect(st, e, &s, &t)
    });
    let openers: &[&str] = &[
        "\"\"\"", "\'\'\'", "\"", "\'", "<", ">", "{", "}", "(", ")", "[", "]", "/*", "*/", "<!--", "-->", "\\", "##", "\"\"\" .", "{{", "}}", ". }", "} .", ";", ",", "//", "--", "%", "@", "^^", "?", "$", ":", "_:", "\"\"", "end", "#}",
        "PREFIX x: <u>", "SELECT", "ASK", "WHERE {", "FILTER", "FILTER(", "UNION", "OPTIONAL {", "BASE <b>", "LIMIT 1", "VALUES", "\u{85}", "\u{2028}", "\u{2029}", "\u{b}", "\u{c}", "\0", "\t", "\u{feff}", "é", "日",
    ];
    r.par("comments made of pieces of the text they stand in", r.n(150_000, 2_000_000), |_, g, st| {
        let (e, toks, t) = match g.below(4) {
            0 => match crate::compose::random(g, 4) {
                Some(x) => x,
                None => return None,
            },
            1 => g.pick(&corpus).clone(),
            k => {
                let e = any_entry(g);
                let mut c = small(g);
                c.strings = if k == 2 { 80 } else { 20 };
                c.names = 30;
                let (toks, t) = make(g, c, e);
                (e, toks, t)
            }
        };
        if toks.is_empty() {
            return None;
        }
        for _ in 0..4 {
            let gaps: Vec<usize> = (0..if g.coin() { 1 } else { g.range(2, 4) }).map(|_| g.below(toks.len() + 1)).collect();
            let mut s = String::new();
            for j in 0..=toks.len() {
                if gaps.contains(&j) && (j > 0 || leads(e)) && gap_takes(&toks, j, " #\n") {
                    let mut body = String::new();
                    for _ in 0..g.range(1, 3) {
                        match g.below(4) {
                            0 => body.push_str(&g.pick(&toks).s),
                            1 => {
                                let x = &g.pick(&toks).s;
                                let k = g.range(1, 3);
                                body.extend(if g.coin() { x.chars().take(k).collect::<String>() } else { x.chars().rev().take(k).collect::<String>() }.chars());
                            }
                            2 => {
                                let a = g.below(toks.len());
                                for x in toks[a..].iter().take(g.range(2, 5)) {
                                    body.push_str(&x.s);
                                    body.push(' ');
                                }
                            }
                            _ => body.push_str(g.pick(openers)),
                        }
                        if g.coin() {
                            body.push(' ');
                        }
                    }
                    let body = body.replace(|c| c == '\n' || c == '\r', "");
                    if body.contains("\\u") || body.contains("\\U") {
                        return None;
                    }
                    s.push_str(g.pick(&[" ", "\n", "\t"]));
                    s.push('#');
                    s.push_str(g.pick(&["", " ", "#"]));
                    s.push_str(&body);
                    s.push_str(g.pick(&["\n", "\r", "\r\n"]));
                    st.count("comments made of pieces of the text");
                } else if j > 0 && j < toks.len() {
                    s.push(' ');
                }
                if j < toks.len() {
                    s.push_str(&toks[j].s);
                }
            }
            if let Some(v) = expect(st, e, &s, &t) {
                return Some(v);
            }
        }
        None
    });
    r.par("characters that are no layout", r.n(4000, 100_000), |i, g, st| {
        let e = if i < 64 { ENTRIES[i as usize % 8] } else { any_entry(g) };
        let mut c = small(g);
        c.budget = 8;
        let (toks, _) = make(g, c, e);
        for gap in 0..=toks.len() {
            for k in 0..3 {
                let ch = if k < 2 { *g.pick(NO_LAYOUT) } else { *g.pick(NO_LAYOUT_ASCII) };
                let x = match g.below(6) {
                    0 => format!("{}", ch),
                    1 => format!(" {}", ch),
                    2 => format!("{} ", ch),
                    3 => format!("\n{}\n", ch),
                    4 => format!(" #c\n{}", ch),
                    _ => format!(" {}{} ", ch, ch),
                };
                let s = render_gap(g, &toks, Lay::Space, gap, &x);
                if let Some(v) = agree(st, e, &s, true) {
                    return Some(v);
                }
                st.count("gap/character pairs");
            }
        }
        None
    });
    r.par("long layout", r.n(8000, 80_000), |_, g, st| {
        let e = any_entry(g);
        let mut c = small(g);
        c.budget = 8;
        let (toks, t) = make(g, c, e);
        let gap = g.below(toks.len() + 1);
        if gap == 0 && !leads(e) {
            return None;
        }
        let k = match g.below(20) {
            0 => *g.pick(&[10_001usize, 65_535, 65_536, 65_537]),
            1..=6 => *g.pick(&[255usize, 256, 257, 511, 513, 1000, 1024, 1025, 2049, 4097]),
            _ => g.range(1, 300),
        };
        let mut x = if g.coin() {
            g.pick(&[" ", "\n", "\t", " #c\n", "\r\n", "#\r", "\r"]).repeat(k)
        } else {
            format!("#{}{}", g.pick(&["a", "#", "é", " ", "{", "\"", "<", "1", "?"]).repeat(k), g.pick(&["\n", "\r", "\r\n"]))
        };
        if g.one_in(3) {
            x.push_str(g.pick(&[" ", "\n", "#c\n"]));
        }
        if !gap_takes(&toks, gap, &x) {
            return None;
        }
        let s = render_gap(g, &toks, Lay::Space, gap, &x);
        st.max("layout characters in one gap", k as u64);
        expect(st, e, &s, &t)
    });
}

// ---- C17

fn c17(r: &mut Run) {
    r.rule = "a case is a distinct text; every keyword occurrence of generated sentences in every casing class and with single letters flipped, names and prefixes that look like keywords in every position, keywords run together with their neighbours, and 'A' for 'a'".into();
    let small = |g: &mut Rng| {
        let mut c = Cfg::general();
        c.names = 5;
        c.strings = 3;
        c.numbers = 3;
        c.frame = 60;
        c.mods = 50;
        c.builtins = 60;
        c.budget = *g.pick(&[6, 15, 40]);
        c.elems = [2; 8];
        c
    };
    let corpus = small_corpus();
    r.par(&format!("{} small sentences, the letters of each token, keyword or not", corpus.len()), corpus.len() as u64 * 2, |i, g, st| {
        let (e, toks, _) = &corpus[i as usize / 2];
        let lay = if i % 2 == 0 { Lay::Space } else { Lay::Min };
        for j in 0..toks.len() {
            let w = &toks[j].s;
            let mut forms = vec![w.to_uppercase(), w.to_lowercase()];
            for (k, c) in w.char_indices() {
                if c.is_ascii_alphabetic() {
                    let mut b = w.clone().into_bytes();
                    b[k] ^= 0x20;
                    forms.push(String::from_utf8(b).unwrap());
                }
            }
            forms.sort();
            forms.dedup();
            for f in forms {
                let mut x = toks.clone();
                x[j].s = f;
                // case by case, so the rest stays as it is written
                let s = render(g, &x, lay, Case::Upper, false);
                let y = render(g, &x.iter().map(|t| Tok { s: t.s.clone(), k: if t.k == TK::Kw { TK::A } else { t.k } }).collect::<Vec<_>>(), lay, Case::Upper, false);
                for s in [s, y] {
                    if let Some(v) = agree(st, *e, &s, true) {
                        return Some(v);
                    }
                }
                st.count("casings of single tokens");
            }
        }
        None
    });
    r.par("casings of each keyword occurrence", r.n(16_000, 300_000), |i, g, st| {
        let e = if i < 64 { ENTRIES[i as usize % 8] } else { any_entry(g) };
        let c = small(g);
        let (toks, t) = make(g, c, e);
        for j in 0..toks.len() {
            if toks[j].k != TK::Kw {
                continue;
            }
            for case in CASES {
                let mut x = toks.clone();
                x[j].s = recase(g, &x[j].s, case);
                let s = render_raw(g, &x);
                if let Some(v) = expect(st, e, &s, &t) {
                    return Some(v);
                }
            }
            let flip = g.below(toks[j].s.len());
            let mut x = toks.clone();
            let mut b: Vec<char> = x[j].s.chars().collect();
            b[flip] = if b[flip].is_ascii_uppercase() { b[flip].to_ascii_lowercase() } else { b[flip].to_ascii_uppercase() };
            x[j].s = b.into_iter().collect();
            let s = render_raw(g, &x);
            if let Some(v) = expect(st, e, &s, &t) {
                return Some(v);
            }
            st.count("keyword occurrences");
        }
        None
    });
    r.par("casings of nested templates", r.n(250_000, 900_000), |_, g, st| {
        let (e, toks, t) = match crate::compose::random(g, 4) {
            Some(x) => x,
            None => return None,
        };
        for case in CASES {
            for lay in [Lay::Min, Lay::Space] {
                let s = render(g, &toks, lay, case, false);
                if let Some(v) = expect(st, e, &s, &t) {
                    return Some(v);
                }
            }
        }
        for _ in 0..3 {
            let j = g.below(toks.len().max(1));
            if toks.is_empty() || toks[j].k != TK::Kw {
                continue;
            }
            let mut x = toks.clone();
            x[j].s = recase(g, &x[j].s, Case::Random);
            let s = render_raw(g, &x);
            if let Some(v) = expect(st, e, &s, &t) {
                return Some(v);
            }
            st.count("keyword occurrences");
        }
        None
    });
    // each keyword, each letter flipped, in a sentence that uses it
    let uses = keyword_uses();
    for k in KEYWORDS {
        assert!(uses.iter().any(|(x, _, _)| x == k), "no use of {}", k);
    }
    r.par(&format!("{} keyword uses, every single-letter flip and 64 random casings", uses.len()), uses.len() as u64, |i, g, st| {
        let (k, a, b) = &uses[i as usize];
        let e = if a.starts_with("U:") { Entry::Update } else { Entry::Stmt };
        let a = a.trim_start_matches("U:");
        let base = parse(e, &format!("{} {} {}", a, k, b));
        let t = match base {
            Verdict::Accept(t) => t,
            _ => panic!("keyword use {} {} {} is no sentence", a, k, b),
        };
        let mut forms: Vec<String> = vec![k.to_string(), k.to_ascii_lowercase()];
        for j in 0..k.len() {
            for base in [k.to_string(), k.to_ascii_lowercase()] {
                let mut c: Vec<char> = base.chars().collect();
                c[j] = if c[j].is_ascii_uppercase() { c[j].to_ascii_lowercase() } else { c[j].to_ascii_uppercase() };
                forms.push(c.into_iter().collect());
            }
        }
        for _ in 0..64 {
            forms.push(recase(g, k, Case::Random));
        }
        for f in forms {
            let s = format!("{} {} {}", a, f, b);
            if let Some(v) = expect(st, e, &s, &t) {
                return Some(v);
            }
        }
        // look-alikes outside ASCII are other words
        for (x, y) in [('K', '\u{212a}'), ('k', '\u{212a}'), ('S', '\u{17f}'), ('s', '\u{17f}'), ('I', '\u{130}'), ('i', '\u{131}'), ('A', '\u{ff21}'), ('E', '\u{415}')] {
            for base in [k.to_string(), k.to_ascii_lowercase()] {
                if base.contains(x) {
                    let s = format!("{} {} {}", a, base.replacen(x, &y.to_string(), 1), b);
                    if let Some(v) = agree(st, e, &s, true) {
                        return Some(v);
                    }
                }
            }
        }
        None
    });
    keyword_letters(r);
    // a name that begins with the keyword stands where the keyword could, or swallows what follows
    let glued: &[&str] = &["Kx:y", "K:x", "K:", "K.x:y", "K_:b", "K-x:y", "Kx", "K1", "K\u{e9}:y", "K<u>", "K?v", "K\"s\"", "K_", "KK", "?K", "x:K", "1K", "1.5K", "1.K", "?xK", "aK", "K;", "K,", "K.", "K..", "K.1", "K-1", "K-", "KK:x"];
    r.par(&format!("{} keyword uses x {} run-together shapes x 3 continuations", uses.len(), glued.len()), (uses.len() * glued.len()) as u64, |i, g, st| {
        let i = i as usize;
        let (k, a, b) = &uses[i / glued.len()];
        let e = if a.starts_with("U:") { Entry::Update } else { Entry::Stmt };
        let a = a.trim_start_matches("U:");
        let k = if g.coin() { k.to_string() } else { recase(g, k, Case::Random) };
        let name = glued[i % glued.len()].replace('K', &k);
        let less = b.split_once(' ').map_or("", |x| x.1);
        for b in [b.as_str(), less, ""] {
            for (x, y) in [(" ", " "), ("", " "), (" ", ""), ("\n", "\t")] {
                let s = format!("{}{}{}{}{}", a, x, name, y, b);
                if let Some(v) = agree(st, e, &s, true) {
                    return Some(v);
                }
            }
        }
        None
    });
    r.par("two tokens of a generated text run together", r.n(60_000, 1_000_000), |_, g, st| {
        let e = any_entry(g);
        let c = small(g);
        let (mut toks, _) = make(g, c, e);
        if toks.len() < 2 {
            return None;
        }
        let i = g.below(toks.len() - 1);
        let b = toks.remove(i + 1);
        let mut k = toks[i].s.clone();
        if toks[i].k == TK::Kw && g.coin() {
            k = recase(g, &k, Case::Random);
        }
        toks[i].s = format!("{}{}", k, b.s);
        toks[i].k = b.k;
        let s = render(g, &toks, Lay::Space, Case::Upper, false);
        agree(st, e, &s, true)
    });
    // names that begin with, end with or are keywords
    let places: &[(&str, &str)] = &[
        ("ASK {", "?p ?o }"), ("ASK { ?s", "?o }"), ("ASK { ?s ?p", "}"), ("ASK { ?s ?p ?o .", "?q ?r }"), ("DESCRIBE", ""), ("DESCRIBE <u>", "{ }"), ("DESCRIBE <u>", ""),
        ("ASK { FILTER (", ") }"), ("ASK { FILTER ( 1 +", ") }"), ("ASK { FILTER", "( 1 ) }"), ("ASK { BIND (", "AS ?x ) }"), ("ASK { GRAPH", "{ } }"), ("ASK { SERVICE", "{ } }"),
        ("ASK { } GROUP BY", "( 1 )"), ("ASK { } ORDER BY", "( 1 )"), ("ASK { } HAVING", "( 1 )"), ("ASK { VALUES ?v {", "} }"), ("ASK FROM", "{ }"), ("ASK FROM NAMED", "{ }"),
        ("ASK { ?s <p> /", "?o }"), ("ASK { ?s !", "?o }"), ("ASK { ?s ?p [", "1 ] }"), ("ASK { ?s ?p (", ") }"), ("ASK { FILTER <f> (", ") }"), ("ASK { FILTER ( 1 IN (", ") ) }"),
        ("ASK { ?s ?p \"x\" ^^", "}"), ("ASK { FILTER COUNT (", ") }"), ("ASK { FILTER COUNT ( DISTINCT", ") }"), ("SELECT (", "AS ?v ) { }"), ("ASK { FILTER REGEX (", ", 1 ) }"),
        ("ASK { ?s a ;", "1 }"), ("ASK { { }", "?p ?o }"),
        ("U:LOAD", ""), ("U:LOAD <u> INTO GRAPH", ""), ("U:CLEAR GRAPH", ""), ("U:COPY", "TO DEFAULT"), ("U:COPY DEFAULT TO", ""), ("U:WITH", "DELETE { } WHERE { }"),
        ("U:INSERT { } USING", "WHERE { }"), ("U:INSERT DATA { GRAPH", "{ } }"), ("U:INSERT DATA {", "?p ?o }"),
    ];
    let shapes: &[&str] = &["K:x", "K:", "Kx:y", "K.x:y", "K-x:y", "K_:y", "K1:y", "x:K", ":K", "xK:y", "?K", "$K", "_:K", "<K>", "\"K\"", "K\u{e9}:y", "aK:z", "K:K"];
    let mut words: Vec<&str> = KEYWORDS.to_vec();
    words.extend(["a", "A", "sElEcT", "true", "not", "in"]);
    let cnt = (words.len() * shapes.len() * places.len()) as u64;
    r.par(&format!("{} keyword-like names x {} shapes x {} places", words.len(), shapes.len(), places.len()), cnt, |i, g, st| {
        let i = i as usize;
        let (a, b) = places[i % places.len()];
        let sh = shapes[i / places.len() % shapes.len()];
        let w = words[i / places.len() / shapes.len()];
        let w = if g.coin() { w.to_string() } else { recase(g, w, Case::Random) };
        let e = if a.starts_with("U:") { Entry::Update } else { Entry::Stmt };
        let name = sh.replace('K', &w);
        let glue = *g.pick(&[" ", "\n"]);
        let s = format!("{}{}{}{}{}", a.trim_start_matches("U:"), glue, name, if b.is_empty() { "" } else { glue }, b);
        agree(st, e, &s, true)
    });
    r.par("'A' for 'a'", r.n(60_000, 600_000), |_, g, st| {
        let e = any_entry(g);
        let mut c = small(g);
        c.triples = 100;
        c.paths = 60;
        let (mut toks, t) = make(g, c, e);
        let at: Vec<usize> = (0..toks.len()).filter(|i| toks[*i].k == TK::A).collect();
        if at.is_empty() {
            return None;
        }
        let s = render_raw(g, &toks);
        if let Some(v) = expect(st, e, &s, &t) {
            return Some(v);
        }
        let j = *g.pick(&at);
        toks[j].s = "A".into();
        let s = render_raw(g, &toks);
        agree(st, e, &s, true)
    });
    sentences(r, "letter case of names kept", r.n(40_000, 800_000), |g| {
        let mut c = texts_profile(g);
        c.names = 50;
        c
    }, any_entry);
}
/// keywords with one letter replaced, put in or left out
fn keyword_letters(r: &mut Run) {
    let uses = keyword_uses();
    let mut strange: Vec<char> = (0u8..128).map(|b| b as char).collect();
    strange.extend(['\u{80}', '\u{a0}', '\u{b7}', '\u{df}', '\u{e9}', '\u{130}', '\u{131}', '\u{17f}', '\u{301}', '\u{307}', '\u{3b9}', '\u{430}', '\u{435}', '\u{43e}', '\u{441}', '\u{200b}', '\u{200d}', '\u{2028}', '\u{212a}', '\u{feff}', '\u{1d400}']);
    r.par(&format!("{} keyword uses, every letter replaced by or next to each of {} characters", uses.len(), strange.len()), uses.len() as u64, |i, g, st| {
        let (k, a, b) = &uses[i as usize];
        let e = if a.starts_with("U:") { Entry::Update } else { Entry::Stmt };
        let a = a.trim_start_matches("U:");
        let k: Vec<char> = if g.coin() { k.to_string() } else { recase(g, k, Case::Random) }.chars().collect();
        for j in 0..=k.len() {
            let mut by = strange.clone();
            if j < k.len() {
                let c = k[j] as u32;
                by.extend([c + 0x80, c + 0x100, c + 0x2000, c + 0xfee0, c + 0x10000, c + 0x1d3ff].iter().filter_map(|c| char::from_u32(*c)));
            }
            for x in by {
                for put in [false, true] {
                    if !put && j == k.len() {
                        continue;
                    }
                    let w: String = k[..j].iter().chain(std::iter::once(&x)).chain(&k[if put { j } else { j + 1 }..]).collect();
                    let v = agree(st, e, &format!("{} {} {}", a, w, b), true);
                    if v.is_some() {
                        return v;
                    }
                }
            }
            if j < k.len() {
                let w: String = k[..j].iter().chain(&k[j + 1..]).collect();
                let v = agree(st, e, &format!("{} {} {}", a, w, b), true);
                if v.is_some() {
                    return v;
                }
            }
        }
        None
    });
}
/// keyword tokens as they are
fn render_raw(_: &mut Rng, t: &[Tok]) -> String {
    let mut s = String::new();
    for (i, x) in t.iter().enumerate() {
        if i > 0 {
            s.push(' ');
        }
        s.push_str(&x.s);
    }
    s
}
/// (keyword, text before, text after): sentences that use the keyword
fn keyword_uses() -> Vec<(&'static str, String, String)> {
    let mut v: Vec<(&'static str, String, String)> = vec![];
    let mut add = |k: &'static str, a: &str, b: &str| v.push((k, a.to_string(), b.to_string()));
    for (k, s) in BUILTINS {
        let args = match s {
            Shape::Var => "( ?v )".to_string(),
            Shape::List => "( 1 , 2 )".to_string(),
            Shape::Args(_, hi) => match hi {
                0 => "()".to_string(),
                h => format!("( {} )", vec!["1"; *h].join(" , ")),
            },
        };
        add(k, "ASK { FILTER", &format!("{} }}", args));
        add(k, "ASK { FILTER ( 1 +", &format!("{} ) }}", args));
        add(k, "ASK { } ORDER BY", &args);
        add(k, "ASK { } GROUP BY", &args);
    }
    for k in AGGREGATES {
        add(k, "SELECT (", "( ?x ) AS ?v ) { }");
        add(k, "ASK { } HAVING", "( DISTINCT ?x )");
    }
    for (k, a, b) in [
        ("BASE", "", "<u> ASK { }"), ("PREFIX", "", "x: <u> ASK { }"), ("SELECT", "", "* { }"), ("DISTINCT", "SELECT", "?v { }"), ("REDUCED", "SELECT", "* { }"),
        ("AS", "SELECT ( 1", "?v ) { }"), ("AS", "ASK { BIND ( 1", "?v ) }"), ("AS", "ASK { } GROUP BY ( 1", "?v )"), ("CONSTRUCT", "", "{ } { }"), ("CONSTRUCT", "", "WHERE { }"),
        ("WHERE", "ASK", "{ }"), ("WHERE", "CONSTRUCT", "{ }"), ("WHERE", "DESCRIBE *", "{ }"), ("WHERE", "U:DELETE", "{ }"), ("WHERE", "U:DELETE { }", "{ }"), ("DESCRIBE", "", "*"), ("ASK", "", "{ }"),
        ("FROM", "ASK", "<u> { }"), ("FROM", "DESCRIBE <x>", "NAMED <u>"), ("NAMED", "ASK FROM", "<u> { }"), ("NAMED", "U:CLEAR", ""), ("NAMED", "U:DELETE { } USING", "<u> WHERE { }"),
        ("GROUP", "ASK { }", "BY ?x"), ("BY", "ASK { } GROUP", "?x"), ("BY", "ASK { } ORDER", "?x"), ("HAVING", "ASK { }", "( 1 )"), ("ORDER", "ASK { }", "BY ?x"),
        ("ASC", "ASK { } ORDER BY", "( 1 )"), ("DESC", "ASK { } ORDER BY ?x", "( 1 )"), ("LIMIT", "ASK { }", "1"), ("OFFSET", "ASK { }", "1"), ("LIMIT", "ASK { } OFFSET 1", "2"), ("OFFSET", "ASK { } LIMIT 1", "2"),
        ("VALUES", "ASK { }", "?v { }"), ("VALUES", "ASK {", "?v { } }"), ("LOAD", "U:", "<u>"), ("SILENT", "U:LOAD", "<u>"), ("SILENT", "U:CLEAR", "ALL"), ("SILENT", "U:DROP", "ALL"), ("SILENT", "U:CREATE", "GRAPH <u>"),
        ("SILENT", "U:ADD", "<u> TO <v>"), ("SILENT", "U:MOVE", "<u> TO <v>"), ("SILENT", "U:COPY", "<u> TO <v>"), ("SILENT", "ASK { SERVICE", "<u> { } }"), ("INTO", "U:LOAD <u>", "GRAPH <v>"), ("CLEAR", "U:", "ALL"),
        ("DROP", "U:", "DEFAULT"), ("CREATE", "U:", "GRAPH <u>"), ("ADD", "U:", "<u> TO <v>"), ("MOVE", "U:", "<u> TO <v>"), ("COPY", "U:", "<u> TO <v>"), ("TO", "U:ADD <u>", "<v>"), ("TO", "U:MOVE DEFAULT", "DEFAULT"), ("TO", "U:COPY GRAPH <u>", "GRAPH <v>"),
        ("INSERT", "U:", "DATA { }"), ("INSERT", "U:", "{ } WHERE { }"), ("INSERT", "U:DELETE { }", "{ } WHERE { }"), ("DELETE", "U:", "DATA { }"), ("DELETE", "U:", "WHERE { }"), ("DELETE", "U:WITH <u>", "{ } WHERE { }"),
        ("DATA", "U:INSERT", "{ }"), ("DATA", "U:DELETE", "{ }"), ("WITH", "U:", "<u> DELETE { } WHERE { }"), ("USING", "U:INSERT { }", "<u> WHERE { }"), ("DEFAULT", "U:CLEAR", ""), ("DEFAULT", "U:COPY", "TO <u>"),
        ("ALL", "U:DROP", ""), ("GRAPH", "ASK {", "?g { } }"), ("GRAPH", "U:CLEAR", "<u>"), ("GRAPH", "U:INSERT DATA {", "<u> { } }"), ("OPTIONAL", "ASK {", "{ } }"), ("SERVICE", "ASK {", "?s { } }"),
        ("BIND", "ASK {", "( 1 AS ?v ) }"), ("UNDEF", "ASK { VALUES ?v {", "} }"), ("UNDEF", "ASK { } VALUES ( ?v ) { (", ") }"), ("MINUS", "ASK {", "{ } }"), ("UNION", "ASK { { }", "{ } }"), ("FILTER", "ASK {", "( 1 ) }"),
        ("IN", "ASK { FILTER ( 1", "() ) }"), ("IN", "ASK { FILTER ( 1 NOT", "( 1 ) ) }"), ("NOT", "ASK { FILTER ( 1", "IN () ) }"), ("NOT", "ASK { FILTER", "EXISTS { } }"), ("EXISTS", "ASK { FILTER", "{ } }"), ("EXISTS", "ASK { FILTER NOT", "{ } }"),
        ("SEPARATOR", "ASK { FILTER GROUP_CONCAT ( ?x ;", "= \"\" ) }"), ("TRUE", "ASK { ?s ?p", "}"), ("FALSE", "ASK { VALUES ?v {", "} }"), ("TRUE", "ASK { FILTER (", ") }"), ("FALSE", "ASK { FILTER ( !", ") }"),
        ("DISTINCT", "SELECT ( COUNT (", "* ) AS ?v ) { }"), ("DISTINCT", "ASK { FILTER <f> (", "1 ) }"), ("DISTINCT", "ASK { FILTER SUM (", "?x ) }"),
    ] {
        add(k, a, b);
    }
    v
}

