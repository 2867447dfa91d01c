//! Grammar-directed generator: produces a token sequence of a valid SPARQL 1.1 text and,
//! at the same time, the tree the library has to return for it.

use crate::chars::*;
use crate::lex::KEYWORDS;
use crate::refp::{number_tree, Entry, Shape, AGGREGATES, BUILTINS};
use crate::rng::Rng;
use crate::tree::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum TK {
    Kw,
    A,
    Iri,
    Pname,
    Pns,
    Bnode,
    Var,
    Str,
    Lang,
    Num,
    P,
    /// `?` `*` `+` after a path element
    Mod,
    /// `()` or `[]`
    Pair,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Tok {
    pub s: String,
    pub k: TK,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    /// percentages: how often an atom of that sort is drawn from the wide distribution
    pub names: usize,
    pub strings: usize,
    pub numbers: usize,
    /// how often a verb is a composite path
    pub paths: usize,
    /// depth limits
    pub expr_depth: usize,
    pub group_depth: usize,
    pub node_depth: usize,
    pub path_depth: usize,
    /// percentage of lists that get a long tail
    pub long: usize,
    pub maxlist: usize,
    /// soft cap on tokens
    pub budget: usize,
    /// weights of group elements: union optional minus graph service filter bind values
    pub elems: [usize; 8],
    /// percentage of groups that start with triples
    pub triples: usize,
    /// weights of query forms: select construct describe ask
    pub forms: [usize; 4],
    /// percentage of having each solution modifier
    pub mods: usize,
    /// percentage of built-in calls among primaries
    pub builtins: usize,
    /// percentage of subselects among groups
    pub subsel: usize,
    /// percentage of composite nodes
    pub nodes: usize,
    /// percentage of statements with a trailing VALUES / prologue
    pub frame: usize,
}

impl Cfg {
    pub fn general() -> Cfg {
        Cfg {
            names: 25,
            strings: 30,
            numbers: 30,
            paths: 35,
            expr_depth: 4,
            group_depth: 3,
            node_depth: 3,
            path_depth: 3,
            long: 2,
            maxlist: 30,
            budget: 160,
            elems: [2, 2, 1, 2, 2, 3, 2, 2],
            triples: 70,
            forms: [5, 2, 2, 2],
            mods: 30,
            builtins: 35,
            subsel: 10,
            nodes: 15,
            frame: 30,
        }
    }
    pub fn plain() -> Cfg {
        Cfg {
            names: 0,
            strings: 0,
            numbers: 0,
            paths: 0,
            expr_depth: 1,
            group_depth: 1,
            node_depth: 0,
            path_depth: 1,
            long: 0,
            maxlist: 10,
            budget: 60,
            elems: [0, 0, 0, 0, 0, 1, 0, 0],
            triples: 80,
            forms: [2, 1, 1, 2],
            mods: 0,
            builtins: 10,
            subsel: 0,
            nodes: 0,
            frame: 5,
        }
    }
}

pub struct Gen<'r> {
    pub r: &'r mut Rng,
    pub t: Vec<Tok>,
    pub c: Cfg,
}

impl<'r> Gen<'r> {
    pub fn new(r: &'r mut Rng, c: Cfg) -> Gen<'r> {
        Gen { r, t: vec![], c }
    }

    // ---- token emission
    pub fn kw(&mut self, s: &str) {
        self.t.push(Tok { s: s.to_string(), k: TK::Kw })
    }
    pub fn p(&mut self, s: &str) {
        self.t.push(Tok { s: s.to_string(), k: TK::P })
    }
    fn tok(&mut self, k: TK, s: String) {
        self.t.push(Tok { s, k })
    }
    fn pair(&mut self, open: char, close: char) {
        let mut s = String::new();
        s.push(open);
        for _ in 0..[0, 0, 0, 0, 1, 2, 5][self.r.below(7)] {
            s.push(*self.r.pick(&[' ', '\t', '\n', '\r']));
        }
        s.push(close);
        self.tok(TK::Pair, s)
    }
    fn full(&self) -> bool {
        self.t.len() > self.c.budget
    }
    /// list length >= lo
    fn len(&mut self, lo: usize) -> usize {
        if self.full() {
            return lo;
        }
        if self.r.pct(self.c.long) {
            return lo.max(self.r.range(4, self.c.maxlist.max(4)));
        }
        lo + [0, 0, 0, 1, 1, 2, 3][self.r.below(7)]
    }
    fn wide(&mut self, pct: usize) -> bool {
        self.r.pct(pct)
    }
    fn weighted(&mut self, w: &[usize]) -> usize {
        let sum: usize = w.iter().sum();
        let mut x = self.r.below(sum.max(1));
        for (i, k) in w.iter().enumerate() {
            if x < *k {
                return i;
            }
            x -= k;
        }
        0
    }

    // ---- atoms

    fn ident_len(&mut self) -> usize {
        match self.r.below(200) {
            0..=39 => 1,
            40..=159 => self.r.range(2, 8),
            160..=185 => self.r.range(9, 40),
            186..=195 => self.r.range(41, 140),
            _ => *self.r.pick(&[63, 64, 65, 127, 128, 129, 255, 256, 257, 300]),
        }
    }
    /// a code point satisfying `ok`
    fn code_point(&mut self, ok: fn(char) -> bool) -> char {
        for _ in 0..1000 {
            let c = match self.r.below(20) {
                0..=9 => self.r.range(0x21, 0x7e) as u32,
                10..=13 => *self.r.pick(INTERESTING) as u32,
                14 => *self.r.pick(INNER) as u32,
                15 => self.r.range(0x80, 0x2ff) as u32,
                16..=17 => self.r.range(0x300, 0xffff) as u32,
                _ => self.r.range(0x10000, 0x10ffff) as u32,
            };
            if let Some(c) = char::from_u32(c) {
                if ok(c) {
                    return c;
                }
            }
        }
        'q'
    }
    fn ident(&mut self, first: fn(char) -> bool, rest: fn(char) -> bool, dots: bool) -> String {
        let n = self.ident_len();
        let mut s = String::new();
        s.push(self.code_point(first));
        for i in 1..n {
            if dots && i + 1 < n && self.r.one_in(8) {
                s.push('.')
            } else {
                let c = self.code_point(rest);
                s.push(c)
            }
        }
        s
    }
    fn simple_name(&mut self) -> String {
        const W: &[&str] = &["x", "y", "s", "p", "o", "name", "v1", "foo_bar", "knows", "z9"];
        self.r.pick(W).to_string()
    }
    pub fn prefix_name(&mut self) -> String {
        if self.r.pct(20) {
            return String::new();
        }
        if !self.wide(self.c.names) {
            return self.r.pick(&["foaf", "ex", "rdf", "dc", "xsd"]).to_string();
        }
        if self.r.one_in(3) {
            // a keyword, or something beginning with or containing one
            let k = if self.r.one_in(8) {
                "a".to_string()
            } else {
                self.r.pick(KEYWORDS).to_string()
            };
            let k = match self.r.below(3) {
                0 => k.to_lowercase(),
                1 => k,
                _ => {
                    let mut c = k.to_lowercase();
                    if let Some(f) = c.get_mut(0..1) {
                        f.make_ascii_uppercase()
                    }
                    c
                }
            };
            return match self.r.below(4) {
                0 => format!("{}1", k),
                1 => format!("{}-x", k),
                2 => format!("{}.x", k),
                _ => k,
            };
        }
        self.ident(pn_chars_base, pn_chars, true)
    }
    pub fn local_name(&mut self) -> String {
        if !self.wide(self.c.names) {
            return self.simple_name();
        }
        let n = self.ident_len();
        let mut s = String::new();
        for i in 0..n {
            match self.r.below(24) {
                0 => {
                    const H: &[u8] = b"0123456789abcdefABCDEF";
                    s.push('%');
                    let (x, y) = (*self.r.pick(H), *self.r.pick(H));
                    s.push(x as char);
                    s.push(y as char);
                }
                1 => {
                    s.push('\\');
                    let e: Vec<char> = LOCAL_ESC.chars().collect();
                    s.push(*self.r.pick(&e));
                }
                2 => s.push(':'),
                3 if i > 0 && i + 1 < n => s.push('.'),
                4 => s.push((b'0' + self.r.below(10) as u8) as char),
                _ if i == 0 => s.push(self.code_point(pn_chars_u)),
                _ => s.push(self.code_point(pn_chars)),
            }
        }
        s
    }
    pub fn iri_content(&mut self) -> String {
        if !self.wide(self.c.names) {
            return self
                .r
                .pick(&["http://example.org/a", "u", "http://x.org/y#z", "urn:a:b"])
                .to_string();
        }
        let n = match self.r.below(12) {
            0 => 0,
            1..=9 => self.r.range(1, 30),
            _ => self.r.range(31, 400),
        };
        let mut s = String::new();
        for _ in 0..n {
            if self.r.one_in(6) {
                s.push(*self.r.pick(&['#', '/', '?', '&', '=', '%', '\'', '(', ')', ';', ',', '.', ':', '[', ']', '*', '+', '-', '$', '@', '!', '~', '_', '\u{7f}', '\u{80}', '\u{a0}', '\u{2028}', '\u{e000}', '\u{10ffff}', '\u{120}', '\u{110}', '\u{100}', '\u{200}', '\u{3000}']))
            } else {
                s.push(self.code_point(iriref_char))
            }
        }
        s
    }
    pub fn iri(&mut self) -> T {
        match self.r.below(10) {
            0..=4 => {
                let c = self.iri_content();
                self.tok(TK::Iri, format!("<{}>", c));
                n("iri", vec![a(c)])
            }
            5..=8 => {
                let (p, l) = (self.prefix_name(), self.local_name());
                self.tok(TK::Pname, format!("{}:{}", p, l));
                n("pname", vec![a(p), a(l)])
            }
            _ => {
                let p = self.prefix_name();
                self.tok(TK::Pns, format!("{}:", p));
                n("pns", vec![a(p)])
            }
        }
    }
    pub fn var(&mut self) -> T {
        let s = if self.wide(self.c.names) {
            self.ident(varname_start, varname_rest, false)
        } else {
            self.simple_name()
        };
        if self.r.one_in(4) {
            self.tok(TK::Var, format!("${}", s));
            n("dvar", vec![a(s)])
        } else {
            self.tok(TK::Var, format!("?{}", s));
            n("qvar", vec![a(s)])
        }
    }
    pub fn var_or_iri(&mut self) -> T {
        if self.r.coin() {
            self.var()
        } else {
            self.iri()
        }
    }
    pub fn string_tok(&mut self) -> String {
        let q = if self.r.coin() { '"' } else { '\'' };
        let other = if q == '"' { '\'' } else { '"' };
        if !self.wide(self.c.strings) {
            let w = self.r.pick(&["a", "hello", "x y", ""]).to_string();
            self.tok(TK::Str, format!("{}{}{}", q, w, q));
            return w;
        }
        let long = self.r.one_in(3);
        let n = match self.r.below(20) {
            0..=1 => 0,
            2..=14 => self.r.range(1, 12),
            15..=18 => self.r.range(13, 80),
            _ => *self.r.pick(&[127, 128, 255, 256, 257, 500, 1023, 1024, 1025]),
        };
        let mut s = String::new();
        let mut quotes = 0; // run of unescaped quotes at the end of s
        let mut bs = false; // s ends in an escaped backslash
        for _ in 0..n {
            let mut was_bs = false;
            match self.r.below(12) {
                0..=1 => {
                    let e: Vec<char> = ECHAR.chars().collect();
                    let e = *self.r.pick(&e);
                    s.push('\\');
                    s.push(e);
                    was_bs = e == '\\';
                    quotes = 0;
                }
                2 if long && quotes < 2 => {
                    s.push(q);
                    quotes += 1;
                    bs = false;
                    continue;
                }
                3 if long => {
                    s.push(*self.r.pick(&['\n', '\r', '\t']));
                    quotes = 0;
                }
                4 => {
                    s.push(other);
                    quotes = 0;
                }
                5 => {
                    s.push(*self.r.pick(&['#', '<', '>', '{', '}', '?', '@', '^', '.', ';', ',', ' ', '\t', '(', ')', '\u{0}', '\u{1}', '\u{7f}', '\u{85}', '\u{2028}', '\u{10ffff}', '\u{e000}', '\u{feff}', '\u{141}', '\u{15c}', '\u{122}', '\u{127}']));
                    quotes = 0;
                }
                _ => {
                    let c = self.code_point(|c| c != '"' && c != '\'' && c != '\\');
                    if bs && (c == 'u' || c == 'U') {
                        s.push('v')
                    } else {
                        s.push(c)
                    }
                    quotes = 0;
                }
            }
            bs = was_bs;
        }
        if quotes > 0 {
            s.push('e');
        }
        let d = if long { q.to_string().repeat(3) } else { q.to_string() };
        self.tok(TK::Str, format!("{}{}{}", d, s, d));
        s
    }
    pub fn lang_tag(&mut self) -> T {
        let mut s = String::new();
        if self.wide(self.c.strings) {
            let al = |r: &mut Rng| (if r.coin() { b'a' } else { b'A' } + r.below(26) as u8) as char;
            for _ in 0..self.r.range(1, 9) {
                s.push(al(self.r));
            }
            for _ in 0..[0, 0, 1, 1, 2, 3, 7][self.r.below(7)] {
                s.push('-');
                for _ in 0..self.r.range(1, 9) {
                    if self.r.one_in(3) {
                        s.push((b'0' + self.r.below(10) as u8) as char)
                    } else {
                        s.push(al(self.r))
                    }
                }
            }
        } else {
            s.push_str(self.r.pick(&["en", "fr", "en-US"]));
        }
        self.tok(TK::Lang, format!("@{}", s));
        n("lang", vec![a(s)])
    }
    pub fn literal(&mut self) -> T {
        let s = self.string_tok();
        let d = match self.r.below(4) {
            0 => self.lang_tag(),
            1 => {
                self.p("^^");
                let i = self.iri();
                n("type", vec![i])
            }
            _ => leaf("none"),
        };
        n("lit", vec![a(s), d])
    }
    fn digits(&mut self, lo: usize, hi: usize) -> String {
        let n = self.r.range(lo, hi);
        (0..n).map(|_| (b'0' + self.r.below(10) as u8) as char).collect()
    }
    /// unsigned numeric literal text and its kind
    pub fn number_text(&mut self) -> (String, char) {
        if !self.wide(self.c.numbers) {
            return match self.r.below(4) {
                0 => ("1.5".into(), 'd'),
                1 => ("2e3".into(), 'e'),
                _ => (self.r.below(100).to_string(), 'i'),
            };
        }
        match self.r.below(3) {
            0 => {
                let v: u64 = match self.r.below(6) {
                    0 => self.r.next() >> 1,
                    1 => (1u64 << self.r.below(63)).wrapping_add(self.r.below(3) as u64) - 1,
                    2 => 10u64.pow(self.r.below(19) as u32) + self.r.below(3) as u64 - 1,
                    3 => i64::MAX as u64 - self.r.below(3) as u64,
                    _ => self.r.below(100000) as u64,
                };
                let z = if self.r.one_in(8) { self.r.range(1, 25) } else { 0 };
                (format!("{}{}", "0".repeat(z), v), 'i')
            }
            1 => {
                let m = match self.r.below(4) {
                    0 => format!(".{}", self.digits(1, 12)),
                    1 => format!("{}.{}", self.digits(1, 30), self.digits(1, 30)),
                    2 => format!("{}.{}", self.digits(1, 3), "0".repeat(self.r.range(1, 30)) + &self.digits(1, 2)),
                    _ => format!("{}.{}", self.digits(1, 8), self.digits(1, 8)),
                };
                (m, 'd')
            }
            _ => {
                let m = match self.r.below(4) {
                    0 => self.digits(1, 12),
                    1 => format!("{}.", self.digits(1, 12)),
                    2 => format!(".{}", self.digits(1, 12)),
                    _ => format!("{}.{}", self.digits(1, 20), self.digits(1, 20)),
                };
                let e = match self.r.below(6) {
                    0 => self.digits(1, 4),
                    1 => self.r.pick(&["0", "00", "308", "309", "324", "9223372036854775807", "007"]).to_string(),
                    _ => self.r.below(40).to_string(),
                };
                (
                    format!(
                        "{}{}{}{}",
                        m,
                        self.r.pick(&["e", "E"]),
                        self.r.pick(&["", "+", "-"]),
                        e
                    ),
                    'e',
                )
            }
        }
    }
    fn number_with(&mut self, sign: &str) -> T {
        let (s, k) = self.number_text();
        let s = format!("{}{}", sign, s);
        let t = number_tree(&s, k).expect("generated number in range");
        self.tok(TK::Num, s);
        t
    }
    pub fn number(&mut self) -> T {
        let s = ["", "", "+", "-"][self.r.below(4)];
        if s == "-" && self.r.pct(self.c.numbers) && self.r.one_in(20) {
            self.tok(TK::Num, i64::MIN.to_string());
            return n("int", vec![a(i64::MIN.to_string())]);
        }
        self.number_with(s)
    }
    pub fn signed_number(&mut self) -> T {
        let s = ["+", "-"][self.r.below(2)];
        self.number_with(s)
    }
    pub fn boolean(&mut self) -> T {
        let b = self.r.coin();
        self.kw(if b { "true" } else { "false" });
        n("bool", vec![flag(b)])
    }
    pub fn bnode(&mut self) -> T {
        if self.r.one_in(3) {
            self.pair('[', ']');
            return leaf("anon");
        }
        let s = if self.wide(self.c.names) {
            self.ident(varname_start, pn_chars, true)
        } else {
            self.simple_name()
        };
        self.tok(TK::Bnode, format!("_:{}", s));
        n("bn", vec![a(s)])
    }
    pub fn var_or_term(&mut self) -> T {
        match self.r.below(12) {
            0..=3 => self.var(),
            4..=6 => self.iri(),
            7..=8 => self.literal(),
            9 => self.number(),
            10 => {
                if self.r.coin() {
                    self.boolean()
                } else {
                    self.pair('(', ')');
                    leaf("nil")
                }
            }
            _ => self.bnode(),
        }
    }

    // ---- triples

    pub fn node(&mut self, path: bool, depth: usize) -> T {
        if depth > 0 && !self.full() && self.r.pct(self.c.nodes) {
            self.triples_node(path, depth)
        } else {
            self.var_or_term()
        }
    }
    pub fn triples_node(&mut self, path: bool, depth: usize) -> T {
        let d = depth.saturating_sub(1);
        if self.r.coin() {
            self.p("(");
            let k = (0..self.len(1)).map(|_| self.node(path, d)).collect();
            self.p(")");
            n("coll", k)
        } else {
            self.p("[");
            let pl = self.pl(path, d);
            self.p("]");
            n("bnpl", vec![pl])
        }
    }
    fn semis(&mut self) -> usize {
        if self.r.one_in(12) {
            self.r.range(2, 5)
        } else {
            1
        }
    }
    pub fn verb(&mut self, path: bool) -> T {
        if path {
            if self.r.one_in(3) {
                self.var()
            } else {
                let d = if self.r.pct(self.c.paths) { self.c.path_depth } else { 0 };
                self.path(d)
            }
        } else {
            match self.r.below(4) {
                0 => {
                    self.tok(TK::A, "a".into());
                    leaf("a")
                }
                1 => self.var(),
                _ => self.iri(),
            }
        }
    }
    pub fn objects(&mut self, path: bool, depth: usize) -> T {
        let mut k = vec![];
        for i in 0..self.len(1) {
            if i > 0 {
                self.p(",");
            }
            k.push(self.node(path, depth));
        }
        n("ol", k)
    }
    pub fn pl(&mut self, path: bool, depth: usize) -> T {
        let mut k = vec![];
        for i in 0..self.len(1) {
            if i > 0 {
                for _ in 0..self.semis() {
                    self.p(";");
                }
            }
            let v = self.verb(path);
            let o = self.objects(path && i == 0, depth);
            k.push(n("vl", vec![v, o]));
        }
        if self.r.one_in(6) {
            for _ in 0..self.semis() {
                self.p(";");
            }
        }
        n("pl", k)
    }
    pub fn tss(&mut self, path: bool) -> T {
        let d = self.c.node_depth;
        if d > 0 && self.r.pct(self.c.nodes) {
            let t = self.triples_node(path, d);
            let p = if self.r.coin() { Some(self.pl(path, d)) } else { None };
            n("sn", vec![t, opt(p)])
        } else {
            let v = self.var_or_term();
            let p = self.pl(path, d);
            n("st", vec![v, p])
        }
    }
    /// triples, dot-separated; "tb" in groups, "tt" in templates
    pub fn triples(&mut self, path: bool) -> T {
        let mut k = vec![];
        for i in 0..self.len(1) {
            if i > 0 {
                self.p(".");
            }
            k.push(self.tss(path));
        }
        if self.r.one_in(3) {
            self.p(".");
        }
        n(if path { "tb" } else { "tt" }, k)
    }

    // ---- paths

    pub fn path(&mut self, depth: usize) -> T {
        let alts = if depth == 0 { 1 } else { self.len(1) };
        let mut k = vec![];
        for i in 0..alts {
            if i > 0 {
                self.p("|");
            }
            let m = if depth == 0 { 1 } else { self.len(1) };
            let mut seq = vec![];
            for j in 0..m {
                if j > 0 {
                    self.p("/");
                }
                let inv = depth > 0 && self.r.one_in(5);
                if inv {
                    self.p("^");
                }
                let e = self.path_elt(depth);
                seq.push(n(if inv { "pinv" } else { "pe" }, vec![e]));
            }
            k.push(n("pseq", seq));
        }
        n("palt", k)
    }
    fn path_elt(&mut self, depth: usize) -> T {
        let sel = if depth == 0 || self.full() { self.r.below(4) } else { self.r.below(8) };
        let prim = match sel {
            0..=2 => self.iri(),
            3..=4 => {
                self.tok(TK::A, "a".into());
                leaf("a")
            }
            5 => {
                self.p("!");
                if self.r.one_in(8) {
                    self.pair('(', ')');
                    n("neg", vec![])
                } else if self.r.coin() {
                    let o = self.one_in_set();
                    n("neg", vec![o])
                } else {
                    self.p("(");
                    let mut k = vec![];
                    for i in 0..self.len(1) {
                        if i > 0 {
                            self.p("|");
                        }
                        k.push(self.one_in_set());
                    }
                    self.p(")");
                    n("neg", k)
                }
            }
            _ => {
                self.p("(");
                let p = self.path(depth - 1);
                self.p(")");
                n("pbr", vec![p])
            }
        };
        let m = if depth == 0 { 3 } else { self.r.below(6) };
        let m = match m {
            0 => "?",
            1 => "*",
            2 => "+",
            _ => "-",
        };
        if m != "-" {
            self.tok(TK::Mod, m.into());
        }
        n("elt", vec![prim, a(m)])
    }
    fn one_in_set(&mut self) -> T {
        let inv = self.r.one_in(3);
        if inv {
            self.p("^");
        }
        let x = if self.r.one_in(3) {
            self.tok(TK::A, "a".into());
            leaf("a")
        } else {
            self.iri()
        };
        if inv {
            n("inv", vec![x])
        } else {
            x
        }
    }

    // ---- groups

    pub fn group(&mut self, depth: usize) -> T {
        if depth > 0 && !self.full() && self.r.pct(self.c.subsel) {
            self.p("{");
            let s = self.selclause();
            let w = self.where_clause(depth - 1);
            let m = self.modifier();
            let v = self.values_opt();
            self.p("}");
            return n("subsel", vec![s, w, m, v]);
        }
        self.p("{");
        let mut k = vec![];
        let has = self.r.pct(self.c.triples);
        k.push(opt(if has { Some(self.triples(true)) } else { None }));
        let elems = if self.full() { 0 } else { self.len(0) };
        for _ in 0..elems {
            let el = self.element(depth);
            k.push(el);
        }
        self.p("}");
        n("group", k)
    }
    fn element(&mut self, depth: usize) -> T {
        let mut w = self.c.elems;
        if depth == 0 || self.full() {
            for i in 0..5 {
                w[i] = 0;
            }
            if w.iter().sum::<usize>() == 0 {
                w[5] = 1;
            }
        }
        let kind = self.weighted(&w);
        let p = self.pattern(kind, depth);
        if self.r.one_in(3) {
            self.p(".");
        }
        let t = if self.r.pct(self.c.triples / 2) { Some(self.triples(true)) } else { None };
        n("el", vec![p, opt(t)])
    }
    pub fn pattern(&mut self, kind: usize, depth: usize) -> T {
        let d = depth.saturating_sub(1);
        match kind {
            0 => {
                let mut k = vec![];
                for i in 0..self.len(1) {
                    if i > 0 {
                        self.kw("UNION");
                    }
                    k.push(self.group(d));
                }
                n("union", k)
            }
            1 => {
                self.kw("OPTIONAL");
                let g = self.group(d);
                n("optional", vec![g])
            }
            2 => {
                self.kw("MINUS");
                let g = self.group(d);
                n("minus", vec![g])
            }
            3 => {
                self.kw("GRAPH");
                let v = self.var_or_iri();
                let g = self.group(d);
                n("graph", vec![v, g])
            }
            4 => {
                self.kw("SERVICE");
                let s = self.r.coin();
                if s {
                    self.kw("SILENT");
                }
                let v = self.var_or_iri();
                let g = self.group(d);
                n("service", vec![flag(s), v, g])
            }
            5 => {
                self.kw("FILTER");
                let c = self.constraint();
                n("filter", vec![c])
            }
            6 => {
                self.kw("BIND");
                self.p("(");
                let e = self.expr(self.c.expr_depth);
                self.kw("AS");
                let v = self.var();
                self.p(")");
                n("bind", vec![e, v])
            }
            _ => {
                self.kw("VALUES");
                let d = self.datablock();
                n("values", vec![d])
            }
        }
    }
    pub fn dval(&mut self) -> T {
        match self.r.below(6) {
            0 => {
                self.kw("UNDEF");
                leaf("undef")
            }
            1 => self.boolean(),
            2 => self.number(),
            3 => self.literal(),
            _ => self.iri(),
        }
    }
    pub fn datablock(&mut self) -> T {
        if self.r.coin() {
            let mut k = vec![self.var()];
            self.p("{");
            for _ in 0..self.len(0) {
                k.push(self.dval());
            }
            self.p("}");
            return n("v1", k);
        }
        let cols = self.len(0);
        let rows = self.len(0);
        let mut vars = vec![];
        if cols == 0 {
            self.pair('(', ')');
        } else {
            self.p("(");
            for _ in 0..cols {
                vars.push(self.var());
            }
            self.p(")");
        }
        let mut k = vec![n("vars", vars)];
        self.p("{");
        for _ in 0..rows {
            if cols == 0 {
                self.pair('(', ')');
                k.push(n("row", vec![]));
            } else {
                self.p("(");
                let row = (0..cols).map(|_| self.dval()).collect();
                self.p(")");
                k.push(n("row", row));
            }
        }
        self.p("}");
        n("vn", k)
    }
    pub fn values_opt(&mut self) -> T {
        if self.r.pct(self.c.frame / 2) {
            self.kw("VALUES");
            let d = self.datablock();
            opt(Some(d))
        } else {
            opt(None)
        }
    }
    pub fn where_clause(&mut self, depth: usize) -> T {
        if self.r.coin() {
            self.kw("WHERE");
        }
        self.group(depth)
    }

    // ---- expressions

    pub fn expr(&mut self, depth: usize) -> T {
        let chain = |g: &mut Self| if depth == 0 { 1 } else if g.r.one_in(4) { g.len(1) } else { 1 };
        let mut ors = vec![];
        for i in 0..chain(self) {
            if i > 0 {
                self.p("||");
            }
            let mut ands = vec![];
            for j in 0..chain(self) {
                if j > 0 {
                    self.p("&&");
                }
                ands.push(self.rel(depth));
            }
            ors.push(n("and", ands));
        }
        n("or", ors)
    }
    pub fn rel(&mut self, depth: usize) -> T {
        let l = self.additive(depth);
        let r = if depth > 0 && self.r.one_in(3) {
            Some(match self.r.below(8) {
                6 => {
                    self.kw("IN");
                    let e = self.elist(depth - 1);
                    n("in", vec![e])
                }
                7 => {
                    self.kw("NOT");
                    self.kw("IN");
                    let e = self.elist(depth - 1);
                    n("notin", vec![e])
                }
                i => {
                    let op = ["=", "!=", "<", ">", "<=", ">="][i];
                    self.p(op);
                    let x = self.additive(depth);
                    n(op, vec![x])
                }
            })
        } else {
            None
        };
        n("rel", vec![l, opt(r)])
    }
    pub fn elist(&mut self, depth: usize) -> T {
        let k = self.len(0);
        if k == 0 {
            self.pair('(', ')');
            return leaf("nil");
        }
        self.p("(");
        let mut v = vec![];
        for i in 0..k {
            if i > 0 {
                self.p(",");
            }
            v.push(self.expr(depth));
        }
        self.p(")");
        n("list", v)
    }
    fn additive(&mut self, depth: usize) -> T {
        let mut k = vec![self.multiplicative(depth)];
        if depth > 0 && self.r.one_in(3) {
            for _ in 0..self.len(1) {
                match self.r.below(3) {
                    0 => {
                        self.p("+");
                        let m = self.multiplicative(depth);
                        k.push(n("+", vec![m]));
                    }
                    1 => {
                        self.p("-");
                        let m = self.multiplicative(depth);
                        k.push(n("-", vec![m]));
                    }
                    _ => {
                        let mut m = vec![self.signed_number()];
                        self.mult_tail(depth, &mut m);
                        k.push(n("num", m));
                    }
                }
            }
        }
        n("add", k)
    }
    fn multiplicative(&mut self, depth: usize) -> T {
        let mut k = vec![self.unary(depth)];
        self.mult_tail(depth, &mut k);
        n("mul", k)
    }
    fn mult_tail(&mut self, depth: usize, k: &mut Vec<T>) {
        if depth > 0 && self.r.one_in(4) {
            for _ in 0..self.len(1) {
                let op = if self.r.coin() { "*" } else { "/" };
                self.p(op);
                let u = self.unary(depth);
                k.push(n(op, vec![u]));
            }
        }
    }
    fn unary(&mut self, depth: usize) -> T {
        let (name, op) = match self.r.below(10) {
            0 => ("u!", "!"),
            1 => ("u+", "+"),
            2 => ("u-", "-"),
            _ => ("u", ""),
        };
        if !op.is_empty() {
            self.p(op);
        }
        let p = self.primary(depth);
        n(name, vec![p])
    }
    pub fn primary(&mut self, depth: usize) -> T {
        if depth > 0 && !self.full() {
            if self.r.pct(self.c.builtins) {
                return self.builtin(depth - 1);
            }
            match self.r.below(8) {
                0 => {
                    self.p("(");
                    let e = self.expr(depth - 1);
                    self.p(")");
                    return n("br", vec![e]);
                }
                1 => {
                    let i = self.iri();
                    let x = self.args(depth - 1);
                    return n("iof", vec![i, opt(Some(x))]);
                }
                _ => {}
            }
        }
        match self.r.below(10) {
            0..=3 => self.var(),
            4..=5 => {
                let i = self.iri();
                n("iof", vec![i, opt(None)])
            }
            6 => self.literal(),
            7..=8 => self.number(),
            _ => self.boolean(),
        }
    }
    pub fn args(&mut self, depth: usize) -> T {
        let k = self.len(0);
        if k == 0 {
            self.pair('(', ')');
            return leaf("nil");
        }
        self.p("(");
        let d = self.r.one_in(4);
        if d {
            self.kw("DISTINCT");
        }
        let mut v = vec![flag(d)];
        for i in 0..k {
            if i > 0 {
                self.p(",");
            }
            v.push(self.expr(depth));
        }
        self.p(")");
        n("args", v)
    }
    pub fn fcall(&mut self, depth: usize) -> T {
        let i = self.iri();
        let x = self.args(depth);
        n("call", vec![i, x])
    }
    pub fn builtin(&mut self, depth: usize) -> T {
        let k = BUILTINS.len() + AGGREGATES.len() * 2 + 2;
        let w = self.r.below(k);
        self.builtin_no(w, depth, None)
    }
    /// the w-th built-in call
    pub fn builtin_no(&mut self, w: usize, depth: usize, arity: Option<usize>) -> T {
        if w >= BUILTINS.len() + AGGREGATES.len() * 2 {
            let not = w > BUILTINS.len() + AGGREGATES.len() * 2;
            if not {
                self.kw("NOT");
            }
            self.kw("EXISTS");
            let gd = self.c.group_depth.min(depth);
            let g = self.group(gd);
            return n("bi", vec![a(if not { "NOTEXISTS" } else { "EXISTS" }), g]);
        }
        if w >= BUILTINS.len() {
            let name = AGGREGATES[(w - BUILTINS.len()) % AGGREGATES.len()];
            self.kw(name);
            self.p("(");
            let d = self.r.one_in(3);
            if d {
                self.kw("DISTINCT");
            }
            let mut k = vec![a(name), flag(d)];
            if name == "COUNT" && self.r.coin() {
                self.p("*");
                k.push(leaf("all"));
            } else {
                k.push(self.expr(depth));
            }
            if name == "GROUP_CONCAT" {
                let mut sep = None;
                if self.r.coin() {
                    self.p(";");
                    self.kw("SEPARATOR");
                    self.p("=");
                    sep = Some(a(self.string_tok()));
                }
                k.push(opt(sep));
            }
            self.p(")");
            return n("agg", k);
        }
        let (name, shape) = BUILTINS[w];
        self.kw(name);
        let mut k = vec![a(name)];
        match shape {
            Shape::List => k.push(self.elist(depth)),
            Shape::Var => {
                self.p("(");
                k.push(self.var());
                self.p(")");
            }
            Shape::Args(lo, hi) => {
                let c = arity.unwrap_or_else(|| self.r.range(lo, hi));
                if c == 0 {
                    self.pair('(', ')');
                } else {
                    self.p("(");
                    for i in 0..c {
                        if i > 0 {
                            self.p(",");
                        }
                        k.push(self.expr(depth));
                    }
                    self.p(")");
                }
            }
        }
        n("bi", k)
    }
    pub fn constraint(&mut self) -> T {
        let d = self.c.expr_depth;
        match self.r.below(4) {
            0 | 1 => {
                self.p("(");
                let e = self.expr(d);
                self.p(")");
                n("c-br", vec![e])
            }
            2 => {
                let b = self.builtin(d.saturating_sub(1));
                n("c-bi", vec![b])
            }
            _ => {
                let f = self.fcall(d.saturating_sub(1));
                n("c-fn", vec![f])
            }
        }
    }

    // ---- queries

    pub fn selclause(&mut self) -> T {
        self.kw("SELECT");
        let m = match self.r.below(4) {
            0 => {
                self.kw("DISTINCT");
                "distinct"
            }
            1 => {
                self.kw("REDUCED");
                "reduced"
            }
            _ => "-",
        };
        if self.r.one_in(3) {
            self.p("*");
            return n("sel", vec![a(m), leaf("all")]);
        }
        let mut v = vec![];
        for _ in 0..self.len(1) {
            if self.r.one_in(3) {
                self.p("(");
                let e = self.expr(self.c.expr_depth);
                self.kw("AS");
                let x = self.var();
                self.p(")");
                v.push(n("as", vec![e, x]));
            } else {
                v.push(self.var());
            }
        }
        n("sel", vec![a(m), n("vars", v)])
    }
    pub fn source(&mut self) -> T {
        if self.r.coin() {
            self.kw("NAMED");
            let i = self.iri();
            n("named", vec![i])
        } else {
            let i = self.iri();
            n("default", vec![i])
        }
    }
    pub fn datasets(&mut self) -> T {
        let mut k = vec![];
        let c = if self.r.pct(self.c.frame) { self.len(1) } else { 0 };
        for _ in 0..c {
            self.kw("FROM");
            k.push(self.source());
        }
        n("ds", k)
    }
    pub fn group_cond(&mut self) -> T {
        let d = self.c.expr_depth;
        match self.r.below(4) {
            0 => self.var(),
            1 => self.builtin(d.saturating_sub(1)),
            2 => self.fcall(d.saturating_sub(1)),
            _ => {
                self.p("(");
                let e = self.expr(d);
                let v = if self.r.coin() {
                    self.kw("AS");
                    Some(self.var())
                } else {
                    None
                };
                self.p(")");
                n("asopt", vec![e, opt(v)])
            }
        }
    }
    pub fn order_cond(&mut self) -> T {
        match self.r.below(4) {
            0 => self.var(),
            1 => self.constraint(),
            i => {
                let (w, l) = if i == 2 { ("ASC", "asc") } else { ("DESC", "desc") };
                self.kw(w);
                self.p("(");
                let e = self.expr(self.c.expr_depth);
                self.p(")");
                n(l, vec![e])
            }
        }
    }
    fn limoff(&mut self, w: &str) -> T {
        self.kw(w);
        let v: u64 = match self.r.below(8) {
            0 => 0,
            1 => u64::MAX - self.r.below(3) as u64,
            2 => self.r.next(),
            3 => (1u64 << self.r.below(64)).wrapping_sub(self.r.below(2) as u64),
            _ => self.r.below(1000) as u64,
        };
        let z = if self.r.one_in(10) { self.r.range(1, 22) } else { 0 };
        self.tok(TK::Num, format!("{}{}", "0".repeat(z), v));
        a(v.to_string())
    }
    pub fn modifier(&mut self) -> T {
        let m = self.c.mods;
        let bits = (0..4).map(|i| if self.r.pct(m) { 1 << i } else { 0 }).sum();
        self.modifier_bits(bits)
    }
    /// bit 0 group, 1 having, 2 order, 3 limit/offset
    pub fn modifier_bits(&mut self, bits: usize) -> T {
        let mut g = None;
        let mut h = None;
        let mut o = None;
        let mut l = None;
        if bits & 1 != 0 {
            self.kw("GROUP");
            self.kw("BY");
            let k = (0..self.len(1)).map(|_| self.group_cond()).collect();
            g = Some(n("groupby", k));
        }
        if bits & 2 != 0 {
            self.kw("HAVING");
            let k = (0..self.len(1)).map(|_| self.constraint()).collect();
            h = Some(n("having", k));
        }
        if bits & 4 != 0 {
            self.kw("ORDER");
            self.kw("BY");
            let k = (0..self.len(1)).map(|_| self.order_cond()).collect();
            o = Some(n("orderby", k));
        }
        if bits & 8 != 0 {
            let (x, y, name) =
                if self.r.coin() { ("LIMIT", "OFFSET", "lo") } else { ("OFFSET", "LIMIT", "ol") };
            let p = self.limoff(x);
            let q = if self.r.coin() { Some(self.limoff(y)) } else { None };
            l = Some(n(name, vec![p, opt(q)]));
        }
        n("mod", vec![opt(g), opt(h), opt(o), opt(l)])
    }
    pub fn prologue(&mut self) -> T {
        let mut k = vec![];
        let c = if self.r.pct(self.c.frame) { self.len(1) } else { 0 };
        for _ in 0..c {
            if self.r.one_in(3) {
                self.kw("BASE");
                let i = self.iri_content();
                self.tok(TK::Iri, format!("<{}>", i));
                k.push(n("base", vec![a(i)]));
            } else {
                self.kw("PREFIX");
                let p = self.prefix_name();
                self.tok(TK::Pns, format!("{}:", p));
                let i = self.iri_content();
                self.tok(TK::Iri, format!("<{}>", i));
                k.push(n("prefix", vec![a(p), a(i)]));
            }
        }
        n("prologue", k)
    }
    pub fn query(&mut self) -> T {
        let w = self.c.forms;
        match self.weighted(&w) {
            0 => self.select(),
            1 => self.construct(),
            2 => self.describe(),
            _ => self.ask(),
        }
    }
    pub fn select(&mut self) -> T {
        let s = self.selclause();
        let d = self.datasets();
        let w = self.where_clause(self.c.group_depth);
        let m = self.modifier();
        n("select", vec![s, d, w, m])
    }
    pub fn ask(&mut self) -> T {
        self.kw("ASK");
        let d = self.datasets();
        let w = self.where_clause(self.c.group_depth);
        let m = self.modifier();
        n("ask", vec![d, w, m])
    }
    pub fn describe(&mut self) -> T {
        self.kw("DESCRIBE");
        let t = if self.r.one_in(3) {
            self.p("*");
            leaf("all")
        } else {
            let k = (0..self.len(1)).map(|_| self.var_or_iri()).collect();
            n("targets", k)
        };
        let d = self.datasets();
        let w = if self.r.coin() { Some(self.where_clause(self.c.group_depth)) } else { None };
        let m = self.modifier();
        n("describe", vec![t, d, opt(w), m])
    }
    pub fn construct(&mut self) -> T {
        self.kw("CONSTRUCT");
        if self.r.coin() {
            self.construct_long()
        } else {
            self.construct_short()
        }
    }
    pub fn construct_long(&mut self) -> T {
        self.p("{");
        let t = if self.r.one_in(6) { n("tt", vec![]) } else { self.triples(false) };
        self.p("}");
        let d = self.datasets();
        let w = self.where_clause(self.c.group_depth);
        let m = self.modifier();
        n("construct", vec![t, d, w, m])
    }
    pub fn construct_short(&mut self) -> T {
        let d = self.datasets();
        self.kw("WHERE");
        self.p("{");
        let t = if self.r.one_in(6) { None } else { Some(self.triples(false)) };
        self.p("}");
        let m = self.modifier();
        n("constructw", vec![d, opt(t), m])
    }
    pub fn stmt(&mut self) -> T {
        let p = self.prologue();
        let q = self.query();
        let v = self.values_opt();
        n("stmt", vec![p, q, v])
    }
    pub fn entry(&mut self, e: Entry) -> T {
        match e {
            Entry::Stmt => self.stmt(),
            Entry::Query => self.query(),
            Entry::Ask => self.ask(),
            Entry::Describe => self.describe(),
            Entry::Construct => self.construct(),
            Entry::SubConstruct => self.construct_long(),
            Entry::SubTriples => self.construct_short(),
            Entry::Update => {
                let c = self.len(1);
                self.update(c)
            }
        }
    }

    // ---- updates

    pub fn update(&mut self, stmts: usize) -> T {
        let p = self.prologue();
        if stmts == 0 {
            return n("update", vec![p, opt(None), opt(None)]);
        }
        let k = self.r.below(12);
        let s = self.ustmt(k);
        let inner = if stmts > 1 || self.r.one_in(5) {
            self.p(";");
            Some(self.update(stmts - 1))
        } else {
            None
        };
        n("update", vec![p, opt(Some(s)), opt(inner)])
    }
    fn silent(&mut self) -> T {
        let s = self.r.coin();
        if s {
            self.kw("SILENT");
        }
        flag(s)
    }
    fn graph_ref(&mut self) -> T {
        self.kw("GRAPH");
        self.iri()
    }
    fn graph_ref_all(&mut self) -> T {
        match self.r.below(5) {
            0 => {
                self.kw("DEFAULT");
                leaf("default")
            }
            1 => {
                self.kw("NAMED");
                leaf("named")
            }
            2 => {
                self.kw("ALL");
                leaf("all")
            }
            _ => self.graph_ref(),
        }
    }
    fn graph_or_default(&mut self) -> T {
        match self.r.below(3) {
            0 => {
                self.kw("DEFAULT");
                leaf("default")
            }
            1 => self.graph_ref(),
            _ => self.iri(),
        }
    }
    pub fn quads(&mut self) -> T {
        self.p("{");
        let mut k = vec![];
        let has = self.r.pct(self.c.triples);
        k.push(opt(if has { Some(self.triples(false)) } else { None }));
        for _ in 0..self.len(0) {
            self.kw("GRAPH");
            let v = self.var_or_iri();
            self.p("{");
            let inner = if self.r.one_in(4) { None } else { Some(self.triples(false)) };
            self.p("}");
            if self.r.one_in(3) {
                self.p(".");
            }
            let after = if self.r.one_in(3) { Some(self.triples(false)) } else { None };
            k.push(n("qe", vec![v, opt(inner), opt(after)]));
        }
        self.p("}");
        n("quads", k)
    }
    pub fn ustmt(&mut self, kind: usize) -> T {
        match kind {
            0 => {
                self.kw("LOAD");
                let s = self.silent();
                let i = self.iri();
                let g = if self.r.coin() {
                    self.kw("INTO");
                    Some(self.graph_ref())
                } else {
                    None
                };
                n("load", vec![s, i, opt(g)])
            }
            1 | 2 => {
                let (w, l) = [("CLEAR", "clear"), ("DROP", "drop")][kind - 1];
                self.kw(w);
                let s = self.silent();
                let g = self.graph_ref_all();
                n(l, vec![s, g])
            }
            3 => {
                self.kw("CREATE");
                let s = self.silent();
                let g = self.graph_ref();
                n("create", vec![s, g])
            }
            4..=6 => {
                let (w, l) = [("ADD", "addg"), ("MOVE", "move"), ("COPY", "copy")][kind - 4];
                self.kw(w);
                let s = self.silent();
                let f = self.graph_or_default();
                self.kw("TO");
                let t = self.graph_or_default();
                n(l, vec![s, f, t])
            }
            7..=9 => {
                let (w, w2, l) = [
                    ("INSERT", "DATA", "insertdata"),
                    ("DELETE", "DATA", "deletedata"),
                    ("DELETE", "WHERE", "deletewhere"),
                ][kind - 7];
                self.kw(w);
                self.kw(w2);
                let q = self.quads();
                n(l, vec![q])
            }
            _ => {
                let with = if self.r.one_in(3) {
                    self.kw("WITH");
                    Some(self.iri())
                } else {
                    None
                };
                let di = match self.r.below(3) {
                    0 => {
                        self.kw("INSERT");
                        let q = self.quads();
                        n("i", vec![q])
                    }
                    b => {
                        self.kw("DELETE");
                        let d = self.quads();
                        let i = if b == 1 {
                            self.kw("INSERT");
                            Some(self.quads())
                        } else {
                            None
                        };
                        n("di", vec![d, opt(i)])
                    }
                };
                let mut u = vec![];
                for _ in 0..self.len(0) {
                    self.kw("USING");
                    u.push(self.source());
                }
                self.kw("WHERE");
                let g = self.group(self.c.group_depth);
                n("modify", vec![opt(with), di, n("using", u), g])
            }
        }
    }
}
