//! Reference parser: the SPARQL 1.1 grammar (REC 21 March 2013, section 19.8) over the
//! reference lexer's tokens, LL(1), producing the neutral tree. Independent of the library.

use crate::conv::f64_key;
use crate::lex::*;
use crate::tree::*;

#[derive(Debug, Clone, PartialEq)]
pub enum Verdict {
    Accept(T),
    Reject,
    /// not judged; the reason
    Grey(&'static str),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Entry {
    /// prologue, query, trailing VALUES
    Stmt,
    /// one query form
    Query,
    Ask,
    Describe,
    Construct,
    /// after CONSTRUCT: template form / WHERE-only form
    SubConstruct,
    SubTriples,
    Update,
}

pub fn parse(entry: Entry, text: &str) -> Verdict {
    if !matches!(entry, Entry::Stmt | Entry::Update) && skip_layout(text, 0) > 0 {
        return Verdict::Grey("layout before a query form");
    }
    let lx = lex(text);
    let mut p = P {
        t: &lx.toks,
        i: 0,
        grey: lx.grey,
    };
    let r = match entry {
        Entry::Stmt => p.stmt(),
        Entry::Query => p.query(),
        Entry::Ask => p.ask(),
        Entry::Describe => p.describe(),
        Entry::Construct => p.construct(),
        Entry::SubConstruct => p.construct_long(),
        Entry::SubTriples => p.construct_short(),
        Entry::Update => p.update(),
    };
    if let Some(g) = p.grey.first() {
        return Verdict::Grey(*g);
    }
    match r {
        Ok(t) if p.i == lx.toks.len() => Verdict::Accept(t),
        _ => Verdict::Reject,
    }
}

struct P<'a> {
    t: &'a [Tok],
    i: usize,
    grey: Vec<&'static str>,
}
type R = Result<T, ()>;

impl<'a> P<'a> {
    fn peek(&self) -> Option<&'a K> {
        self.t.get(self.i).map(|t| &t.k)
    }
    fn peek2(&self) -> Option<&'a K> {
        self.t.get(self.i + 1).map(|t| &t.k)
    }
    fn is(&self, p: &str) -> bool {
        matches!(self.peek(), Some(K::P(x)) if *x == p)
    }
    fn eat(&mut self, p: &str) -> bool {
        if self.is(p) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn need(&mut self, p: &str) -> Result<(), ()> {
        if self.eat(p) {
            Ok(())
        } else {
            Err(())
        }
    }
    fn isw(&self, w: &str) -> bool {
        matches!(self.peek(), Some(K::Word(x)) if x.eq_ignore_ascii_case(w))
    }
    fn eatw(&mut self, w: &str) -> bool {
        if self.isw(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn needw(&mut self, w: &str) -> Result<(), ()> {
        if self.eatw(w) {
            Ok(())
        } else {
            Err(())
        }
    }
    fn is_a(&self) -> bool {
        matches!(self.peek(), Some(K::Word(x)) if x == "a")
    }
    fn list<F: FnMut(&mut Self) -> R>(&mut self, sep: &str, mut f: F) -> Result<Vec<T>, ()> {
        let mut v = vec![f(self)?];
        while self.eat(sep) {
            v.push(f(self)?);
        }
        Ok(v)
    }

    // ---- query level

    fn stmt(&mut self) -> R {
        let p = self.prologue()?;
        let q = self.query()?;
        let v = self.values_clause()?;
        Ok(n("stmt", vec![p, q, v]))
    }
    fn prologue(&mut self) -> R {
        let mut k = vec![];
        loop {
            if self.eatw("BASE") {
                match self.peek() {
                    Some(K::Iri(s)) => {
                        k.push(n("base", vec![a(s.clone())]));
                        self.i += 1;
                    }
                    _ => return Err(()),
                }
            } else if self.eatw("PREFIX") {
                let p = match self.peek() {
                    Some(K::Pns(p)) => p.clone(),
                    _ => return Err(()),
                };
                self.i += 1;
                match self.peek() {
                    Some(K::Iri(s)) => {
                        k.push(n("prefix", vec![a(p), a(s.clone())]));
                        self.i += 1;
                    }
                    _ => return Err(()),
                }
            } else {
                return Ok(n("prologue", k));
            }
        }
    }
    fn query(&mut self) -> R {
        if self.isw("SELECT") {
            let s = self.selclause()?;
            let d = self.datasets()?;
            let w = self.where_clause()?;
            let m = self.modifier()?;
            Ok(n("select", vec![s, d, w, m]))
        } else if self.isw("CONSTRUCT") {
            self.construct()
        } else if self.isw("DESCRIBE") {
            self.describe()
        } else {
            self.ask()
        }
    }
    fn ask(&mut self) -> R {
        self.needw("ASK")?;
        let d = self.datasets()?;
        let w = self.where_clause()?;
        let m = self.modifier()?;
        Ok(n("ask", vec![d, w, m]))
    }
    fn describe(&mut self) -> R {
        self.needw("DESCRIBE")?;
        let t = if self.eat("*") {
            leaf("all")
        } else {
            let mut v = vec![self.var_or_iri()?];
            while self.is_var() || self.is_iri() {
                v.push(self.var_or_iri()?);
            }
            n("targets", v)
        };
        let d = self.datasets()?;
        let w = if self.isw("WHERE") || self.is("{") {
            Some(self.where_clause()?)
        } else {
            None
        };
        let m = self.modifier()?;
        Ok(n("describe", vec![t, d, opt(w), m]))
    }
    fn construct(&mut self) -> R {
        self.needw("CONSTRUCT")?;
        if self.is("{") {
            self.construct_long()
        } else {
            self.construct_short()
        }
    }
    fn construct_long(&mut self) -> R {
        self.need("{")?;
        let t = if self.is("}") {
            n("tt", vec![])
        } else {
            self.template()?
        };
        self.need("}")?;
        let d = self.datasets()?;
        let w = self.where_clause()?;
        let m = self.modifier()?;
        Ok(n("construct", vec![t, d, w, m]))
    }
    fn construct_short(&mut self) -> R {
        let d = self.datasets()?;
        self.needw("WHERE")?;
        self.need("{")?;
        let t = if self.is("}") {
            None
        } else {
            Some(self.template()?)
        };
        self.need("}")?;
        let m = self.modifier()?;
        Ok(n("constructw", vec![d, opt(t), m]))
    }
    fn selclause(&mut self) -> R {
        self.needw("SELECT")?;
        let m = if self.eatw("DISTINCT") {
            "distinct"
        } else if self.eatw("REDUCED") {
            "reduced"
        } else {
            "-"
        };
        if self.eat("*") {
            return Ok(n("sel", vec![a(m), leaf("all")]));
        }
        let mut v = vec![];
        loop {
            if self.is_var() {
                v.push(self.var()?);
            } else if self.eat("(") {
                let e = self.expr()?;
                self.needw("AS")?;
                let x = self.var()?;
                self.need(")")?;
                v.push(n("as", vec![e, x]));
            } else {
                break;
            }
        }
        if v.is_empty() {
            return Err(());
        }
        Ok(n("sel", vec![a(m), n("vars", v)]))
    }
    fn source(&mut self) -> R {
        if self.eatw("NAMED") {
            Ok(n("named", vec![self.iri()?]))
        } else {
            Ok(n("default", vec![self.iri()?]))
        }
    }
    fn datasets(&mut self) -> R {
        let mut k = vec![];
        while self.eatw("FROM") {
            k.push(self.source()?);
        }
        Ok(n("ds", k))
    }
    fn where_clause(&mut self) -> R {
        self.eatw("WHERE");
        self.group()
    }
    fn values_clause(&mut self) -> R {
        if self.eatw("VALUES") {
            Ok(opt(Some(self.datablock()?)))
        } else {
            Ok(opt(None))
        }
    }
    fn modifier(&mut self) -> R {
        let mut g = None;
        let mut h = None;
        let mut o = None;
        let mut l = None;
        if self.eatw("GROUP") {
            self.needw("BY")?;
            let mut k = vec![self.group_cond()?];
            while self.is("(") || self.is_var() || self.is_builtin() || self.is_iri() {
                k.push(self.group_cond()?);
            }
            g = Some(n("groupby", k));
        }
        if self.eatw("HAVING") {
            let mut k = vec![self.constraint()?];
            while self.is("(") || self.is_builtin() || self.is_iri() {
                k.push(self.constraint()?);
            }
            h = Some(n("having", k));
        }
        if self.eatw("ORDER") {
            self.needw("BY")?;
            let mut k = vec![self.order_cond()?];
            while self.isw("ASC")
                || self.isw("DESC")
                || self.is("(")
                || self.is_var()
                || self.is_builtin()
                || self.is_iri()
            {
                k.push(self.order_cond()?);
            }
            o = Some(n("orderby", k));
        }
        if self.isw("LIMIT") {
            let x = self.limoff("LIMIT")?;
            let y = if self.isw("OFFSET") {
                Some(self.limoff("OFFSET")?)
            } else {
                None
            };
            l = Some(n("lo", vec![x, opt(y)]));
        } else if self.isw("OFFSET") {
            let x = self.limoff("OFFSET")?;
            let y = if self.isw("LIMIT") {
                Some(self.limoff("LIMIT")?)
            } else {
                None
            };
            l = Some(n("ol", vec![x, opt(y)]));
        }
        Ok(n("mod", vec![opt(g), opt(h), opt(o), opt(l)]))
    }
    fn limoff(&mut self, w: &str) -> R {
        self.needw(w)?;
        match self.peek() {
            Some(K::Num(s, 'i')) if s.as_bytes()[0].is_ascii_digit() => {
                self.i += 1;
                match s.parse::<u64>() {
                    Ok(v) => {
                        Ok(a(v.to_string()))
                    }
                    Err(_) => {
                        self.grey.push("integer outside u64");
                        Err(())
                    }
                }
            }
            _ => Err(()),
        }
    }
    fn group_cond(&mut self) -> R {
        if self.eat("(") {
            let e = self.expr()?;
            let v = if self.eatw("AS") {
                Some(self.var()?)
            } else {
                None
            };
            self.need(")")?;
            Ok(n("asopt", vec![e, opt(v)]))
        } else if self.is_var() {
            self.var()
        } else if self.is_builtin() {
            self.builtin()
        } else {
            self.fcall()
        }
    }
    fn order_cond(&mut self) -> R {
        if self.isw("ASC") || self.isw("DESC") {
            let d = if self.isw("ASC") { "asc" } else { "desc" };
            self.i += 1;
            self.need("(")?;
            let e = self.expr()?;
            self.need(")")?;
            Ok(n(d, vec![e]))
        } else if self.is_var() {
            self.var()
        } else {
            self.constraint()
        }
    }
    fn constraint(&mut self) -> R {
        if self.eat("(") {
            let e = self.expr()?;
            self.need(")")?;
            Ok(n("c-br", vec![e]))
        } else if self.is_builtin() {
            Ok(n("c-bi", vec![self.builtin()?]))
        } else {
            Ok(n("c-fn", vec![self.fcall()?]))
        }
    }
    fn fcall(&mut self) -> R {
        let i = self.iri()?;
        let x = self.args()?;
        Ok(n("call", vec![i, x]))
    }
    fn args(&mut self) -> R {
        if let Some(K::Nil) = self.peek() {
            self.i += 1;
            return Ok(leaf("nil"));
        }
        self.need("(")?;
        let d = self.eatw("DISTINCT");
        let mut k = vec![flag(d)];
        k.extend(self.list(",", |p| p.expr())?);
        self.need(")")?;
        Ok(n("args", k))
    }

    // ---- terms

    fn is_iri(&self) -> bool {
        matches!(self.peek(), Some(K::Iri(_)) | Some(K::Pname(..)) | Some(K::Pns(_)))
    }
    fn is_var(&self) -> bool {
        matches!(self.peek(), Some(K::Var(..)))
    }
    fn iri(&mut self) -> R {
        let r = match self.peek() {
            Some(K::Iri(s)) => n("iri", vec![a(s.clone())]),
            Some(K::Pname(p, l)) => n("pname", vec![a(p.clone()), a(l.clone())]),
            Some(K::Pns(p)) => n("pns", vec![a(p.clone())]),
            _ => return Err(()),
        };
        self.i += 1;
        Ok(r)
    }
    fn var(&mut self) -> R {
        match self.peek() {
            Some(K::Var(c, s)) => {
                self.i += 1;
                Ok(n(if *c == '?' { "qvar" } else { "dvar" }, vec![a(s.clone())]))
            }
            _ => Err(()),
        }
    }
    fn var_or_iri(&mut self) -> R {
        if self.is_var() {
            self.var()
        } else {
            self.iri()
        }
    }
    fn string(&mut self) -> Result<String, ()> {
        match self.peek() {
            Some(K::Str(s)) => {
                self.i += 1;
                Ok(s.clone())
            }
            _ => Err(()),
        }
    }
    fn literal(&mut self) -> R {
        let s = self.string()?;
        let d = match self.peek() {
            Some(K::Lang(l)) => {
                self.i += 1;
                n("lang", vec![a(l.clone())])
            }
            Some(K::P("^^")) => {
                self.i += 1;
                n("type", vec![self.iri()?])
            }
            _ => leaf("none"),
        };
        Ok(n("lit", vec![a(s), d]))
    }
    fn number(&mut self) -> R {
        match self.peek() {
            Some(K::Num(s, k)) => {
                self.i += 1;
                match number_tree(s, *k) {
                    Some(t) => Ok(t),
                    None => {
                        self.grey.push("number outside the AST's range");
                        Err(())
                    }
                }
            }
            _ => Err(()),
        }
    }
    fn is_term(&self) -> bool {
        self.is_iri()
            || matches!(
                self.peek(),
                Some(K::Str(_)) | Some(K::Num(..)) | Some(K::Bnode(_)) | Some(K::Anon) | Some(K::Nil)
            )
            || self.isw("TRUE")
            || self.isw("FALSE")
    }
    fn boolean(&mut self) -> Option<T> {
        if self.eatw("TRUE") {
            Some(n("bool", vec![flag(true)]))
        } else if self.eatw("FALSE") {
            Some(n("bool", vec![flag(false)]))
        } else {
            None
        }
    }
    fn var_or_term(&mut self) -> R {
        if self.is_var() {
            return self.var();
        }
        if self.is_iri() {
            return self.iri();
        }
        if let Some(b) = self.boolean() {
            return Ok(b);
        }
        match self.peek() {
            Some(K::Str(_)) => self.literal(),
            Some(K::Num(..)) => self.number(),
            Some(K::Bnode(l)) => {
                self.i += 1;
                Ok(n("bn", vec![a(l.clone())]))
            }
            Some(K::Anon) => {
                self.i += 1;
                Ok(leaf("anon"))
            }
            Some(K::Nil) => {
                self.i += 1;
                Ok(leaf("nil"))
            }
            _ => Err(()),
        }
    }

    // ---- groups

    fn starts_triples(&self) -> bool {
        self.is_var() || self.is_term() || self.is("(") || self.is("[")
    }
    fn group(&mut self) -> R {
        self.need("{")?;
        if self.isw("SELECT") {
            let s = self.selclause()?;
            let w = self.where_clause()?;
            let m = self.modifier()?;
            let v = self.values_clause()?;
            self.need("}")?;
            return Ok(n("subsel", vec![s, w, m, v]));
        }
        let mut k = vec![];
        k.push(opt(self.opt_triples_block()?));
        while !self.is("}") {
            let p = self.pattern()?;
            self.eat(".");
            let t = self.opt_triples_block()?;
            k.push(n("el", vec![p, opt(t)]));
        }
        self.need("}")?;
        Ok(n("group", k))
    }
    fn opt_triples_block(&mut self) -> Result<Option<T>, ()> {
        if !self.starts_triples() {
            return Ok(None);
        }
        let mut k = vec![self.tssp()?];
        while self.eat(".") {
            if self.starts_triples() {
                k.push(self.tssp()?);
            } else {
                break;
            }
        }
        Ok(Some(n("tb", k)))
    }
    fn pattern(&mut self) -> R {
        if self.is("{") {
            let mut k = vec![self.group()?];
            while self.eatw("UNION") {
                k.push(self.group()?);
            }
            Ok(n("union", k))
        } else if self.eatw("OPTIONAL") {
            Ok(n("optional", vec![self.group()?]))
        } else if self.eatw("MINUS") {
            Ok(n("minus", vec![self.group()?]))
        } else if self.eatw("GRAPH") {
            let v = self.var_or_iri()?;
            Ok(n("graph", vec![v, self.group()?]))
        } else if self.eatw("SERVICE") {
            let s = self.eatw("SILENT");
            let v = self.var_or_iri()?;
            Ok(n("service", vec![flag(s), v, self.group()?]))
        } else if self.eatw("FILTER") {
            Ok(n("filter", vec![self.constraint()?]))
        } else if self.eatw("BIND") {
            self.need("(")?;
            let e = self.expr()?;
            self.needw("AS")?;
            let v = self.var()?;
            self.need(")")?;
            Ok(n("bind", vec![e, v]))
        } else if self.eatw("VALUES") {
            Ok(n("values", vec![self.datablock()?]))
        } else {
            Err(())
        }
    }
    fn datablock(&mut self) -> R {
        if self.is_var() {
            let mut k = vec![self.var()?];
            self.need("{")?;
            while !self.is("}") {
                k.push(self.dval()?);
            }
            self.need("}")?;
            return Ok(n("v1", k));
        }
        let mut vars = vec![];
        if let Some(K::Nil) = self.peek() {
            self.i += 1;
        } else {
            self.need("(")?;
            while self.is_var() {
                vars.push(self.var()?);
            }
            self.need(")")?;
        }
        let mut k = vec![n("vars", vars)];
        self.need("{")?;
        while !self.is("}") {
            let mut row = vec![];
            if let Some(K::Nil) = self.peek() {
                self.i += 1;
            } else {
                self.need("(")?;
                while !self.is(")") {
                    row.push(self.dval()?);
                }
                self.need(")")?;
            }
            k.push(n("row", row));
        }
        self.need("}")?;
        Ok(n("vn", k))
    }
    fn dval(&mut self) -> R {
        if self.eatw("UNDEF") {
            return Ok(leaf("undef"));
        }
        if self.is_iri() {
            return self.iri();
        }
        if let Some(b) = self.boolean() {
            return Ok(b);
        }
        match self.peek() {
            Some(K::Str(_)) => self.literal(),
            Some(K::Num(..)) => self.number(),
            _ => Err(()),
        }
    }

    // ---- triples (paths)

    fn tssp(&mut self) -> R {
        if self.is("(") || self.is("[") {
            let t = self.tnp()?;
            let p = if self.starts_verb_path() {
                Some(self.plp()?)
            } else {
                None
            };
            Ok(n("sn", vec![t, opt(p)]))
        } else {
            let v = self.var_or_term()?;
            let p = self.plp()?;
            Ok(n("st", vec![v, p]))
        }
    }
    fn starts_verb_path(&self) -> bool {
        self.is_var() || self.is_iri() || self.is_a() || self.is("^") || self.is("!") || self.is("(")
    }
    fn tnp(&mut self) -> R {
        if self.eat("(") {
            let mut k = vec![self.gnp()?];
            while !self.is(")") {
                k.push(self.gnp()?);
            }
            self.need(")")?;
            Ok(n("coll", k))
        } else {
            self.need("[")?;
            let p = self.plp()?;
            self.need("]")?;
            Ok(n("bnpl", vec![p]))
        }
    }
    fn gnp(&mut self) -> R {
        if self.is("(") || self.is("[") {
            self.tnp()
        } else {
            self.var_or_term()
        }
    }
    fn plp(&mut self) -> R {
        let v = self.verb_path()?;
        let o = self.list(",", |p| p.gnp())?;
        let mut k = vec![n("vl", vec![v, n("ol", o)])];
        while self.eat(";") {
            if self.starts_verb_path() {
                let v = self.verb_path()?;
                let o = self.list(",", |p| p.graph_node())?;
                k.push(n("vl", vec![v, n("ol", o)]));
            }
        }
        Ok(n("pl", k))
    }
    fn verb_path(&mut self) -> R {
        if self.is_var() {
            self.var()
        } else {
            self.path()
        }
    }
    fn path(&mut self) -> R {
        let k = self.list("|", |p| {
            let k = p.list("/", |p| {
                let inv = p.eat("^");
                let e = p.path_elt()?;
                Ok(n(if inv { "pinv" } else { "pe" }, vec![e]))
            })?;
            Ok(n("pseq", k))
        })?;
        Ok(n("palt", k))
    }
    fn path_elt(&mut self) -> R {
        let p = if self.is_iri() {
            self.iri()?
        } else if self.is_a() {
            self.i += 1;
            leaf("a")
        } else if self.eat("!") {
            self.negated()?
        } else if self.eat("(") {
            let p = self.path()?;
            self.need(")")?;
            n("pbr", vec![p])
        } else {
            return Err(());
        };
        let m = if self.eat("?") {
            "?"
        } else if self.eat("*") {
            "*"
        } else if self.eat("+") {
            "+"
        } else {
            "-"
        };
        Ok(n("elt", vec![p, a(m)]))
    }
    fn negated(&mut self) -> R {
        if let Some(K::Nil) = self.peek() {
            self.i += 1;
            return Ok(n("neg", vec![]));
        }
        if self.eat("(") {
            let k = self.list("|", |p| p.one_in_set())?;
            self.need(")")?;
            Ok(n("neg", k))
        } else {
            Ok(n("neg", vec![self.one_in_set()?]))
        }
    }
    fn one_in_set(&mut self) -> R {
        let inv = self.eat("^");
        let x = if self.is_a() {
            self.i += 1;
            leaf("a")
        } else {
            self.iri()?
        };
        Ok(if inv { n("inv", vec![x]) } else { x })
    }

    // ---- triples (templates)

    fn graph_node(&mut self) -> R {
        if self.is("(") || self.is("[") {
            self.triples_node()
        } else {
            self.var_or_term()
        }
    }
    fn triples_node(&mut self) -> R {
        if self.eat("(") {
            let mut k = vec![self.graph_node()?];
            while !self.is(")") {
                k.push(self.graph_node()?);
            }
            self.need(")")?;
            Ok(n("coll", k))
        } else {
            self.need("[")?;
            let p = self.pl()?;
            self.need("]")?;
            Ok(n("bnpl", vec![p]))
        }
    }
    fn starts_verb(&self) -> bool {
        self.is_var() || self.is_iri() || self.is_a()
    }
    fn pl(&mut self) -> R {
        let mut k = vec![self.verb_list()?];
        while self.eat(";") {
            if self.starts_verb() {
                k.push(self.verb_list()?);
            }
        }
        Ok(n("pl", k))
    }
    fn verb_list(&mut self) -> R {
        let v = if self.is_a() {
            self.i += 1;
            leaf("a")
        } else {
            self.var_or_iri()?
        };
        let o = self.list(",", |p| p.graph_node())?;
        Ok(n("vl", vec![v, n("ol", o)]))
    }
    fn tss(&mut self) -> R {
        if self.is("(") || self.is("[") {
            let t = self.triples_node()?;
            let p = if self.starts_verb() {
                Some(self.pl()?)
            } else {
                None
            };
            Ok(n("sn", vec![t, opt(p)]))
        } else {
            let v = self.var_or_term()?;
            let p = self.pl()?;
            Ok(n("st", vec![v, p]))
        }
    }
    fn template(&mut self) -> R {
        let mut k = vec![self.tss()?];
        while self.eat(".") {
            if self.starts_triples() {
                k.push(self.tss()?);
            } else {
                break;
            }
        }
        Ok(n("tt", k))
    }
    fn opt_template(&mut self) -> Result<Option<T>, ()> {
        if self.starts_triples() {
            Ok(Some(self.template()?))
        } else {
            Ok(None)
        }
    }
    fn quads(&mut self) -> R {
        self.need("{")?;
        let mut k = vec![opt(self.opt_template()?)];
        while self.eatw("GRAPH") {
            let v = self.var_or_iri()?;
            self.need("{")?;
            let inner = self.opt_template()?;
            self.need("}")?;
            self.eat(".");
            let after = self.opt_template()?;
            k.push(n("qe", vec![v, opt(inner), opt(after)]));
        }
        self.need("}")?;
        Ok(n("quads", k))
    }

    // ---- expressions

    fn expr(&mut self) -> R {
        let k = self.list("||", |p| {
            let k = p.list("&&", |p| p.rel())?;
            Ok(n("and", k))
        })?;
        Ok(n("or", k))
    }
    fn rel(&mut self) -> R {
        let l = self.additive()?;
        let mut r = None;
        for (p, name) in [
            ("=", "="),
            ("!=", "!="),
            ("<", "<"),
            (">", ">"),
            ("<=", "<="),
            (">=", ">="),
        ] {
            if self.eat(p) {
                r = Some(n(name, vec![self.additive()?]));
                break;
            }
        }
        if r.is_none() {
            if self.eatw("IN") {
                r = Some(n("in", vec![self.elist()?]));
            } else if self.isw("NOT")
                && matches!(self.peek2(), Some(K::Word(w)) if w.eq_ignore_ascii_case("IN"))
            {
                self.i += 2;
                r = Some(n("notin", vec![self.elist()?]));
            } else if matches!(self.peek(), Some(K::Iri(_))) {
                // `?a<?b>`: an IRI by longest match, an operator to a scannerless parser
                self.grey.push("'<' read as an IRI");
            }
        }
        Ok(n("rel", vec![l, opt(r)]))
    }
    fn elist(&mut self) -> R {
        if let Some(K::Nil) = self.peek() {
            self.i += 1;
            return Ok(leaf("nil"));
        }
        self.need("(")?;
        let k = self.list(",", |p| p.expr())?;
        self.need(")")?;
        Ok(n("list", k))
    }
    fn additive(&mut self) -> R {
        let mut k = vec![self.multiplicative()?];
        loop {
            if self.eat("+") {
                k.push(n("+", vec![self.multiplicative()?]));
            } else if self.eat("-") {
                k.push(n("-", vec![self.multiplicative()?]));
            } else if matches!(self.peek(), Some(K::Num(s, _)) if s.starts_with(['+', '-'])) {
                let mut m = vec![self.number()?];
                self.mult_tail(&mut m)?;
                k.push(n("num", m));
            } else {
                return Ok(n("add", k));
            }
        }
    }
    fn multiplicative(&mut self) -> R {
        let mut k = vec![self.unary()?];
        self.mult_tail(&mut k)?;
        Ok(n("mul", k))
    }
    fn mult_tail(&mut self, k: &mut Vec<T>) -> Result<(), ()> {
        loop {
            if self.eat("*") {
                k.push(n("*", vec![self.unary()?]));
            } else if self.eat("/") {
                k.push(n("/", vec![self.unary()?]));
            } else {
                return Ok(());
            }
        }
    }
    fn unary(&mut self) -> R {
        let u = if self.eat("!") {
            "u!"
        } else if self.eat("+") {
            "u+"
        } else if self.eat("-") {
            "u-"
        } else {
            "u"
        };
        Ok(n(u, vec![self.primary()?]))
    }
    fn primary(&mut self) -> R {
        if self.eat("(") {
            let e = self.expr()?;
            self.need(")")?;
            return Ok(n("br", vec![e]));
        }
        if self.is_builtin() {
            return self.builtin();
        }
        if self.is_iri() {
            let i = self.iri()?;
            let x = if self.is("(") || matches!(self.peek(), Some(K::Nil)) {
                Some(self.args()?)
            } else {
                None
            };
            return Ok(n("iof", vec![i, opt(x)]));
        }
        if let Some(b) = self.boolean() {
            return Ok(b);
        }
        match self.peek() {
            Some(K::Str(_)) => self.literal(),
            Some(K::Num(..)) => self.number(),
            Some(K::Var(..)) => self.var(),
            _ => Err(()),
        }
    }
    fn is_builtin(&self) -> bool {
        match self.peek() {
            Some(K::Word(w)) => {
                BUILTINS.iter().any(|b| b.0.eq_ignore_ascii_case(w))
                    || AGGREGATES.iter().any(|b| b.eq_ignore_ascii_case(w))
                    || w.eq_ignore_ascii_case("EXISTS")
                    || w.eq_ignore_ascii_case("NOT")
            }
            _ => false,
        }
    }
    fn builtin(&mut self) -> R {
        let w = match self.peek() {
            Some(K::Word(w)) => w.to_ascii_uppercase(),
            _ => return Err(()),
        };
        self.i += 1;
        if w == "EXISTS" {
            return Ok(n("bi", vec![a("EXISTS"), self.group()?]));
        }
        if w == "NOT" {
            self.needw("EXISTS")?;
            return Ok(n("bi", vec![a("NOTEXISTS"), self.group()?]));
        }
        if AGGREGATES.contains(&w.as_str()) {
            self.need("(")?;
            let d = self.eatw("DISTINCT");
            let mut k = vec![a(w.clone()), flag(d)];
            if w == "COUNT" && self.eat("*") {
                k.push(leaf("all"));
            } else {
                k.push(self.expr()?);
            }
            if w == "GROUP_CONCAT" {
                let mut sep = None;
                if self.eat(";") {
                    self.needw("SEPARATOR")?;
                    self.need("=")?;
                    sep = Some(a(self.string()?));
                }
                k.push(opt(sep));
            }
            self.need(")")?;
            return Ok(n("agg", k));
        }
        let shape = BUILTINS.iter().find(|b| b.0 == w).ok_or(())?.1;
        let mut k = vec![a(w)];
        match shape {
            Shape::List => k.push(self.elist()?),
            Shape::Var => {
                self.need("(")?;
                k.push(self.var()?);
                self.need(")")?;
            }
            Shape::Args(lo, hi) => {
                if let Some(K::Nil) = self.peek() {
                    if lo > 0 {
                        return Err(());
                    }
                    self.i += 1;
                } else {
                    if hi == 0 {
                        return Err(());
                    }
                    self.need("(")?;
                    let e = self.list(",", |p| p.expr())?;
                    self.need(")")?;
                    if e.len() < lo || e.len() > hi {
                        return Err(());
                    }
                    k.extend(e);
                }
            }
        }
        Ok(n("bi", k))
    }

    // ---- updates

    fn update(&mut self) -> R {
        let p = self.prologue()?;
        let mut s = None;
        let mut inner = None;
        if let Some(K::Word(_)) = self.peek() {
            s = Some(self.ustmt()?);
            if self.eat(";") {
                inner = Some(self.update()?);
            }
        }
        Ok(n("update", vec![p, opt(s), opt(inner)]))
    }
    fn graph_ref(&mut self) -> R {
        self.needw("GRAPH")?;
        self.iri()
    }
    fn graph_ref_all(&mut self) -> R {
        for (w, l) in [("DEFAULT", "default"), ("NAMED", "named"), ("ALL", "all")] {
            if self.eatw(w) {
                return Ok(leaf(l));
            }
        }
        self.graph_ref()
    }
    fn graph_or_default(&mut self) -> R {
        if self.eatw("DEFAULT") {
            return Ok(leaf("default"));
        }
        self.eatw("GRAPH");
        self.iri()
    }
    fn ustmt(&mut self) -> R {
        if self.eatw("LOAD") {
            let s = flag(self.eatw("SILENT"));
            let i = self.iri()?;
            let g = if self.eatw("INTO") {
                Some(self.graph_ref()?)
            } else {
                None
            };
            return Ok(n("load", vec![s, i, opt(g)]));
        }
        for (w, l) in [("CLEAR", "clear"), ("DROP", "drop")] {
            if self.eatw(w) {
                let s = flag(self.eatw("SILENT"));
                let g = self.graph_ref_all()?;
                return Ok(n(l, vec![s, g]));
            }
        }
        if self.eatw("CREATE") {
            let s = flag(self.eatw("SILENT"));
            let g = self.graph_ref()?;
            return Ok(n("create", vec![s, g]));
        }
        for (w, l) in [("ADD", "addg"), ("MOVE", "move"), ("COPY", "copy")] {
            if self.eatw(w) {
                let s = flag(self.eatw("SILENT"));
                let f = self.graph_or_default()?;
                self.needw("TO")?;
                let t = self.graph_or_default()?;
                return Ok(n(l, vec![s, f, t]));
            }
        }
        if self.isw("INSERT") || self.isw("DELETE") {
            if let Some(K::Word(w2)) = self.peek2() {
                let ins = self.isw("INSERT");
                self.i += 1;
                let name = if w2.eq_ignore_ascii_case("DATA") {
                    if ins {
                        "insertdata"
                    } else {
                        "deletedata"
                    }
                } else if w2.eq_ignore_ascii_case("WHERE") && !ins {
                    "deletewhere"
                } else {
                    return Err(());
                };
                self.i += 1;
                return Ok(n(name, vec![self.quads()?]));
            }
        }
        let with = if self.eatw("WITH") {
            Some(self.iri()?)
        } else {
            None
        };
        let di = if self.eatw("DELETE") {
            let d = self.quads()?;
            let i = if self.eatw("INSERT") {
                Some(self.quads()?)
            } else {
                None
            };
            n("di", vec![d, opt(i)])
        } else {
            self.needw("INSERT")?;
            n("i", vec![self.quads()?])
        };
        let mut u = vec![];
        while self.eatw("USING") {
            u.push(self.source()?);
        }
        self.needw("WHERE")?;
        let g = self.group()?;
        Ok(n("modify", vec![opt(with), di, n("using", u), g]))
    }
}

/// numeric literal text -> tree; None if the library's types cannot hold it
pub fn number_tree(s: &str, kind: char) -> Option<T> {
    if kind == 'i' {
        return Some(n("int", vec![a(s.parse::<i64>().ok()?.to_string())]));
    }
    let (m, e) = match s.find(['e', 'E']) {
        Some(p) => (&s[..p], Some(s[p + 1..].parse::<i64>().ok()?)),
        None => (s, None),
    };
    let v: f64 = m.parse().ok()?;
    Some(n(
        "dbl",
        vec![
            a(f64_key(v)),
            match e {
                None => leaf("none"),
                Some(e) => a(e.to_string()),
            },
        ],
    ))
}

#[derive(Clone, Copy, Debug)]
pub enum Shape {
    Args(usize, usize),
    List,
    Var,
}
pub const AGGREGATES: &[&str] = &[
    "COUNT", "SUM", "MIN", "MAX", "AVG", "SAMPLE", "GROUP_CONCAT",
];
pub const BUILTINS: &[(&str, Shape)] = &[
    ("STR", Shape::Args(1, 1)),
    ("LANG", Shape::Args(1, 1)),
    ("LANGMATCHES", Shape::Args(2, 2)),
    ("DATATYPE", Shape::Args(1, 1)),
    ("BOUND", Shape::Var),
    ("IRI", Shape::Args(1, 1)),
    ("URI", Shape::Args(1, 1)),
    ("BNODE", Shape::Args(0, 1)),
    ("RAND", Shape::Args(0, 0)),
    ("ABS", Shape::Args(1, 1)),
    ("CEIL", Shape::Args(1, 1)),
    ("FLOOR", Shape::Args(1, 1)),
    ("ROUND", Shape::Args(1, 1)),
    ("CONCAT", Shape::List),
    ("SUBSTR", Shape::Args(2, 3)),
    ("STRLEN", Shape::Args(1, 1)),
    ("REPLACE", Shape::Args(3, 4)),
    ("UCASE", Shape::Args(1, 1)),
    ("LCASE", Shape::Args(1, 1)),
    ("ENCODE_FOR_URI", Shape::Args(1, 1)),
    ("CONTAINS", Shape::Args(2, 2)),
    ("STRSTARTS", Shape::Args(2, 2)),
    ("STRENDS", Shape::Args(2, 2)),
    ("STRBEFORE", Shape::Args(2, 2)),
    ("STRAFTER", Shape::Args(2, 2)),
    ("YEAR", Shape::Args(1, 1)),
    ("MONTH", Shape::Args(1, 1)),
    ("DAY", Shape::Args(1, 1)),
    ("HOURS", Shape::Args(1, 1)),
    ("MINUTES", Shape::Args(1, 1)),
    ("SECONDS", Shape::Args(1, 1)),
    ("TIMEZONE", Shape::Args(1, 1)),
    ("TZ", Shape::Args(1, 1)),
    ("NOW", Shape::Args(0, 0)),
    ("UUID", Shape::Args(0, 0)),
    ("STRUUID", Shape::Args(0, 0)),
    ("MD5", Shape::Args(1, 1)),
    ("SHA1", Shape::Args(1, 1)),
    ("SHA256", Shape::Args(1, 1)),
    ("SHA384", Shape::Args(1, 1)),
    ("SHA512", Shape::Args(1, 1)),
    ("COALESCE", Shape::List),
    ("IF", Shape::Args(3, 3)),
    ("STRLANG", Shape::Args(2, 2)),
    ("STRDT", Shape::Args(2, 2)),
    ("SAMETERM", Shape::Args(2, 2)),
    ("ISIRI", Shape::Args(1, 1)),
    ("ISURI", Shape::Args(1, 1)),
    ("ISBLANK", Shape::Args(1, 1)),
    ("ISLITERAL", Shape::Args(1, 1)),
    ("ISNUMERIC", Shape::Args(1, 1)),
    ("REGEX", Shape::Args(2, 3)),
];
