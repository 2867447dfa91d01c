//! Library AST -> neutral tree. Uses only public types and fields.

use crate::tree::*;
use nom_sparql::aggregate::*;
use nom_sparql::arithmetic::*;
use nom_sparql::call::*;
use nom_sparql::clauses::*;
use nom_sparql::data::*;
use nom_sparql::expression::functions::*;
use nom_sparql::expression::iri::*;
use nom_sparql::expression::*;
use nom_sparql::graph::*;
use nom_sparql::group::*;
use nom_sparql::literal::*;
use nom_sparql::node::*;
use nom_sparql::operations::*;
use nom_sparql::order::*;
use nom_sparql::path::*;
use nom_sparql::prologue::*;
use nom_sparql::quads::*;
use nom_sparql::query::ask::*;
use nom_sparql::query::construct::*;
use nom_sparql::query::describe::*;
use nom_sparql::query::select::*;
use nom_sparql::query::*;
use nom_sparql::triple::*;
use nom_sparql::update::*;
use nom_sparql::var::*;

pub fn stmt(s: &SparqlQueryStatement) -> T {
    n(
        "stmt",
        vec![
            prologue(&s.prologue),
            query(&s.query),
            opt(s.values.as_ref().map(datablock)),
        ],
    )
}

pub fn prologue(p: &Prologue) -> T {
    n("prologue", p.0.iter().map(decl).collect())
}
fn decl(d: &BaseOrPrefixDecl) -> T {
    match d {
        BaseOrPrefixDecl::Base(i) => n("base", vec![a(i.clone())]),
        BaseOrPrefixDecl::Prefix(p) => {
            n("prefix", vec![prefix(&p.pname_ns), a(p.iri_ref.clone())])
        }
    }
}
/// The empty prefix is `None` in this library; `Some("")` would be another tree.
fn prefix(p: &Option<String>) -> T {
    match p {
        None => a(""),
        Some(s) if s.is_empty() => a("\u{0}Some(empty)"),
        Some(s) => a(s.clone()),
    }
}

pub fn query(q: &SparqlQuery) -> T {
    match q {
        SparqlQuery::Ask(x) => ask(x),
        SparqlQuery::Select(x) => select(x),
        SparqlQuery::Describe(x) => describe(x),
        SparqlQuery::Construct(x) => construct(x),
    }
}
fn datasets(d: &[DefaultOrNamedIri]) -> T {
    n("ds", d.iter().map(don).collect())
}
fn don(d: &DefaultOrNamedIri) -> T {
    match d {
        DefaultOrNamedIri::Default(i) => n("default", vec![iri(i)]),
        DefaultOrNamedIri::Named(i) => n("named", vec![iri(i)]),
    }
}
pub fn ask(x: &AskQuery) -> T {
    n(
        "ask",
        vec![
            datasets(&x.dataset_clauses),
            group(&x.where_clause),
            modifier(&x.solution_modifier),
        ],
    )
}
pub fn select(x: &SelectQuery) -> T {
    n(
        "select",
        vec![
            selclause(&x.select_clause),
            datasets(&x.dataset_clauses),
            group(&x.where_clause),
            modifier(&x.solution_modifier),
        ],
    )
}
pub fn describe(x: &DescribeQuery) -> T {
    n(
        "describe",
        vec![
            match &x.var_or_iris_or_all {
                VarOrIrisOrAll::All => leaf("all"),
                VarOrIrisOrAll::VarIri(v) => n("targets", v.iter().map(var_or_iri).collect()),
            },
            datasets(&x.dataset_clauses),
            opt(x.where_clause.as_ref().map(group)),
            modifier(&x.solution_modifier),
        ],
    )
}
pub fn construct(x: &ConstructQuery) -> T {
    match x {
        ConstructQuery::SubConstruct(c) => sub_construct(c),
        ConstructQuery::SubTriples(c) => sub_triples(c),
    }
}
pub fn sub_construct(c: &SubConstruct) -> T {
    n(
        "construct",
        vec![
            n("tt", c.construct_template.0.iter().map(tss).collect()),
            datasets(&c.dataset_clauses),
            group(&c.where_clause),
            modifier(&c.solution_modifier),
        ],
    )
}
pub fn sub_triples(c: &SubTriples) -> T {
    n(
        "constructw",
        vec![
            datasets(&c.dataset_clauses),
            opt(c.triples_template.as_ref().map(template)),
            modifier(&c.solution_modifier),
        ],
    )
}
fn selclause(s: &SelectClause) -> T {
    n(
        "sel",
        vec![
            a(match &s.modifier {
                None => "-",
                Some(SelectModifier::Distinct) => "distinct",
                Some(SelectModifier::Reduced) => "reduced",
            }),
            match &s.vars {
                SelectVars::All => leaf("all"),
                SelectVars::VarOrExpressionAsVar(v) => n(
                    "vars",
                    v.iter()
                        .map(|x| match x {
                            VarOrExpressionAsVar::Var(v) => var(v),
                            VarOrExpressionAsVar::ExpressionAsVar(e) => expr_as(e),
                        })
                        .collect(),
                ),
            },
        ],
    )
}
fn expr_as(e: &ExpressionAsVar) -> T {
    n("as", vec![expr(&e.expression), var(&e.var)])
}

pub fn iri(i: &Iri) -> T {
    match i {
        Iri::Iri(s) => n("iri", vec![a(s.clone())]),
        Iri::PrefixedName(PrefixedName::PnameLN {
            pn_prefix,
            pn_local,
        }) => n("pname", vec![prefix(pn_prefix), a(pn_local.clone())]),
        Iri::PrefixedName(PrefixedName::PnameNS(p)) => n("pns", vec![prefix(p)]),
    }
}
pub fn var(v: &Var) -> T {
    match v {
        Var::QMark(s) => n("qvar", vec![a(s.clone())]),
        Var::Dollar(s) => n("dvar", vec![a(s.clone())]),
    }
}
fn var_or_iri(v: &VarOrIri) -> T {
    match v {
        VarOrIri::Var(v) => var(v),
        VarOrIri::Iri(i) => iri(i),
    }
}
fn var_or_term(v: &VarOrTerm) -> T {
    match v {
        VarOrTerm::Var(v) => var(v),
        VarOrTerm::Term(t) => term(t),
    }
}
fn term(t: &GraphTerm) -> T {
    match t {
        GraphTerm::Iri(i) => iri(i),
        GraphTerm::RdfLiteral(l) => lit(l),
        GraphTerm::NumericLiteral(x) => num(x),
        GraphTerm::BooleanLiteral(b) => boolean(*b),
        GraphTerm::BlankNode(BlankNode::Anon) => leaf("anon"),
        GraphTerm::BlankNode(BlankNode::Label(l)) => n("bn", vec![a(l.clone())]),
        GraphTerm::Nil => leaf("nil"),
    }
}
pub fn boolean(b: bool) -> T {
    n("bool", vec![flag(b)])
}
pub fn lit(l: &RdfLiteral) -> T {
    n(
        "lit",
        vec![
            a(l.literal.clone()),
            match &l.descriptor {
                None => leaf("none"),
                Some(RdfLiteralDescriptor::LangTag(t)) => n("lang", vec![a(t.clone())]),
                Some(RdfLiteralDescriptor::IriRef(i)) => n("type", vec![iri(i)]),
            },
        ],
    )
}
pub fn num(x: &NumericLiteral) -> T {
    match x {
        NumericLiteral::Int(i) => n("int", vec![a(i.to_string())]),
        NumericLiteral::Double((m, e)) => n(
            "dbl",
            vec![
                a(f64_key(*m)),
                match e {
                    None => leaf("none"),
                    Some(e) => a(e.to_string()),
                },
            ],
        ),
    }
}
pub fn f64_key(m: f64) -> String {
    format!("{:?}#{:016x}", m, m.to_bits())
}

// ---- groups -------------------------------------------------------------

pub fn group(g: &GroupGraphPattern) -> T {
    match g {
        GroupGraphPattern::SubSelect(s) => n(
            "subsel",
            vec![
                selclause(&s.select_clause),
                group(&s.where_clause),
                modifier(&s.solution_modifier),
                opt(s.values_clause.as_ref().map(datablock)),
            ],
        ),
        GroupGraphPattern::GroupGraphPatternSub(s) => {
            let mut k = vec![opt(s.triples_block.as_ref().map(triples_block))];
            for e in &s.graph_pattern_and_triples {
                k.push(n(
                    "el",
                    vec![
                        pattern(&e.graph_pattern),
                        opt(e.triples.as_ref().map(triples_block)),
                    ],
                ));
            }
            n("group", k)
        }
    }
}
fn pattern(p: &GraphPatternNotTriples) -> T {
    match p {
        GraphPatternNotTriples::Optional(g) => n("optional", vec![group(g)]),
        GraphPatternNotTriples::GroupOrUnion(u) => n("union", u.0.iter().map(group).collect()),
        GraphPatternNotTriples::Minus(g) => n("minus", vec![group(g)]),
        GraphPatternNotTriples::Graph(g) => n(
            "graph",
            vec![var_or_iri(&g.var_or_iri), group(&g.graph_pattern)],
        ),
        GraphPatternNotTriples::Service(s) => n(
            "service",
            vec![
                flag(s.silent),
                var_or_iri(&s.var_or_iri),
                group(&s.graph_pattern),
            ],
        ),
        GraphPatternNotTriples::Filter(c) => n("filter", vec![constraint(c)]),
        GraphPatternNotTriples::Bind(e) => n("bind", vec![expr(&e.expression), var(&e.var)]),
        GraphPatternNotTriples::InlineData(d) => n("values", vec![datablock(d)]),
    }
}
fn constraint(c: &Constraint) -> T {
    match c {
        Constraint::Bracketted(e) => n("c-br", vec![expr(e)]),
        Constraint::BuiltInCall(b) => n("c-bi", vec![builtin(b)]),
        Constraint::FunctionCall(f) => n("c-fn", vec![fcall(f)]),
    }
}
fn fcall(f: &FunctionCall) -> T {
    n("call", vec![iri(&f.iri), args(&f.args)])
}
fn args(x: &ArgList) -> T {
    match x {
        ArgList::Nil => leaf("nil"),
        ArgList::Expression {
            distinct,
            expressions,
        } => {
            let mut k = vec![flag(*distinct)];
            k.extend(expressions.iter().map(expr));
            n("args", k)
        }
    }
}
pub fn datablock(d: &DataBlock) -> T {
    match d {
        DataBlock::InlineDataOneVar(o) => {
            let mut k = vec![var(&o.var)];
            k.extend(o.values.iter().map(dval));
            n("v1", k)
        }
        DataBlock::InlineDataFull(o) => {
            let mut k = vec![n("vars", o.vars.iter().map(var).collect())];
            k.extend(
                o.data_block_values
                    .iter()
                    .map(|r| n("row", r.iter().map(dval).collect())),
            );
            n("vn", k)
        }
    }
}
fn dval(v: &DataBlockValue) -> T {
    match v {
        DataBlockValue::Iri(i) => iri(i),
        DataBlockValue::RdfLiteral(l) => lit(l),
        DataBlockValue::NumericLiteral(x) => num(x),
        DataBlockValue::BooleanLiteral(b) => boolean(*b),
        DataBlockValue::UnDef => leaf("undef"),
    }
}

// ---- modifiers ----------------------------------------------------------

pub fn modifier(m: &SolutionModifier) -> T {
    n(
        "mod",
        vec![
            opt(m.group_by.as_ref().map(|g| {
                n(
                    "groupby",
                    g.0.iter()
                        .map(|c| match c {
                            GroupCondition::BuiltInCall(b) => builtin(b),
                            GroupCondition::FunctionCall(f) => fcall(f),
                            GroupCondition::ExpressionAsVarOpt(e) => n(
                                "asopt",
                                vec![expr(&e.expression), opt(e.var.as_ref().map(var))],
                            ),
                            GroupCondition::Var(v) => var(v),
                        })
                        .collect(),
                )
            })),
            opt(m
                .having
                .as_ref()
                .map(|h| n("having", h.0.iter().map(constraint).collect()))),
            opt(m.order_by.as_ref().map(|o| {
                n(
                    "orderby",
                    o.0.iter()
                        .map(|c| match c {
                            OrderCondition::Order(e) => n(
                                match e.order {
                                    Order::Asc => "asc",
                                    Order::Desc => "desc",
                                },
                                vec![expr(&e.expression)],
                            ),
                            OrderCondition::Constraint(c) => constraint(c),
                            OrderCondition::Var(v) => var(v),
                        })
                        .collect(),
                )
            })),
            opt(m.limit_offset.as_ref().map(|l| match l {
                LimitOffsetClause::LimitOffset { limit, offset } => n(
                    "lo",
                    vec![
                        a(limit.to_string()),
                        opt(offset.as_ref().map(|x| a(x.to_string()))),
                    ],
                ),
                LimitOffsetClause::OffsetLimit { offset, limit } => n(
                    "ol",
                    vec![
                        a(offset.to_string()),
                        opt(limit.as_ref().map(|x| a(x.to_string()))),
                    ],
                ),
            })),
        ],
    )
}

// ---- triples ------------------------------------------------------------

fn triples_block(t: &TriplesBlock) -> T {
    n("tb", t.0.iter().map(tssp).collect())
}
fn tssp(t: &TriplesSameSubjectPath) -> T {
    match t {
        TriplesSameSubjectPath::Term {
            var_or_term: v,
            property_list,
        } => n("st", vec![var_or_term(v), plp(property_list)]),
        TriplesSameSubjectPath::Node {
            triples_node,
            property_list,
        } => n(
            "sn",
            vec![tnp(triples_node), opt(property_list.as_ref().map(plp))],
        ),
    }
}
fn tnp(t: &TriplesNodePath) -> T {
    match t {
        TriplesNodePath::CollectionPath(c) => n("coll", c.iter().map(gnp).collect()),
        TriplesNodePath::BlankNodePropertyListPath(p) => n("bnpl", vec![plp(p)]),
    }
}
fn gnp(g: &GraphNodePath) -> T {
    match g {
        GraphNodePath::VarOrTerm(v) => var_or_term(v),
        GraphNodePath::TriplesNodePath(t) => tnp(t),
    }
}
fn plp(p: &PropertyListPath) -> T {
    let mut k = vec![n(
        "vl",
        vec![
            verb_path(&p.verb_path_or_simple),
            n("ol", p.object_list_path.0.iter().map(gnp).collect()),
        ],
    )];
    for e in &p.entries {
        k.push(n(
            "vl",
            vec![verb_path(&e.verb_path_or_simple), object_list(&e.object_list)],
        ));
    }
    n("pl", k)
}
fn verb_path(v: &VerbPathOrSimple) -> T {
    match v {
        VerbPathOrSimple::Simple(v) => var(v),
        VerbPathOrSimple::Path(p) => path(p),
    }
}
fn path(p: &PathAlternative) -> T {
    n(
        "palt",
        p.0.iter()
            .map(|s| {
                n(
                    "pseq",
                    s.0.iter()
                        .map(|e| match e {
                            PathEltOrInverse::PathElt(e) => n("pe", vec![path_elt(e)]),
                            PathEltOrInverse::Inverse(e) => n("pinv", vec![path_elt(e)]),
                        })
                        .collect(),
                )
            })
            .collect(),
    )
}
fn path_elt(e: &PathElt) -> T {
    n(
        "elt",
        vec![
            match &e.path_primary {
                PathPrimary::Iri(i) => iri(i),
                PathPrimary::A => leaf("a"),
                PathPrimary::PathNegatedPropertySet(s) => n(
                    "neg",
                    s.0.iter()
                        .map(|o| match &o.0 {
                            IriOrAOrCaret::IriOrA(i) => iri_or_a(i),
                            IriOrAOrCaret::Caret(i) => n("inv", vec![iri_or_a(i)]),
                        })
                        .collect(),
                ),
                PathPrimary::Path(p) => n("pbr", vec![path(p)]),
            },
            a(match &e.path_mod {
                None => "-",
                Some(PathMod::QuestionMark) => "?",
                Some(PathMod::Asterisk) => "*",
                Some(PathMod::Plus) => "+",
            }),
        ],
    )
}
fn iri_or_a(i: &IriOrA) -> T {
    match i {
        IriOrA::Iri(i) => iri(i),
        IriOrA::A => leaf("a"),
    }
}
fn object_list(o: &ObjectList) -> T {
    n("ol", o.0.iter().map(graph_node).collect())
}
fn graph_node(g: &GraphNode) -> T {
    match g {
        GraphNode::VarOrTerm(v) => var_or_term(v),
        GraphNode::TriplesNode(t) => triples_node(t),
    }
}
fn triples_node(t: &TriplesNode) -> T {
    match t {
        TriplesNode::Collection(c) => n("coll", c.0.iter().map(graph_node).collect()),
        TriplesNode::BlankNodePropertyList(p) => n("bnpl", vec![pl(p)]),
    }
}
fn pl(p: &PropertyList) -> T {
    n(
        "pl",
        p.0.iter()
            .map(|v| {
                n(
                    "vl",
                    vec![
                        match &v.verb {
                            Verb::A => leaf("a"),
                            Verb::VarOrIri(v) => var_or_iri(v),
                        },
                        object_list(&v.object_list),
                    ],
                )
            })
            .collect(),
    )
}
fn template(t: &TriplesTemplate) -> T {
    n("tt", t.iter().map(tss).collect())
}
fn tss(t: &TriplesSameSubject) -> T {
    match t {
        TriplesSameSubject::Term {
            var_or_term: v,
            property_list,
        } => n("st", vec![var_or_term(v), pl(property_list)]),
        TriplesSameSubject::Node {
            triples_node: t,
            property_list,
        } => n(
            "sn",
            vec![triples_node(t), opt(property_list.as_ref().map(pl))],
        ),
    }
}
fn quads(q: &Quads) -> T {
    let mut k = vec![opt(q.first_triple.as_ref().map(template))];
    for e in &q.entries {
        k.push(n(
            "qe",
            vec![
                var_or_iri(&e.quads_not_triples.var_or_iri),
                opt(e.quads_not_triples.triples_template.as_ref().map(template)),
                opt(e.triples_template.as_ref().map(template)),
            ],
        ));
    }
    n("quads", k)
}

// ---- expressions --------------------------------------------------------

pub fn expr(e: &Expression) -> T {
    n(
        "or",
        e.0.iter()
            .map(|c| n("and", c.0.iter().map(rel).collect()))
            .collect(),
    )
}
fn rel(r: &RelationalExpression) -> T {
    n(
        "rel",
        vec![
            additive(&r.lhs),
            opt(r.rhs.as_ref().map(|o| match o {
                OpExpression::EQ(x) => n("=", vec![additive(x)]),
                OpExpression::NE(x) => n("!=", vec![additive(x)]),
                OpExpression::LT(x) => n("<", vec![additive(x)]),
                OpExpression::GT(x) => n(">", vec![additive(x)]),
                OpExpression::LE(x) => n("<=", vec![additive(x)]),
                OpExpression::GE(x) => n(">=", vec![additive(x)]),
                OpExpression::IN(x) => n("in", vec![elist(x)]),
                OpExpression::NIN(x) => n("notin", vec![elist(x)]),
            })),
        ],
    )
}
fn elist(l: &ExpressionList) -> T {
    match l {
        ExpressionList::Nil => leaf("nil"),
        ExpressionList::List(l) => n("list", l.iter().map(expr).collect()),
    }
}
fn additive(x: &AdditiveExpression) -> T {
    let mut k = vec![multiplicative(&x.lhs)];
    for r in &x.rhs {
        k.push(match r {
            AddExpression::Add(m) => n("+", vec![multiplicative(m)]),
            AddExpression::Sub(m) => n("-", vec![multiplicative(m)]),
            AddExpression::Numeric {
                numeric,
                expressions,
            } => {
                let mut k = vec![num(numeric)];
                k.extend(expressions.iter().map(mult));
                n("num", k)
            }
        });
    }
    n("add", k)
}
fn multiplicative(x: &MultiplicativeExpression) -> T {
    let mut k = vec![unary(&x.lhs)];
    k.extend(x.rhs.iter().map(mult));
    n("mul", k)
}
fn mult(m: &MultExpression) -> T {
    match m {
        MultExpression::Mult(u) => n("*", vec![unary(u)]),
        MultExpression::Div(u) => n("/", vec![unary(u)]),
    }
}
fn unary(u: &UnaryExpression) -> T {
    match u {
        UnaryExpression::Not(p) => n("u!", vec![primary(p)]),
        UnaryExpression::Add(p) => n("u+", vec![primary(p)]),
        UnaryExpression::Sub(p) => n("u-", vec![primary(p)]),
        UnaryExpression::Default(p) => n("u", vec![primary(p)]),
    }
}
fn primary(p: &PrimaryExpression) -> T {
    match p {
        PrimaryExpression::BrackettedExpression(e) => n("br", vec![expr(e)]),
        PrimaryExpression::BuiltInCall(b) => builtin(b),
        PrimaryExpression::IriOrFunction(f) => n(
            "iof",
            vec![iri(&f.iri), opt(f.arg_list.as_ref().map(args))],
        ),
        PrimaryExpression::RdfLiteral(l) => lit(l),
        PrimaryExpression::NumericLiteral(x) => num(x),
        PrimaryExpression::BooleanLiteral(b) => boolean(*b),
        PrimaryExpression::Var(v) => var(v),
    }
}
fn bi(name: &str, mut k: Vec<T>) -> T {
    k.insert(0, a(name));
    n("bi", k)
}
fn agg(name: &str, e: &DistinctExpression) -> T {
    n("agg", vec![a(name), flag(e.distinct), expr(&e.expression)])
}
fn builtin(b: &BuiltInCall) -> T {
    use BuiltInCall::*;
    fn e1(name: &str, e: &Expression) -> T {
        bi(name, vec![expr(e)])
    }
    fn e2(name: &str, p: &(Expression, Expression)) -> T {
        bi(name, vec![expr(&p.0), expr(&p.1)])
    }
    match b {
        Aggregate(g) => {
            use nom_sparql::aggregate::Aggregate as G;
            match g {
                G::Count(c) => n(
                    "agg",
                    vec![
                        a("COUNT"),
                        flag(c.distinct),
                        match &c.target {
                            CountTarget::All => leaf("all"),
                            CountTarget::Expr(e) => expr(e),
                        },
                    ],
                ),
                G::Sum(e) => agg("SUM", e),
                G::Min(e) => agg("MIN", e),
                G::Max(e) => agg("MAX", e),
                G::Avg(e) => agg("AVG", e),
                G::Sample(e) => agg("SAMPLE", e),
                G::GroupConcat(g) => n(
                    "agg",
                    vec![
                        a("GROUP_CONCAT"),
                        flag(g.expression.distinct),
                        expr(&g.expression.expression),
                        opt(g.separator.as_ref().map(|s| a(s.clone()))),
                    ],
                ),
            }
        }
        Str(e) => e1("STR", e),
        Lang(e) => e1("LANG", e),
        LangMatches(p) => e2("LANGMATCHES", p),
        Datatype(e) => e1("DATATYPE", e),
        Bound(v) => bi("BOUND", vec![var(v)]),
        Iri(e) => e1("IRI", e),
        Uri(e) => e1("URI", e),
        Bnode(None) => bi("BNODE", vec![]),
        Bnode(Some(e)) => e1("BNODE", e),
        Rand => bi("RAND", vec![]),
        Abs(e) => e1("ABS", e),
        Ceil(e) => e1("CEIL", e),
        Floor(e) => e1("FLOOR", e),
        Round(e) => e1("ROUND", e),
        Concat(l) => bi("CONCAT", vec![elist(l)]),
        SubStr(x) => {
            let mut k = vec![expr(&x.first), expr(&x.second)];
            k.extend(x.third.as_ref().map(expr));
            bi("SUBSTR", k)
        }
        StrLen(e) => e1("STRLEN", e),
        Replace(x) => {
            let mut k = vec![expr(&x.first), expr(&x.second), expr(&x.third)];
            k.extend(x.fourth.as_ref().map(expr));
            bi("REPLACE", k)
        }
        UCase(e) => e1("UCASE", e),
        LCase(e) => e1("LCASE", e),
        EncodeForUri(e) => e1("ENCODE_FOR_URI", e),
        Contains(p) => e2("CONTAINS", p),
        StrStarts(p) => e2("STRSTARTS", p),
        StrEnds(p) => e2("STRENDS", p),
        StrBefore(p) => e2("STRBEFORE", p),
        StrAfter(p) => e2("STRAFTER", p),
        Year(e) => e1("YEAR", e),
        Month(e) => e1("MONTH", e),
        Day(e) => e1("DAY", e),
        Hours(e) => e1("HOURS", e),
        Minutes(e) => e1("MINUTES", e),
        Seconds(e) => e1("SECONDS", e),
        Timezone(e) => e1("TIMEZONE", e),
        Tz(e) => e1("TZ", e),
        Now => bi("NOW", vec![]),
        UUID => bi("UUID", vec![]),
        StrUUID => bi("STRUUID", vec![]),
        MD5(e) => e1("MD5", e),
        SHA1(e) => e1("SHA1", e),
        SHA256(e) => e1("SHA256", e),
        SHA384(e) => e1("SHA384", e),
        SHA512(e) => e1("SHA512", e),
        Coalesce(l) => bi("COALESCE", vec![elist(l)]),
        If((x, y, z)) => bi("IF", vec![expr(x), expr(y), expr(z)]),
        StrLang(p) => e2("STRLANG", p),
        StrDt(p) => e2("STRDT", p),
        SameTerm(p) => e2("SAMETERM", p),
        IsIri(e) => e1("ISIRI", e),
        IsUri(e) => e1("ISURI", e),
        IsBlank(e) => e1("ISBLANK", e),
        IsLiteral(e) => e1("ISLITERAL", e),
        IsNumeric(e) => e1("ISNUMERIC", e),
        Regex(x) => {
            let mut k = vec![expr(&x.first), expr(&x.second)];
            k.extend(x.third.as_ref().map(expr));
            bi("REGEX", k)
        }
        ExistsFunc(g) => bi("EXISTS", vec![group(g)]),
        NotExistsFunc(g) => bi("NOTEXISTS", vec![group(g)]),
    }
}

// ---- updates ------------------------------------------------------------

pub fn update(u: &Update) -> T {
    n(
        "update",
        vec![
            prologue(&u.prologue),
            opt(u.update_stmt.as_ref().map(ustmt)),
            opt(u.inner_update.as_ref().map(|x| update(x))),
        ],
    )
}
fn god(g: &GraphOrDefault) -> T {
    match g {
        GraphOrDefault::Graph(i) => iri(i),
        GraphOrDefault::Default => leaf("default"),
    }
}
fn gra(g: &GraphRefAll) -> T {
    match g {
        GraphRefAll::GraphRef(i) => iri(i),
        GraphRefAll::Default => leaf("default"),
        GraphRefAll::Named => leaf("named"),
        GraphRefAll::All => leaf("all"),
    }
}
fn ustmt(u: &UpdateStatement) -> T {
    match u {
        UpdateStatement::Load(l) => n(
            "load",
            vec![
                flag(l.silent),
                iri(&l.iri),
                opt(l.graph_ref.as_ref().map(iri)),
            ],
        ),
        UpdateStatement::Clear(c) => n("clear", vec![flag(c.silent), gra(&c.graph_ref_all)]),
        UpdateStatement::Drop(c) => n("drop", vec![flag(c.silent), gra(&c.graph_ref_all)]),
        UpdateStatement::Create(c) => n("create", vec![flag(c.silent), iri(&c.graph_ref)]),
        UpdateStatement::Add(x) => n("addg", vec![flag(x.silent), god(&x.from), god(&x.to)]),
        UpdateStatement::Move(x) => n("move", vec![flag(x.silent), god(&x.from), god(&x.to)]),
        UpdateStatement::Copy(x) => n("copy", vec![flag(x.silent), god(&x.from), god(&x.to)]),
        UpdateStatement::InsertData(q) => n("insertdata", vec![quads(q)]),
        UpdateStatement::DeleteData(q) => n("deletedata", vec![quads(q)]),
        UpdateStatement::DeleteWhere(q) => n("deletewhere", vec![quads(q)]),
        UpdateStatement::Modify(m) => n(
            "modify",
            vec![
                opt(m.iri.as_ref().map(iri)),
                match &m.delete_insert {
                    DeleteInsert::DeleteInsert { delete, insert } => n(
                        "di",
                        vec![quads(delete), opt(insert.as_ref().map(quads))],
                    ),
                    DeleteInsert::Insert(q) => n("i", vec![quads(q)]),
                },
                n("using", m.using_clauses.iter().map(don).collect()),
                group(&m.where_group_graph),
            ],
        ),
    }
}

/// the aggregate that is the first element of the group, `FILTER AGG(...)`
pub fn first_constraint_aggregate(q: &AskQuery) -> Option<nom_sparql::aggregate::Aggregate> {
    use nom_sparql::expression::functions::Constraint;
    if let GroupGraphPattern::GroupGraphPatternSub(s) = &q.where_clause {
        if let GraphPatternNotTriples::Filter(Constraint::BuiltInCall(BuiltInCall::Aggregate(a))) =
            &s.graph_pattern_and_triples.first()?.graph_pattern
        {
            return Some(a.clone());
        }
    }
    None
}
