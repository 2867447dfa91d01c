//! Every construct directly inside every construct: chains of small templates with holes,
//! a few levels deep, that end in a short or a wide leaf.  All holes beside the chain hold
//! the least that may stand there, so a construct is also seen alone in its surroundings.

use crate::refp::Entry;
use crate::render::*;
use crate::run::*;
use crate::sweep::toks;

/// kind, template; `@X` is a hole of kind X.
/// G group, L inside of a group, S subselect, E expression, C constraint, T triples, N node,
/// P path, V data block, Q quads, D group condition, O order condition, R statement,
/// M solution modifier, U update, K operand of an operator
/// A wide leaf is `head ## item ## separator ## tail`; `~` in the item is its number.
const TEMPLATES: &[(char, &str)] = &[
    // groups
    ('G', "{ @L }"), ('G', "{ @S }"), ('G', "{ }"),
    ('L', "@T"), ('L', "@G"), ('L', "@G UNION { ?x ?y ?z }"), ('L', "{ } UNION @G"), ('L', "@G UNION @G"), ('L', "{ } UNION @G UNION { }"),
    ('L', "OPTIONAL @G"), ('L', "MINUS @G"), ('L', "GRAPH ?g @G"), ('L', "GRAPH <g> @G"), ('L', "SERVICE <s> @G"), ('L', "SERVICE ?s @G"), ('L', "SERVICE SILENT x:s @G"),
    ('L', "FILTER EXISTS @G"), ('L', "FILTER NOT EXISTS @G"), ('L', "FILTER @C"), ('L', "BIND ( @E AS ?b )"), ('L', "VALUES @V"),
    ('L', "?s ?p ?o . @L"), ('L', "?s ?p ?o @L"), ('L', "@L FILTER ( 1 )"), ('L', "FILTER ( 1 ) @L"), ('L', "@L . OPTIONAL { }"), ('L', "OPTIONAL { } . @L"), ('L', "@L ?x ?y ?z"),
    ('L', "@L FILTER ( 1 ) @L"), ('L', "@L BIND ( 1 AS ?b )"), ('L', "VALUES ?v { 1 } @L"), ('L', "@L { }"), ('L', "{ } @L"), ('L', ""), ('L', "?s ?p ?o ."), ('L', "@L ."),
    ('L', "## FILTER ( ?f~ ) ## ##"), ('L', "## OPTIONAL { ?s~ ?p ?o } ## ##"), ('L', "## { ?s ?p ~ } ## UNION ##"), ('L', "## ?s~ ?p ?o . FILTER ( ~ ) ## ##"), ('L', "## BIND ( ~ AS ?b~ ) ## ##"),
    ('L', "## VALUES ?v~ { ~ } ## . ##"), ('L', "## MINUS { ?s ?p ~ } ?a ?b ~ ## . ##"), ('L', "## GRAPH <g~> { } ## ##"), ('L', "## SERVICE <s~> { } ## ##"),
    ('S', "SELECT * @G"), ('S', "SELECT ?x WHERE @G"), ('S', "SELECT DISTINCT ?x ( @E AS ?y ) ?z { }"), ('S', "SELECT * @G @M"), ('S', "SELECT REDUCED * { } @M"), ('S', "SELECT * @G VALUES @V"), ('S', "SELECT ## ?v~ ## ## { }"),
    // expressions
    ('C', "( @E )"), ('C', "STR ( @E )"), ('C', "<f> ( @E )"), ('C', "EXISTS @G"), ('C', "NOT EXISTS @G"), ('C', "COUNT ( DISTINCT @E )"), ('C', "x:f ()"), ('C', "RAND ()"), ('C', "COALESCE ( @E , 1 )"), ('C', "REGEX ( @E , @E )"), ('C', "BOUND ( ?v )"),
    ('E', "@K"), ('E', "@K || ?y"), ('E', "?x || @K"), ('E', "@K && ?y"), ('E', "?x && @K"), ('E', "@K = 1"), ('E', "1 != @K"), ('E', "?x < @K"), ('E', "@K > ?x"), ('E', "@K <= @K"), ('E', "?x >= @K"),
    ('E', "@K IN ( @E )"), ('E', "?x NOT IN ( 1 , @E , 2 )"), ('E', "@K IN ()"), ('E', "@K + 1"), ('E', "?x + @K"), ('E', "@K - ?y"), ('E', "1 - @K"), ('E', "@K * 2"), ('E', "?x * @K"), ('E', "@K / @K"), ('E', "1 / @K"), ('E', "?x + 1 * @K - 2"), ('E', "@K -1"), ('E', "?x +2 * @K"),
    ('E', "?a || ?b && @E"), ('E', "@E || ?c"), ('E', "@E && ?c"), ('E', "## ?a~ ## && ##"), ('E', "## ?a~ ## || ##"), ('E', "## ?a~ ## + ##"), ('E', "?x ## - ~ ## ##"), ('E', "?x ## / ?v~ ## ##"), ('E', "## ?a~ = ~ ## || ##"),
    ('K', "?v"), ('K', "$v"), ('K', "1"), ('K', "-1.5e3"), ('K', "+2"), ('K', "\"s\""), ('K', "\"s\" @en"), ('K', "'s' ^^ <u>"), ('K', "true"), ('K', "<u>"), ('K', "x:y"), ('K', ":"), ('K', "<f> ()"),
    ('K', "( @E )"), ('K', "! @K"), ('K', "- @K"), ('K', "+ @K"), ('K', "! ( @E )"), ('K', "- ( @E )"), ('K', "EXISTS @G"), ('K', "NOT EXISTS @G"), ('K', "! EXISTS @G"), ('K', "BOUND ( ?v )"),
    ('K', "STR ( @E )"), ('K', "LANGMATCHES ( @E , \"*\" )"), ('K', "IF ( @E , 1 , 2 )"), ('K', "IF ( 1 , @E , 2 )"), ('K', "IF ( 1 , 2 , @E )"), ('K', "COALESCE ( @E )"), ('K', "COALESCE ( 1 , @E , 2 )"), ('K', "CONCAT ( @E , @E )"), ('K', "CONCAT ()"), ('K', "RAND ()"), ('K', "BNODE ()"), ('K', "BNODE ( @E )"),
    ('K', "SUBSTR ( @E , 1 )"), ('K', "SUBSTR ( 1 , @E , 2 )"), ('K', "REPLACE ( 1 , 2 , @E )"), ('K', "REPLACE ( 1 , 2 , 3 , @E )"), ('K', "REGEX ( 1 , @E )"), ('K', "REGEX ( @E , 1 , \"i\" )"), ('K', "SAMETERM ( @E , @E )"), ('K', "NOW ()"),
    ('K', "COUNT ( * )"), ('K', "COUNT ( DISTINCT * )"), ('K', "COUNT ( @E )"), ('K', "SUM ( DISTINCT @E )"), ('K', "GROUP_CONCAT ( @E )"), ('K', "GROUP_CONCAT ( DISTINCT @E ; SEPARATOR = \",\" )"), ('K', "SAMPLE ( @E )"),
    ('K', "<f> ( @E )"), ('K', "x:f ( 1 , @E )"), ('K', "<f> ( DISTINCT @E )"), ('K', "x:f ( DISTINCT @E , 2 )"),
    ('K', "<f> ( ## ?a~ ## , ## )"), ('K', "COALESCE ( ## ~ ## , ## )"), ('K', "CONCAT ( ## ?a~ ## , ## )"), ('K', "?x IN ( ## ~ ## , ## )"),
    // triples
    ('T', "?s ?p ?o"), ('T', "?s ?p @N"), ('T', "@N ?p ?o"), ('T', "?s @P ?o"), ('T', "@N"), ('T', "?s ?p ?o ; @P @N"), ('T', "?s ?p 1 , @N , ?x ; a 2"), ('T', "?s ?p @N ; ?q @N"), ('T', "?s ?p @N , @N"), ('T', "@T . ?x ?y ?z"), ('T', "?x ?y ?z . @T"), ('T', "@T ."), ('T', "?s ?p ?o ; ; @P 1 ;"), ('T', "@N @P @N"),
    ('T', "## ?s~ ?p ?o ## . ##"), ('T', "?s ?p ## ?o~ ## , ##"), ('T', "?s ## <p~> ~ ## ; ##"), ('T', "?s ?p ?o ## ## ; ## ; ?q 1"),
    ('N', "?v"), ('N', "<u>"), ('N', "x:y"), ('N', "x:"), ('N', "_:b"), ('N', "[]"), ('N', "()"), ('N', "1"), ('N', "-2.5"), ('N', "\"s\""), ('N', "\"s\" @en"), ('N', "\"s\" ^^ x:y"), ('N', "true"),
    ('N', "( @N )"), ('N', "( @N @N )"), ('N', "( 1 @N ?v )"), ('N', "( ( @N ) )"), ('N', "[ ?p @N ]"), ('N', "[ @P ?o ]"), ('N', "[ @P @N ; ?q 1 ]"), ('N', "[ ?p 1 , @N ; ?q @N ]"), ('N', "[ ?p 1 ; ]"), ('N', "[ a @N ; ; ?p 1 ]"),
    ('N', "( ## ~ ## ## )"), ('N', "( ## [ ?p ~ ] ## ## )"), ('N', "[ ## ?p~ ?o ## ; ## ]"), ('N', "[ ?p ## ~ ## , ## ]"),
    ('P', "<p>"), ('P', "x:p"), ('P', "a"), ('P', "( @P )"), ('P', "^ @P"), ('P', "@P *"), ('P', "@P ?"), ('P', "@P +"), ('P', "@P / <q>"), ('P', "<q> / @P"), ('P', "@P | a"), ('P', "a | @P"), ('P', "( @P ) *"), ('P', "^ ( @P ) +"), ('P', "@P / ^ @P"), ('P', "@P | @P"), ('P', "<q> / ( @P ) | a"), ('P', "( @P | a ) / <q>"),
    ('P', "! a"), ('P', "! <p>"), ('P', "! ^ a"), ('P', "! ( <p> | ^ a )"), ('P', "! ( x:p )"), ('P', "! ()"), ('P', "! ( ^ <p> | ^ x:q ) *"),
    ('P', "## <p~> ## / ##"), ('P', "## <p~> ## | ##"), ('P', "! ( ## ^ <p~> ## | ## )"), ('P', "( ## a / <p~> ## | ## ) *"),
    // data
    ('V', "?v { }"), ('V', "$v { 1 }"), ('V', "?v { <u> x:y \"s\" @en -2 true UNDEF }"), ('V', "() { }"), ('V', "() { () }"), ('V', "() { () () }"), ('V', "( ?v ) { }"), ('V', "( ?v ) { ( 1 ) }"), ('V', "( ?v ?w ) { ( 1 UNDEF ) ( \"s\" <u> ) }"), ('V', "( ?v ?w ) { ( 1 2 ) ( 1 2 ) ( 1 2 ) }"), ('V', "?v { 1 1 UNDEF UNDEF 1 }"), ('V', "( ?v ?v ) { ( UNDEF UNDEF ) }"),
    ('V', "?v { ## ~ ## ## }"), ('V', "?v { ## <u~> \"s~\" @en ## ## }"), ('V', "( ?v ) { ## ( ~ ) ## ## }"), ('V', "( ?v ?w ) { ## ( ~ UNDEF ) ## ## }"), ('V', "( ## ?v~ ## ## ) { }"), ('V', "() { ## () ## ## }"), ('V', "( ?v ) { ( ## ~ ## ## ) }"),
    // modifiers
    ('M', "GROUP BY @D"), ('M', "GROUP BY ?x @D ?y"), ('M', "HAVING @C"), ('M', "HAVING ( 1 ) @C"), ('M', "ORDER BY @O"), ('M', "ORDER BY ?x @O ?y"), ('M', "LIMIT 1"), ('M', "OFFSET 2"), ('M', "LIMIT 1 OFFSET 2"), ('M', "OFFSET 2 LIMIT 1"), ('M', "GROUP BY @D HAVING @C ORDER BY @O LIMIT 1"), ('M', "ORDER BY @O @O LIMIT 0"),
    ('M', "GROUP BY ## ?g~ ## ##"), ('M', "ORDER BY ## DESC ( ~ ) ## ##"), ('M', "HAVING ## ( ?h~ ) ## ##"),
    ('D', "?x"), ('D', "$x"), ('D', "( @E )"), ('D', "( @E AS ?y )"), ('D', "STR ( @E )"), ('D', "<f> ( @E )"), ('D', "NOT EXISTS @G"), ('D', "x:f ()"),
    ('O', "?x"), ('O', "$x"), ('O', "( @E )"), ('O', "ASC ( @E )"), ('O', "DESC ( @E )"), ('O', "STR ( @E )"), ('O', "<f> ( @E )"), ('O', "EXISTS @G"),
    // statements
    ('R', "ASK @G"), ('R', "ASK WHERE @G"), ('R', "SELECT * @G"), ('R', "SELECT ?x ?y WHERE @G"), ('R', "SELECT ( @E AS ?x ) @G"), ('R', "SELECT DISTINCT ?a ( @E AS ?x ) ?b { }"), ('R', "SELECT REDUCED * FROM <u> FROM NAMED x:y @G"), ('R', "DESCRIBE *"), ('R', "DESCRIBE ?x <u> x:y"), ('R', "DESCRIBE <u> @G"), ('R', "DESCRIBE * FROM <u> WHERE @G"),
    ('R', "CONSTRUCT { @T } { }"), ('R', "CONSTRUCT { @T } @G"), ('R', "CONSTRUCT { } FROM <u> WHERE @G"), ('R', "CONSTRUCT WHERE { @T }"), ('R', "CONSTRUCT FROM NAMED <u> WHERE { @T }"), ('R', "CONSTRUCT { } { }"), ('R', "CONSTRUCT WHERE { }"),
    ('R', "@R @M"), ('R', "@R VALUES @V"), ('R', "PREFIX x: <u> @R"), ('R', "BASE <b> @R"), ('R', "@R @M VALUES @V"), ('R', "## PREFIX x~: <u> ## ## ASK { }"), ('R', "DESCRIBE ## <u~> ## ##"), ('R', "SELECT ## ( ~ AS ?x~ ) ## ## { }"), ('R', "ASK ## FROM <u~> ## ## { }"),
    // updates
    ('Q', "@T"), ('Q', ""), ('Q', "GRAPH <g> { @T }"), ('Q', "@T . GRAPH ?g { @T } @T"), ('Q', "GRAPH x:g { } @T"), ('Q', "@T GRAPH <g> { }"), ('Q', "GRAPH <g> { @T } . @Q"), ('Q', "## GRAPH <g~> { ?s ?p ~ } ## ##"),
    ('U', "INSERT DATA { @Q }"), ('U', "DELETE DATA { @Q }"), ('U', "DELETE WHERE { @Q }"), ('U', "DELETE { @Q } WHERE @G"), ('U', "INSERT { @Q } WHERE @G"), ('U', "DELETE { @Q } INSERT { @Q } WHERE @G"), ('U', "WITH <u> DELETE { } INSERT { @Q } WHERE @G"), ('U', "WITH x:y INSERT { @Q } USING <u> USING NAMED <v> WHERE { }"), ('U', "DELETE { } USING NAMED x:y WHERE @G"),
    ('U', "LOAD <u>"), ('U', "LOAD SILENT x:y INTO GRAPH <g>"), ('U', "CLEAR ALL"), ('U', "CLEAR SILENT GRAPH <g>"), ('U', "DROP DEFAULT"), ('U', "DROP SILENT NAMED"), ('U', "CREATE GRAPH <g>"), ('U', "CREATE SILENT GRAPH x:y"), ('U', "ADD <u> TO <v>"), ('U', "MOVE SILENT DEFAULT TO GRAPH <v>"), ('U', "COPY GRAPH x:y TO DEFAULT"),
    ('U', "@U ; @U"), ('U', "CLEAR ALL ; @U"), ('U', "@U ; CLEAR ALL"), ('U', "@U ;"), ('U', "PREFIX x: <u> @U"), ('U', "@U ; BASE <b> @U"), ('U', "DELETE { } ## USING <u~> ## ## WHERE { }"), ('U', "## CLEAR GRAPH <g~> ## ; ##"),
];

/// the least of a kind
fn least(k: char) -> &'static str {
    match k {
        'G' => "{ }",
        'L' => "?s ?p ?o",
        'S' => "SELECT * { }",
        'E' | 'K' => "?e",
        'C' => "( ?c )",
        'T' => "?s ?p ?o",
        'N' => "?n",
        'P' => "<p>",
        'V' => "?v { }",
        'Q' => "",
        'D' | 'O' => "?k",
        'R' => "ASK { }",
        'M' => "LIMIT 1",
        _ => "CLEAR ALL",
    }
}

/// a template with the holes that the chain goes on in
struct Prod {
    template: usize,
    /// positions among the template's words; none: the chain ends here
    holes: Vec<usize>,
    next: char,
}

pub struct Space {
    prods: Vec<(char, Vec<Prod>)>,
    /// per kind and number of templates in the chain
    counts: Vec<Vec<u64>>,
    depth: usize,
}

impl Space {
    /// chains of at most `depth` templates over the kinds, the last one of a kind in `ends`
    pub fn new(kinds: &str, ends: &str, depth: usize) -> Space {
        let mut prods: Vec<(char, Vec<Prod>)> = kinds.chars().map(|k| (k, vec![])).collect();
        for (i, (k, t)) in TEMPLATES.iter().enumerate() {
            let list = match prods.iter_mut().find(|p| p.0 == *k) {
                Some(p) => &mut p.1,
                None => continue,
            };
            let holes: Vec<(usize, char)> = t
                .split(' ')
                .enumerate()
                .filter(|(_, w)| w.len() == 2 && w.starts_with('@') && w != &"@en")
                .map(|(at, w)| (at, w.chars().nth(1).unwrap()))
                .filter(|h| kinds.contains(h.1))
                .collect();
            for h in &holes {
                list.push(Prod { template: i, holes: vec![h.0], next: h.1 });
            }
            if holes.len() > 1 && holes.iter().all(|h| h.1 == holes[0].1) {
                list.push(Prod { template: i, holes: holes.iter().map(|h| h.0).collect(), next: holes[0].1 });
            }
            if holes.is_empty() && ends.contains(*k) {
                list.push(Prod { template: i, holes: vec![], next: ' ' });
            }
        }
        let ix = |k: char| prods.iter().position(|p| p.0 == k).unwrap();
        // counts[kind][d]: chains of at most d templates
        let mut counts = vec![vec![0u64; depth + 1]; prods.len()];
        for d in 1..=depth {
            for (j, p) in prods.iter().enumerate() {
                counts[j][d] = p.1.iter().map(|x| if x.holes.is_empty() { 1 } else { counts[ix(x.next)][d - 1] }).fold(0, u64::saturating_add);
            }
        }
        Space { prods, counts, depth }
    }
    fn ix(&self, k: char) -> usize {
        self.prods.iter().position(|p| p.0 == k).unwrap()
    }
    pub fn total(&self, k: char) -> u64 {
        self.counts[self.ix(k)][self.depth]
    }
    /// the i-th chain, in words; `wide` gives the number of items of a wide leaf
    pub fn nth(&self, k: char, i: u64, wide: &mut dyn FnMut() -> usize) -> String {
        self.at(k, self.depth, i, wide)
    }
    fn at(&self, k: char, d: usize, mut i: u64, wide: &mut dyn FnMut() -> usize) -> String {
        for p in &self.prods[self.ix(k)].1 {
            let c = if p.holes.is_empty() { 1 } else { self.counts[self.ix(p.next)][d - 1] };
            if i >= c {
                i -= c;
                continue;
            }
            let inner = if p.holes.is_empty() { String::new() } else { self.at(p.next, d - 1, i, wide) };
            let mut t = TEMPLATES[p.template].1.to_string();
            if t.contains("##") {
                let part: Vec<&str> = t.split("##").collect();
                let items: Vec<String> = (0..wide()).map(|j| part[1].replace('~', &j.to_string())).collect();
                t = format!("{} {} {}", part[0], items.join(part[2]), part[3]);
            }
            let mut s = String::new();
            for (at, w) in t.split(' ').enumerate() {
                if p.holes.contains(&at) {
                    s.push_str(&inner);
                } else if w.len() == 2 && w.starts_with('@') && w.as_bytes()[1].is_ascii_uppercase() {
                    s.push_str(least(w.chars().nth(1).unwrap()));
                } else {
                    s.push_str(w);
                }
                s.push(' ');
            }
            return s;
        }
        unreachable!()
    }
}

/// all chains of the depth in each frame, or `most` of them spread evenly over the whole
pub fn chains(r: &mut Run, name: &str, entry: Entry, frames: &[(&str, char, &str)], kinds: &str, ends: &str, depth: usize, most: u64) {
    let sp = Space::new(kinds, ends, depth);
    let totals: Vec<u64> = frames.iter().map(|f| sp.total(f.1)).collect();
    let total: u64 = totals.iter().sum();
    let n = total.min(most);
    let step = total as f64 / n as f64;
    let part = if n == total { "all" } else { "spread over all" };
    r.par(&format!("{}: {} {} chains of up to {} of {} templates in {} frames", name, part, total, depth, sp.prods.iter().map(|p| p.1.len()).sum::<usize>(), frames.len()), n, |i, g, st| {
        let mut at = if n == total { i } else { ((i as f64 * step) as u64 + g.next() % (step as u64).max(1)).min(total - 1) };
        let mut f = 0;
        while at >= totals[f] {
            at -= totals[f];
            f += 1;
        }
        let mut wide = || match g.below(4) {
            0 => g.range(2, 9),
            1 => g.range(9, 34),
            2 => g.range(2, 70),
            _ => *g.pick(&[2, 3, 5, 9, 16, 17, 21, 26, 31, 33, 51, 63, 64, 65, 101, 129]),
        };
        let inner = sp.nth(frames[f].1, at, &mut wide);
        let t = toks(&format!("{} {} {}", frames[f].0, inner, frames[f].2));
        let lay = *g.pick(&[Lay::Min, Lay::Space, Lay::Mix]);
        let case = *g.pick(&CASES);
        let text = render(g, &t, lay, case, false);
        let v = agree(st, entry, &text, false);
        if v.is_some() || !g.one_in(4) {
            return v;
        }
        // the same with values that recur
        let mut t = t;
        crate::notable::coincide(g, &mut t);
        let text = render(g, &t, lay, case, false);
        agree(st, entry, &text, false)
    });
}

/// every leaf is a sentence somewhere
pub fn self_check() {
    let mut bad = 0;
    for (k, t) in TEMPLATES {
        // sentences with something else than the least only
        if let "?s ?p ?o @L" | "@L ?x ?y ?z" | "@N" = *t {
            continue;
        }
        let s = bare(t);
        let (e, pre, post) = match k {
            'G' => (Entry::Stmt, "ASK", ""),
            'L' | 'T' => (Entry::Stmt, "ASK {", "}"),
            'S' => (Entry::Stmt, "ASK { {", "} }"),
            'C' => (Entry::Stmt, "ASK { FILTER", "}"),
            'E' | 'K' => (Entry::Stmt, "ASK { FILTER (", ") }"),
            'N' => (Entry::Stmt, "ASK {", "?p ?o }"),
            'P' => (Entry::Stmt, "ASK { ?s", "?o }"),
            'V' => (Entry::Stmt, "ASK { } VALUES", ""),
            'M' => (Entry::Stmt, "ASK { }", ""),
            'D' => (Entry::Stmt, "ASK { } GROUP BY", ""),
            'O' => (Entry::Stmt, "ASK { } ORDER BY", ""),
            'R' => (Entry::Stmt, "", ""),
            'Q' => (Entry::Update, "DELETE WHERE {", "}"),
            _ => (Entry::Update, "", ""),
        };
        let s = format!("{} {} {}", pre, s, post);
        if !matches!(crate::refp::parse(e, s.trim()), crate::refp::Verdict::Accept(_)) {
            eprintln!("not a sentence: {} {:?}", s, crate::refp::parse(e, s.trim()));
            bad += 1;
        }
    }
    if bad > 0 {
        std::process::exit(2);
    }
}
fn bare(t: &str) -> String {
        let t = if t.contains("##") {
            let part: Vec<&str> = t.split("##").collect();
            let items: Vec<String> = (0..3).map(|j| part[1].replace('~', &j.to_string())).collect();
            format!("{} {} {}", part[0], items.join(part[2]), part[3])
        } else {
            t.to_string()
        };
        t.split(' ')
            .map(|w| if w.len() == 2 && w.starts_with('@') && w.as_bytes()[1].is_ascii_uppercase() { least(w.chars().nth(1).unwrap()) } else { w })
            .collect::<Vec<_>>()
            .join(" ")
    }

/// a random sentence of nested templates, mostly short; None if the chain is no sentence
pub fn random(g: &mut crate::rng::Rng, widest: usize) -> Option<(Entry, Vec<crate::gen::Tok>, crate::tree::T)> {
    static SPACES: std::sync::OnceLock<Vec<Space>> = std::sync::OnceLock::new();
    let all = "RUGLSCEKTNPVMDOQ";
    let sp = SPACES.get_or_init(|| (1..=6).map(|d| Space::new(all, all, d)).collect());
    let (e, k) = if g.one_in(4) { (Entry::Update, 'U') } else { (Entry::Stmt, 'R') };
    let sp = g.pick(sp);
    let i = g.next() % sp.total(k).max(1);
    let s = if sp.total(k) == 0 { least(k).to_string() } else { sp.nth(k, i, &mut || g.range(2, widest)) };
    match crate::refp::parse(e, &s) {
        crate::refp::Verdict::Accept(t) => Some((e, toks(&s), t)),
        _ => None,
    }
}
