//! Long lists of distinct items: nothing may be lost, merged or moved at any length.

use crate::refp::Entry;
use crate::refp::Entry::*;
use crate::run::*;

/// properties it belongs to, entry, head, item kinds (taken in turn, `#` is the index), separator, tail
type L = (&'static str, Entry, &'static str, &'static [&'static str], &'static str, &'static str);

const LISTS: &[L] = &[
    // triples
    ("C07 C09", Stmt, "ASK{", &["?s# ?p# ?o#"], ".", "}"),
    ("C07", Stmt, "ASK{", &["?s# <p#> #", "x:a# a 'o#'", "_:b# ?p #.5"], " . ", " . }"),
    ("C07", Stmt, "ASK{?s ?p ", &["?o#"], ",", "}"),
    ("C07", Stmt, "ASK{?s ?p ", &["#", "'a#'@en", "<o#>", "x:o#", "_:b#"], ",", "}"),
    ("C07", Stmt, "ASK{?s ?p ?o;?q ", &["?o#"], ",", "}"),
    ("C07 C08", Stmt, "ASK{?s ", &["?p# ?o#"], ";", "}"),
    ("C07 C08", Stmt, "ASK{?s ", &["<p#> ?o#", "x:p# #", "a 'o#'"], ";;", ";.}"),
    ("C07", Stmt, "ASK{?s ?p ?o", &[""], ";", "}"),
    ("C07", Stmt, "ASK{?s ?p ?o;", &[""], ";", "?q 1}"),
    ("C07", Stmt, "ASK{?s ?p(", &["#", "?v#", "[]", "()", "(#)"], " ", ")}"),
    ("C07", Stmt, "ASK{(", &["#", "[?p #]"], " ", ")}"),
    ("C07", Stmt, "ASK{?s ?p[", &["?p# ?o#"], ";", "]}"),
    ("C07", Stmt, "ASK{[", &["<p#> #"], ";", "]?q 1}"),
    ("C07", Stmt, "ASK{?s ?p ", &["[]", "[?p #]", "(#)", "()"], ",", "}"),
    ("C07 C12", Stmt, "CONSTRUCT{", &["?s# ?p# ?o#"], ".", "}WHERE{}"),
    ("C07 C12", Stmt, "CONSTRUCT WHERE{", &["?s# ?p# ?o#"], ".", "}"),
    ("C07", Stmt, "CONSTRUCT{?s ", &["?p# ?o#"], ";", "}WHERE{}"),
    ("C07", Stmt, "CONSTRUCT{?s ?p ", &["#", "?o#", "<o#>"], ",", "}WHERE{}"),
    ("C07", Stmt, "CONSTRUCT{?s ?p (", &["#", "?o#"], " ", ")}WHERE{}"),
    ("C07", Stmt, "CONSTRUCT{?s ?p [", &["?p# #"], ";", "]}WHERE{}"),
    // paths
    ("C08", Stmt, "ASK{?s ", &["<p#>"], "/", " ?o}"),
    ("C08", Stmt, "ASK{?s ", &["<p#>"], "|", " ?o}"),
    ("C08", Stmt, "ASK{?s ", &["^<p#>*", "x:p#?", "a", "(<p#>)+", "!<p#>"], "/", " ?o}"),
    ("C08", Stmt, "ASK{?s ", &["<p#>/<q#>", "^x:p#"], "|", " ?o}"),
    ("C08", Stmt, "ASK{?s !(", &["<p#>", "^<p#>", "a", "^x:p#"], "|", ")?o}"),
    ("C08", Stmt, "ASK{?s ?p ?o;", &["<p#>"], "/", " 1}"),
    ("C08", Stmt, "ASK{?s <a>/(", &["<p#>"], "|", ")*/<b> 1}"),
    // groups
    ("C09", Stmt, "ASK{", &["FILTER(#)"], "", "}"),
    ("C09", Stmt, "ASK{", &["OPTIONAL{?s# ?p ?o}"], "", "}"),
    ("C09", Stmt, "ASK{", &["OPTIONAL{?a ?b #}?d ?e #"], " .", "}"),
    ("C09", Stmt, "ASK{", &["{?s# ?p #}"], "UNION", "}"),
    ("C09", Stmt, "ASK{", &["{?a ?b #}"], " ", "}"),
    ("C09", Stmt, "ASK{", &["MINUS{?a ?b #}"], ".", "}"),
    ("C09", Stmt, "ASK{", &["GRAPH ?g#{}", "GRAPH <g#>{}", "GRAPH x:g#{}"], "", "}"),
    ("C09", Stmt, "ASK{", &["SERVICE SILENT <s#>{}", "SERVICE ?s#{}"], "", "}"),
    ("C09", Stmt, "ASK{", &["BIND(# AS ?x#)"], "", "}"),
    ("C09 C14", Stmt, "ASK{", &["VALUES ?v#{#}"], "", "}"),
    ("C09", Stmt, "ASK{", &["{SELECT ?v# {}}"], "", "}"),
    ("C09", Stmt, "ASK{", &["FILTER(#)", "?s# ?p ?o.", "OPTIONAL{}", "{}UNION{}", "MINUS{}.", "BIND(# AS ?b)?x ?y # ."], "", "}"),
    ("C09", Update, "INSERT{}WHERE{", &["FILTER(#)", "?s# ?p ?o."], "", "}"),
    // expressions
    ("C10", Stmt, "ASK{FILTER(", &["?a#"], "||", ")}"),
    ("C10", Stmt, "ASK{FILTER(", &["?a#", "#", "?a#=#"], "&&", ")}"),
    ("C10", Stmt, "ASK{FILTER(", &["?a#", "!?a#", "1<#"], " || ", ")}"),
    ("C10", Stmt, "ASK{FILTER(", &["?a#", "#"], "+", ")}"),
    ("C10", Stmt, "ASK{FILTER(?a", &["+#", "-#", "+ #", "- ?v#", "+?v#*#"], "", ")}"),
    ("C10", Stmt, "ASK{FILTER(?a", &["*#", "/?v#", "/ -#"], "", ")}"),
    ("C10", Stmt, "ASK{FILTER(1", &["-#", "+#*#/?x"], "", ")}"),
    ("C10", Stmt, "ASK{FILTER(1 IN(", &["#", "?v#"], ",", "))}"),
    ("C10", Stmt, "ASK{FILTER(?x NOT IN(", &["#+1", "'a#'"], ",", "))}"),
    ("C10", Stmt, "ASK{FILTER(1=1", &["-#*?v#"], "", ")}"),
    // calls
    ("C11", Stmt, "ASK{FILTER CONCAT(", &["?a#"], ",", ")}"),
    ("C11", Stmt, "ASK{FILTER COALESCE(", &["?a#", "#", "'a#'"], ",", ")}"),
    ("C11", Stmt, "ASK{FILTER <f>(", &["?a#"], ",", ")}"),
    ("C11", Stmt, "SELECT(x:f(DISTINCT ", &["?a#", "#"], ",", ")AS ?v){}"),
    ("C11", Stmt, "ASK{}ORDER BY <f>(", &["#"], ",", ")"),
    // query forms
    ("C12", Stmt, "SELECT ", &["?v#"], " ", "{}"),
    ("C12", Stmt, "SELECT DISTINCT ", &["?v#", "(# AS ?w#)", "$d#"], " ", "{}"),
    ("C12", Stmt, "ASK{{SELECT ", &["?v#", "(# AS ?w#)"], " ", "{}}}"),
    ("C12", Stmt, "DESCRIBE ", &["<u#>", "?v#", "x:u#"], " ", ""),
    ("C12", Stmt, "DESCRIBE ", &["<u#>", "?v#", "x:u#"], " ", " FROM <g> {} LIMIT 1"),
    ("C12", Stmt, "ASK ", &["FROM NAMED <u#>", "FROM <u#>", "FROM x:u#"], " ", "{}"),
    ("C12", Stmt, "SELECT * ", &["FROM NAMED <u#>", "FROM <u#>"], " ", "{}"),
    ("C12", Stmt, "CONSTRUCT{} ", &["FROM NAMED <u#>", "FROM <u#>"], " ", "{}"),
    ("C12", Stmt, "CONSTRUCT ", &["FROM <u#>"], " ", "WHERE{}"),
    ("C12", Stmt, "DESCRIBE * ", &["FROM NAMED <u#>", "FROM <u#>"], " ", ""),
    ("C12", Stmt, "", &["PREFIX x#:<u#>", "PREFIX :<u#>", "BASE<b#>"], "", "ASK{}"),
    ("C12 C15", Update, "", &["PREFIX x#:<u#>", "BASE<b#>"], "", "LOAD <u>"),
    // modifiers
    ("C13", Stmt, "ASK{}GROUP BY ", &["?g#", "(?x# AS ?y#)", "STR(#)", "<f>(#)", "(#)"], " ", ""),
    ("C13", Stmt, "ASK{}HAVING", &["(#)", "STR(#)", "<f>(#)"], " ", ""),
    ("C13", Stmt, "ASK{}ORDER BY", &["(#)", " ?v#", " ASC(#)", " DESC(?v#)", " STR(#)", " x:f(#)"], "", ""),
    ("C13", Stmt, "ASK{{SELECT*{}GROUP BY", &[" ?g#"], "", " HAVING(1)ORDER BY ?x LIMIT 1}}"),
    ("C13", Stmt, "SELECT*{}ORDER BY", &[" ?v#"], "", " LIMIT 1 OFFSET 2"),
    // VALUES
    ("C14", Stmt, "ASK{VALUES ?v{", &["#", "'a#'", "<u#>", "UNDEF", "true", "x:u#", "#.5e1"], " ", "}}"),
    ("C14", Stmt, "ASK{VALUES(?a ?b){", &["(# UNDEF)", "(<u#> 'a#')"], "", "}}"),
    ("C14", Stmt, "ASK{VALUES(", &["?a#"], " ", "){}}"),
    ("C14", Stmt, "ASK{}VALUES(?a){", &["(#)", "(UNDEF)"], " ", "}"),
    ("C14", Stmt, "ASK{}VALUES(){", &["()"], " ", "}"),
    ("C14", Stmt, "ASK{}VALUES(?a){(", &["#"], " ", ")}"),
    ("C14", Stmt, "SELECT*{}VALUES ?v{", &["#", "-#"], " ", "}"),
    // updates
    ("C15", Update, "", &["LOAD <u#>", "CLEAR GRAPH <u#>", "DROP ALL", "CREATE SILENT GRAPH <u#>"], ";", ""),
    ("C15", Update, "", &["ADD <a#> TO <b#>", "MOVE GRAPH <a#> TO DEFAULT", "COPY DEFAULT TO x:b#"], " ; ", ";"),
    ("C15", Update, "", &["INSERT DATA{?s ?p #}", "DELETE WHERE{?s ?p #}", "DELETE{?s ?p #}WHERE{}"], ";", ""),
    ("C15 C07", Update, "INSERT DATA{", &["<s#> <p> #"], " .", "}"),
    ("C15", Update, "INSERT DATA{", &["GRAPH <g#>{}", "GRAPH x:g#{<s> <p> #}"], "", "}"),
    ("C15", Update, "DELETE DATA{", &["GRAPH <g#>{<s> <p> #}<a> <b> #"], " .", "}"),
    ("C15", Update, "DELETE WHERE{?s ?p ?o.", &["GRAPH ?g#{?s ?p #}.?a ?b # ."], "", "}"),
    ("C15", Update, "DELETE{}", &["USING <u#>", "USING NAMED <u#>", "USING x:u#"], " ", "WHERE{}"),
    ("C15", Update, "DELETE{", &["GRAPH ?g#{?s ?p #}"], "", "}INSERT{?s ?p ?o}WHERE{}"),
    ("C15", Update, "WITH <g> INSERT{?s ?p ", &["#"], ",", "}WHERE{}"),
    ("C15", Update, "INSERT{}WHERE{", &["{?s ?p #}"], "UNION", "}"),
    ("C15 C12", Update, "", &["PREFIX x#:<u#> CLEAR GRAPH x#:y", "BASE<b#>DROP ALL", "LOAD<u#>", "PREFIX :<a#> BASE<b#> PREFIX y:<c#> INSERT DATA{:a y:b #}"], ";", ""),
    ("C15", Update, "", &["BASE<b#>CREATE GRAPH<g#>", "BASE<c#>COPY<a#>TO<b#>"], " ;\n", ";BASE<end>"),
    ("C15", Update, "", &["WITH<g#>DELETE{?s ?p #}USING<u#>WHERE{}", "DELETE WHERE{GRAPH<g#>{?s ?p #}}", "INSERT{?s ?p #}WHERE{?a ?b #}"], ";", ""),
    ("C15", Update, "", &["CLEAR NAMED", "DROP SILENT DEFAULT", "CLEAR ALL", "ADD DEFAULT TO <v#>", "MOVE SILENT <u#> TO DEFAULT"], ";", ""),
    // runs of semicolons, at the end of a property list and between two entries of one
    ("C07", Stmt, "ASK{?s ?p[?p ?o", &[""], ";", "]}"),
    ("C07", Stmt, "ASK{?s ?p[?p ?o;", &[""], ";", "<q> 1]}"),
    ("C07", Stmt, "ASK{[?p ?o", &[""], ";", "].}"),
    ("C07", Stmt, "CONSTRUCT{?s ?p ?o", &[""], " ;", "}WHERE{}"),
    ("C07", Stmt, "CONSTRUCT{?s ?p ?o;", &[""], ";", "?q 1}WHERE{}"),
    ("C07", Stmt, "CONSTRUCT{?s ?p[?p ?o", &[""], ";", "]}WHERE{}"),
    ("C07", Stmt, "CONSTRUCT{[?p ?o;", &[""], "; ", "?q 1].?a ?b ?c}WHERE{}"),
    ("C07", Stmt, "CONSTRUCT WHERE{?s ?p ?o", &[""], ";", ".?a ?b ?c}"),
    ("C07 C15", Update, "INSERT DATA{<s> <p> 1", &[""], ";", "}"),
    ("C07 C15", Update, "DELETE WHERE{GRAPH ?g{<s> <p> 1;", &[""], ";", "<q> 2}}"),
    ("C07 C08", Stmt, "ASK{?s ^<p>* ?o", &[""], " ;", " .?a ?b ?c}"),
    ("C07 C08", Stmt, "ASK{?s ^<p>* ?o;", &[""], ";", "a/<b> 1}"),
    // lists of lists
    ("C07", Stmt, "ASK{?s ", &["<p#> #,'a#',?o#,<o#>,-#"], ";", "}"),
    ("C07", Stmt, "ASK{", &["?s# <p#> 1,2,3;<q#> 4,5,6,?o#;a #"], " .", "}"),
    ("C07", Stmt, "ASK{?s ?p ", &["(# ?v# 'a#')", "[<p#> #,?v#;<q#> 'a#']", "((#)(?v#))"], ",", "}"),
    ("C07", Stmt, "CONSTRUCT{?s ", &["<p#> #,'a#',?o#;<q#> <o#>"], ";", "}WHERE{}"),
    ("C07", Stmt, "ASK{(", &["(# ?v#)", "[?p#(#);?q#[?r# #]]", "[?p#(#)]"], " ", ")}"),
    ("C07 C15", Update, "INSERT DATA{<s> ", &["<p#> #,'a#';<q#> <o#>,x:o#"], ";", "}"),
    ("C08", Stmt, "ASK{?s ", &["<p#>/^<q#>*/(<r#>|a)+", "!(<p#>|^<q#>)/x:r#?", "(<a#>/<b#>)*/(<a#>/<b#>)*"], "|", " ?o}"),
    ("C08", Stmt, "ASK{?s ", &["(<p#>|^<q#>|a)*", "(<p#>/<q#>)?", "!(<p#>|^a)"], "/", " ?o}"),
    ("C08 C07", Stmt, "ASK{?s ", &["<p#>/<q#> #,?o#", "^<p#>|a ?v#", "(<p#>)* 1,2"], ";", "}"),
    ("C09", Stmt, "ASK{", &["{?s ?p #}UNION{?s ?p -#}UNION{}", "{}UNION{OPTIONAL{?a ?b #}}"], ".", "}"),
    ("C09", Stmt, "ASK{", &["{?s ?p # .FILTER(#)OPTIONAL{?a ?b #}}", "{{?s ?p #}{?s ?q #}}"], "UNION", "}"),
    ("C09", Stmt, "ASK{", &["GRAPH<g#>{?s ?p # .?s ?q # .FILTER(#)}?a ?b #;?c # .", "OPTIONAL{MINUS{?s ?p #}?a ?b #}?d ?e # ."], "", "}"),
    ("C10", Stmt, "ASK{FILTER(", &["?a#&&?b#&&#", "?a#=#&&!?b#", "(?a#||?b#)"], "||", ")}"),
    ("C10", Stmt, "ASK{FILTER(", &["?a#*#/?b#", "#*-?c#", "(?a#-#)*#"], "-", ")}"),
    ("C10", Stmt, "ASK{FILTER(?x IN(", &["?a#+#*?b#", "?a# IN(#,?b#)", "(?a#||#&&?c#)", "?x<#"], ",", "))}"),
    ("C11", Stmt, "ASK{FILTER COALESCE(", &["IF(?a#,#,'a#')", "SUBSTR(?a#,#,2)", "<f#>(#,?v#)", "CONCAT(?a#,#)", "COUNT(DISTINCT ?v#)", "REGEX(?a#,'#')"], ",", ")}"),
    ("C11", Stmt, "SELECT ", &["(COUNT(DISTINCT *)AS ?c#)", "(SUM(#)AS ?s#)", "(GROUP_CONCAT(DISTINCT ?g#;SEPARATOR='#')AS ?t#)", "(AVG(DISTINCT ?a#)AS ?b#)"], " ", "{}"),
    ("C12", Stmt, "SELECT ", &["(?a#+#*?b# AS ?x#)", "?v#", "(<f>(#,?v#)AS ?y#)"], " ", " FROM <u> {} VALUES ?v {}"),
    ("C13", Stmt, "ASK{}GROUP BY", &["(?a#+# AS ?b#)", " IF(?a#,#,2)", " ?v#", "(COUNT(*)AS ?c#)", " <f#>(#,?v#)"], "", " HAVING(1)ORDER BY ?x LIMIT 3 OFFSET 4"),
    ("C13", Stmt, "ASK{}HAVING", &["(?h#)"], "", " ORDER BY ?a ?b"),
    ("C13", Stmt, "ASK{}HAVING", &["(?h#=#)", " EXISTS{?s ?p #}", " COUNT(?v#)"], "", " ORDER BY DESC(?a)ASC(?b)?c OFFSET 1 LIMIT 2"),
    ("C13", Stmt, "SELECT*{}GROUP BY ?g ?h HAVING(?a)(?b)ORDER BY", &[" DESC(?v#)", " ?w#"], "", " OFFSET 7"),
    ("C14", Stmt, "ASK{}VALUES(?a ?b ?c ?d){", &["(# UNDEF 'a#' <u#>)", "(UNDEF UNDEF UNDEF UNDEF)", "(true -# x:u# 'a#'@en)"], "", "}"),
    ("C14", Stmt, "ASK{", &["VALUES(?a# ?b#){(# UNDEF)(UNDEF #)}", "VALUES ?v#{# UNDEF <u#>}", "VALUES(){()()}"], " ", "}"),
    ("C14", Stmt, "ASK{VALUES(?a0 ?a1 ?a2 ?a3 ?a4 ?a5 ?a6 ?a7 ?a8 ?a9 ?b0 ?b1 ?b2 ?b3 ?b4 ?b5 ?b6){", &["(# 1# 2# 3# 4# 5# 6# 7# 8# 9# 10# 11# 12# 13# 14# 15# 16#)"], "", "}}"),
    ("C15", Update, "INSERT DATA{", &["GRAPH <g#>{<s> <p> #,1#;<q> # .<a#> <b> 'a#'}", "<s#> <p> #;<q> 'a#'.GRAPH x:g#{}"], "", "}"),
    ("C15", Update, "DELETE{GRAPH ?g{", &["?s# ?p #,?o#;a <c#>"], ".", "}}INSERT{}WHERE{}"),
];

fn text(l: &L, n: usize, from: usize) -> String {
    let mut s = String::from(l.2);
    for j in 0..n {
        if j > 0 {
            s.push_str(l.4);
        }
        s.push_str(&l.3[j % l.3.len()].replace('#', &(from + j).to_string()));
    }
    s.push_str(l.5);
    s
}

/// the list with something too much or missing at its ends or inside
pub fn faulty(l: usize, n: usize, g: &mut crate::rng::Rng) -> Vec<String> {
    let l = &LISTS[l];
    let items: Vec<String> = (0..n).map(|j| l.3[j % l.3.len()].replace('#', &j.to_string())).collect();
    let sep = l.4;
    let join = |gaps: &dyn Fn(usize) -> String| {
        let mut s = String::from(l.2);
        for (j, x) in items.iter().enumerate() {
            if j > 0 {
                s.push_str(&gaps(j));
            }
            s.push_str(x);
        }
        s + l.5
    };
    let mut v = vec![];
    let whole = items.join(sep);
    let other: Vec<&str> = [",", ";", ".", "|", "/", "||", "&&", "UNION", " ", "+", "*", "^"].iter().copied().filter(|o| *o != sep.trim()).collect();
    let mut places = vec![1, n.saturating_sub(1), n / 2];
    for _ in 0..3 {
        places.push(g.below(n.max(1)));
    }
    places.sort();
    places.dedup();
    let glue = if sep.trim().is_empty() { "," } else { sep };
    for x in [glue, *g.pick(&other)] {
        v.push(format!("{}{}{}{}", l.2, whole, x, l.5));
        v.push(format!("{}{}{}{}", l.2, x, whole, l.5));
        v.push(format!("{}{}{}{}{}", l.2, x, whole, x, l.5));
        v.push(format!("{}{} {} {}{}", l.2, whole, x, x, l.5));
    }
    for at in places {
        if at == 0 || at >= n {
            continue;
        }
        // doubled, missing, another one
        v.push(join(&|j| if j == at { format!("{} {}", glue, glue) } else { sep.to_string() }));
        v.push(join(&|j| if j == at { " ".to_string() } else { sep.to_string() }));
        for o in &other {
            v.push(join(&|j| if j == at { format!(" {} ", o) } else { sep.to_string() }));
        }
        // an item with something after it, or taken apart by the other end
        for x in [")", "}", "]", "(", "{", "[", "*", "?z", "1", "\"", "#"] {
            v.push(join(&|j| if j == at { format!("{} {} ", sep, x) } else { sep.to_string() }));
        }
    }
    for x in [")", "}", "]", "?z", "*", "1"] {
        v.push(format!("{}{} {} {}", l.2, whole, x, l.5));
    }
    v.push(format!("{}{}", l.2, whole));
    v
}

pub fn long_lists(r: &mut Run) {
    let all = r.id == "C03";
    let id = r.id.clone();
    let ls: Vec<&L> = LISTS.iter().filter(|l| if all { l.1 == Stmt } else { l.0.contains(&id) }).collect();
    let mut sizes: Vec<usize> = if r.thorough { (1..=1100).collect() } else if all { (1..=66).collect() } else { (1..=140).collect() };
    sizes.extend([127, 128, 129, 150, 199, 200, 201, 249, 250, 251, 254, 255, 256, 257, 258, 299, 300, 400, 499, 500, 501, 511, 512, 513, 600, 800, 999, 1000, 1001, 1023, 1024, 1025]);
    if r.thorough {
        sizes.extend([1999, 2000, 2001, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 9999, 10000, 10001, 65_535, 65_536, 65_537]);
    } else if !all {
        sizes.extend([2000, 2048, 2049, 4097, 10_001, 65_537]);
    }
    sizes.sort();
    sizes.dedup();
    let m = sizes.len() as u64;
    r.par(&format!("{} kinds of list of distinct items at {} lengths up to {}", ls.len(), m, sizes[sizes.len() - 1]), ls.len() as u64 * m, |i, g, st| {
        // long ones spread over the workers
        let l = ls[(i % ls.len() as u64) as usize];
        let n = sizes[sizes.len() - 1 - (i / ls.len() as u64) as usize];
        if n > if l.1 == Update { 5000 } else { 1 << 20 } {
            return None;
        }
        let s = text(l, n, g.below(3));
        st.max("items in a list", n as u64);
        agree(st, l.1, &s, false)
    });
}

/// (properties, entry, head, row head, cell, cell separator, row tail, row separator, tail); `#` is the
/// number of the row, `~` of the cell; `%` in the head is one ` ?v~` for each cell
type M = (&'static str, Entry, &'static str, &'static str, &'static str, &'static str, &'static str, &'static str, &'static str);
const MATRICES: &[M] = &[
    ("C14", Stmt, "ASK{}VALUES(%){", "(", "#.~", " ", ")", "", "}"),
    ("C14", Stmt, "ASK{VALUES(%){", "(", "<u#/~>", "", ")", " ", "}}"),
    ("C14 C09", Stmt, "ASK{", "VALUES ?v#{", "'a#.~'", " ", "}", " ", "}"),
    ("C14", Stmt, "SELECT*{}VALUES(%){", "(", "x:u#_~ ", "", ")", "", "}"),
    ("C07", Stmt, "ASK{?s ", "<p#> ", "#.~", ",", "", ";", "}"),
    ("C07", Stmt, "ASK{", "?s# ", "<p~> #.~", ";", "", " .", "}"),
    ("C07", Stmt, "ASK{?s ?p ", "(", "#.~", " ", ")", ",", "}"),
    ("C07", Stmt, "ASK{?s ?p ", "[", "<p~> '#.~'", ";", "]", ",", "}"),
    ("C07", Stmt, "ASK{(", "(", "?v#_~", " ", ")", "", ")}"),
    ("C07", Stmt, "ASK{[", "<p#> ", "(~ ?v#)", ",", "", ";", "]}"),
    ("C07 C12", Stmt, "CONSTRUCT{", "?s# ?p ", "'#.~'", ",", "", " .", "}WHERE{}"),
    ("C07", Stmt, "CONSTRUCT{?s ", "<p#> ", "?o#_~", ",", "", ";", "}WHERE{}"),
    ("C07 C15", Update, "INSERT DATA{", "<s#> ", "<p~> #.~", ";", "", " .", "}"),
    ("C15", Update, "INSERT DATA{", "GRAPH<g#>{", "<s~> <p> #.~", " .", "}", "", "}"),
    ("C15", Update, "", "DELETE{}", "USING<u#/~>", " ", "WHERE{}", ";", ""),
    ("C15", Update, "", "", "PREFIX x~:<u#/~>", "", "CLEAR ALL", ";", ""),
    ("C15", Update, "", "INSERT DATA{", "<s> <p> #.~", " .", "}", ";", ""),
    ("C08", Stmt, "ASK{?s ", "", "<p#/~>", "/", "", "|", " ?o}"),
    ("C08", Stmt, "ASK{?s ", "(", "<p#/~>", "|", ")*", "/", " ?o}"),
    ("C08", Stmt, "ASK{?s ", "!(", "^<p#/~>", "|", ")", "/", " ?o}"),
    ("C08 C07", Stmt, "ASK{?s ", "", "<p#/~>", "/", " #", ";", "}"),
    ("C09", Stmt, "ASK{", "{", "?s# ?p ~", " .", "}", "UNION", "}"),
    ("C09", Stmt, "ASK{", "OPTIONAL{", "FILTER(#+~)", "", "}", "", "}"),
    ("C09", Stmt, "ASK{", "FILTER(#)", "?s# ?p ~", " .", " .", "", "}"),
    ("C09", Stmt, "ASK{", "", "{?s# ?p ~}", "UNION", ".", "", "}"),
    ("C09 C12", Stmt, "ASK{", "{SELECT ", "?v#_~", " ", "{}}", "", "}"),
    ("C10", Stmt, "ASK{FILTER(", "", "?a#_~", "&&", "", "||", ")}"),
    ("C10", Stmt, "ASK{FILTER(", "", "?a#_~", "*", "", "+", ")}"),
    ("C10", Stmt, "ASK{FILTER(1 IN(", "(", "?a#_~", "-", ")", ",", "))}"),
    ("C10", Stmt, "ASK{FILTER(", "?x# IN(", "#,~", ",", ")", "&&", ")}"),
    ("C11", Stmt, "ASK{FILTER COALESCE(", "CONCAT(", "'#.~'", ",", ")", ",", ")}"),
    ("C11", Stmt, "ASK{FILTER(", "<f#>(", "?a#_~", ",", ")", "+", ")}"),
    ("C12", Stmt, "SELECT ", "(", "?a#_~", "+", " AS ?x#)", " ", "{}"),
    ("C13", Stmt, "ASK{}ORDER BY", "(", "?a#_~", "+", ")", "", " LIMIT 1"),
    ("C13", Stmt, "ASK{}GROUP BY", "(", "?a#_~", "*", " AS ?x#)", "", ""),
    ("C13", Stmt, "ASK{}HAVING", "(", "?a#_~", "&&", ")", "", " ORDER BY ?x DESC(?y)"),
];
fn matrix(m: &M, rows: usize, cells: usize) -> String {
    let vars: String = (0..cells).map(|c| format!(" ?v{}", c)).collect();
    let mut s = m.2.replace('%', &vars);
    for j in 0..rows {
        if j > 0 {
            s.push_str(m.7);
        }
        s.push_str(&m.3.replace('#', &j.to_string()));
        for c in 0..cells {
            if c > 0 {
                s.push_str(m.5);
            }
            s.push_str(&m.4.replace('#', &j.to_string()).replace('~', &c.to_string()));
        }
        s.push_str(&m.6.replace('#', &j.to_string()));
    }
    s + m.8
}
/// rows and cells, all small shapes and some of each large one
pub fn matrices(r: &mut Run) {
    let all = r.id == "C03";
    let id = r.id.clone();
    let ms: Vec<&M> = MATRICES.iter().filter(|m| if all { m.1 == Stmt } else { m.0.contains(&id) }).collect();
    if ms.is_empty() {
        return;
    }
    let mut shapes: Vec<(usize, usize)> = vec![];
    let top = if r.thorough { 40 } else if all { 12 } else { 20 };
    for a in 1..=top {
        for b in 1..=top {
            shapes.push((a, b));
        }
    }
    for a in [2, 3, 9, 17, 25, 26, 31, 32, 33, 48, 63, 64, 65, 66, 100] {
        for b in [1, 2, 3, 5, 9, 17, 26, 33, 50, 65, 66, 100, 129] {
            if a * b <= if r.thorough { 100_000 } else { 3300 } && !all {
                shapes.push((a, b));
                shapes.push((b, a));
            }
        }
    }
    shapes.sort();
    shapes.dedup();
    let m = ms.len() as u64;
    r.par(&format!("{} kinds of list of lists in {} shapes", m, shapes.len()), m * shapes.len() as u64, |i, _, st| {
        let (a, b) = shapes[shapes.len() - 1 - (i / m) as usize];
        let x = ms[(i % m) as usize];
        st.max("items in a list of lists", (a * b) as u64);
        agree(st, x.1, &matrix(x, a, b), false)
    });
}

/// every list text is meant to be a sentence
pub fn self_check() {
    for m in MATRICES {
        for (a, b) in [(1, 1), (3, 2), (2, 3)] {
            let s = matrix(m, a, b);
            if !matches!(crate::refp::parse(m.1, &s), crate::refp::Verdict::Accept(_)) {
                eprintln!("not a sentence: {}", s);
                std::process::exit(2);
            }
        }
    }
    for l in LISTS {
        for n in [1, 2, 7] {
            let s = text(l, n, 0);
            if !matches!(crate::refp::parse(l.1, &s), crate::refp::Verdict::Accept(_)) {
                eprintln!("not a sentence: {}", s);
                std::process::exit(2);
            }
        }
    }
}

pub fn count() -> usize {
    LISTS.len()
}
pub fn entry(i: usize) -> Entry {
    LISTS[i].1
}
/// lists of operations copy the rest of the text for each
pub fn most(i: usize) -> usize {
    if LISTS[i].1 == Update { 5000 } else { 1 << 20 }
}
pub fn nth(i: usize, n: usize) -> String {
    text(&LISTS[i], n, 10)
}
