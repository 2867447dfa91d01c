//! Small hand-written sentences, tokens apart, that together use every production of the
//! grammar; "U:" marks updates.

pub const CORPUS: &[&str] = &[
    // prologue and query forms
    "ASK { }", "ASK WHERE { }", "BASE <b> ASK { }", "PREFIX x: <u> ASK { }", "PREFIX : <u> BASE <b> PREFIX x: <u> ASK { }",
    "SELECT * { }", "SELECT ?a { }", "SELECT ?a $b WHERE { }", "SELECT DISTINCT ?a { }", "SELECT REDUCED * { }",
    "SELECT ( 1 AS ?a ) { }", "SELECT ?a ( ?b + 1 AS ?c ) ?d { }", "SELECT * FROM <u> { }", "SELECT * FROM NAMED <u> FROM x:y WHERE { }",
    "CONSTRUCT { } { }", "CONSTRUCT { ?s ?p ?o } WHERE { }", "CONSTRUCT { ?s ?p ?o . } FROM <u> WHERE { } LIMIT 1", "CONSTRUCT WHERE { }", "CONSTRUCT WHERE { ?s ?p ?o }", "CONSTRUCT FROM <u> WHERE { ?s ?p ?o . ?s a x:y . } LIMIT 1",
    "DESCRIBE *", "DESCRIBE ?a", "DESCRIBE <u> ?a x:y { }", "DESCRIBE * FROM <u> WHERE { } LIMIT 1", "DESCRIBE <u> LIMIT 1", "ASK FROM <u> { } VALUES ?v { 1 }",
    // modifiers
    "ASK { } GROUP BY ?a", "ASK { } GROUP BY ?a STR ( ?b ) <f> ( ?c ) ( ?d ) ( ?e AS ?f )", "ASK { } HAVING ( 1 )", "ASK { } HAVING ( 1 ) <f> () BOUND ( ?v )",
    "ASK { } ORDER BY ?a", "ASK { } ORDER BY ASC ( ?a ) DESC ( 1 ) ?b ( ?c ) <f> ( 1 ) STR ( 1 )", "ASK { } LIMIT 1", "ASK { } OFFSET 1", "ASK { } LIMIT 1 OFFSET 2", "ASK { } OFFSET 1 LIMIT 2",
    "ASK { } GROUP BY ?a HAVING ( 1 ) ORDER BY ?b LIMIT 1 OFFSET 2 VALUES ?v { }",
    // VALUES
    "ASK { } VALUES ?v { }", "ASK { } VALUES ?v { 1 <u> x:y \"s\" \"s\" @en \"s\" ^^ <u> true UNDEF -2.5e3 }", "ASK { } VALUES () { }", "ASK { } VALUES () { () }",
    "ASK { } VALUES ( ?v ) { ( 1 ) }", "ASK { } VALUES ( ?v ?w ) { ( 1 UNDEF ) ( <u> \"s\" @en ) }", "ASK { VALUES ?v { 1 } }", "ASK { VALUES ( ?v ) { ( 1 ) } . ?s ?p ?o }",
    // groups
    "ASK { { } }", "ASK { { } UNION { } UNION { } }", "ASK { OPTIONAL { } }", "ASK { MINUS { } }", "ASK { GRAPH ?g { } }", "ASK { GRAPH <g> { ?s ?p ?o } }", "ASK { SERVICE <u> { } }", "ASK { SERVICE SILENT ?v { } }",
    "ASK { FILTER ( 1 ) }", "ASK { FILTER <f> ( 1 ) }", "ASK { FILTER STR ( 1 ) }", "ASK { BIND ( 1 AS ?v ) }", "ASK { ?s ?p ?o . FILTER ( 1 ) . ?s ?p ?o . OPTIONAL { } ?s ?p ?o }", "ASK { { } . { } ?s ?p ?o . }",
    "ASK { SELECT * { } }", "ASK { { SELECT ?a WHERE { } LIMIT 1 } }", "ASK { SELECT ( 1 AS ?a ) { } GROUP BY ?a HAVING ( 1 ) ORDER BY ?b OFFSET 2 VALUES ?v { 1 } }",
    // triples
    "ASK { ?s ?p ?o }", "ASK { ?s ?p ?o . }", "ASK { ?s ?p ?o . ?s ?p ?o }", "ASK { ?s a ?o }", "ASK { ?s ?p ?o , ?q }", "ASK { ?s ?p ?o ; ?q ?r }", "ASK { ?s ?p ?o ; }", "ASK { ?s ?p ?o ; ; ?q ?r ; }",
    "ASK { [ ?p ?o ] }", "ASK { [ ?p ?o ] ?q ?r }", "ASK { ( 1 ) ?p ?o }", "ASK { ( 1 ?a ( 2 ) [ a ?b ] ) ?p ?o }", "ASK { ?s ?p ( 1 ) }", "ASK { ?s ?p [ ?q ?r ; ?t ?u , ?v ] }", "ASK { () ?p () }", "ASK { [] ?p [] }",
    "ASK { _:b x:y \"s\" @en , \"s\" ^^ x:y , 1 , -2 , +1.5 , .5e1 , true , false }", "ASK { <u> <v> x: }", "ASK { \"s\" ?p 1 . 1 ?p \"s\" . true ?p true }",
    "CONSTRUCT { ?s a ?o , 1 ; <p> [ ?q ?r ] ; ?t ( 1 2 ) ; . } { }", "CONSTRUCT { [ a ?b ] . ( 1 ) ?p ?o . [ a ?b ] ?p ?o } { }", "CONSTRUCT WHERE { ?s a ?o , 1 ; <p> [ ?q ?r ] ; ?t ( 1 2 ) ; . }",
    // paths
    "ASK { ?s <p> / x:q ?o }", "ASK { ?s <p> | a ?o }", "ASK { ?s ^ <p> ?o }", "ASK { ?s <p> * ?o }", "ASK { ?s <p> ? ?o }", "ASK { ?s <p> + ?o }", "ASK { ?s ( <p> ) * / ^ ( a | <q> ) + ?o }",
    "ASK { ?s ! <p> ?o }", "ASK { ?s ! a ?o }", "ASK { ?s ! ^ a ?o }", "ASK { ?s ! () ?o }", "ASK { ?s ! ( <p> ) ?o }", "ASK { ?s ! ( <p> | ^ x:q | a | ^ a ) * ?o }", "ASK { ?s <p> ?o ; ^ <q> / a ?r , 1 }", "ASK { [ <p> / <q> 1 ; ^ a 2 ] }",
    // expressions
    "ASK { FILTER ( 1 || 2 || 3 ) }", "ASK { FILTER ( 1 && 2 && 3 ) }", "ASK { FILTER ( 1 = 2 ) }", "ASK { FILTER ( 1 != 2 ) }", "ASK { FILTER ( 1 < 2 ) }", "ASK { FILTER ( 1 > 2 ) }", "ASK { FILTER ( 1 <= 2 ) }", "ASK { FILTER ( 1 >= 2 ) }",
    "ASK { FILTER ( 1 IN () ) }", "ASK { FILTER ( 1 IN ( 2 , 3 ) ) }", "ASK { FILTER ( 1 NOT IN ( 2 ) ) }", "ASK { FILTER ( 1 + 2 - 3 ) }", "ASK { FILTER ( 1 * 2 / 3 ) }", "ASK { FILTER ( ! ?a ) }", "ASK { FILTER ( - ?a + + ?b ) }", "ASK { FILTER ( ?a -1 * 2 +3 ) }",
    "ASK { FILTER ( ( 1 ) ) }", "ASK { FILTER ( \"s\" @en = \"s\" ^^ <u> ) }", "ASK { FILTER ( <u> + x:y ( 1 ) ) }", "ASK { FILTER ( <f> () + true ) }", "ASK { FILTER <f> ( DISTINCT 1 , 2 ) }", "ASK { FILTER ( ?a || ?b && ?c = ?d + ?e * ! ?f ) }",
    // calls
    "ASK { FILTER EXISTS { } }", "ASK { FILTER NOT EXISTS { } }", "ASK { FILTER ( EXISTS { ?s ?p ?o } ) }", "ASK { FILTER BOUND ( ?v ) }", "ASK { FILTER BNODE () }", "ASK { FILTER BNODE ( 1 ) }", "ASK { FILTER RAND () }", "ASK { FILTER NOW () }", "ASK { FILTER UUID () }", "ASK { FILTER STRUUID () }",
    "ASK { FILTER CONCAT () }", "ASK { FILTER CONCAT ( 1 , 2 ) }", "ASK { FILTER COALESCE ( 1 ) }", "ASK { FILTER IF ( 1 , 2 , 3 ) }", "ASK { FILTER REGEX ( 1 , 2 ) }", "ASK { FILTER REGEX ( 1 , 2 , 3 ) }", "ASK { FILTER SUBSTR ( 1 , 2 ) }", "ASK { FILTER SUBSTR ( 1 , 2 , 3 ) }",
    "ASK { FILTER REPLACE ( 1 , 2 , 3 ) }", "ASK { FILTER REPLACE ( 1 , 2 , 3 , 4 ) }", "ASK { FILTER LANGMATCHES ( 1 , 2 ) }", "ASK { FILTER STRDT ( 1 , 2 ) }", "ASK { FILTER SAMETERM ( 1 , 2 ) }", "ASK { FILTER STRLEN ( 1 ) }", "ASK { FILTER ISNUMERIC ( 1 ) }", "ASK { FILTER MD5 ( 1 ) }", "ASK { FILTER YEAR ( NOW () ) }",
    "SELECT ( COUNT ( * ) AS ?v ) { }", "SELECT ( COUNT ( DISTINCT * ) AS ?v ) { }", "SELECT ( COUNT ( ?a ) AS ?v ) { }", "SELECT ( SUM ( ?a ) AS ?v ) { }", "SELECT ( SAMPLE ( DISTINCT ?a ) AS ?v ) { }", "SELECT ( GROUP_CONCAT ( ?a ) AS ?v ) { }", "SELECT ( GROUP_CONCAT ( DISTINCT ?a ; SEPARATOR = \"s\" ) AS ?v ) { }",
    // updates
    "U:LOAD <u>", "U:LOAD SILENT <u> INTO GRAPH x:y", "U:CLEAR ALL", "U:CLEAR SILENT GRAPH <u>", "U:DROP DEFAULT", "U:DROP SILENT NAMED", "U:CREATE GRAPH <u>", "U:CREATE SILENT GRAPH <u>", "U:ADD <u> TO <v>", "U:ADD SILENT GRAPH <u> TO DEFAULT", "U:MOVE DEFAULT TO GRAPH <u>", "U:MOVE SILENT <u> TO <v>", "U:COPY <u> TO DEFAULT", "U:COPY SILENT GRAPH <u> TO GRAPH <v>",
    "U:INSERT DATA { }", "U:INSERT DATA { <s> <p> <o> . }", "U:INSERT DATA { <s> <p> <o> . GRAPH <g> { <s> <p> <o> } . <s> <p> <o> }", "U:INSERT DATA { GRAPH <g> { } GRAPH <h> { } }", "U:DELETE DATA { <s> <p> <o> }", "U:DELETE WHERE { ?s ?p ?o }", "U:DELETE WHERE { GRAPH ?g { ?s ?p ?o . } }",
    "U:DELETE { } WHERE { }", "U:INSERT { } WHERE { }", "U:DELETE { ?s ?p ?o } INSERT { GRAPH ?g { ?s ?p ?o } } USING <u> USING NAMED <v> WHERE { ?s ?p ?o }", "U:WITH <u> DELETE { } INSERT { } WHERE { }", "U:WITH <u> INSERT { ?s ?p ?o } WHERE { }",
    "U:CLEAR ALL ;", "U:CLEAR ALL ; DROP ALL", "U:PREFIX x: <u> CLEAR ALL ; BASE <b> DROP ALL ; PREFIX y: <u>", "U:PREFIX x: <u>",
];
