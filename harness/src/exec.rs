//! Runs the library on a text and records what is observable: tree, remainder (as a position
//! in the caller's buffer), error and its position, panic.

use crate::conv;
use crate::refp::Entry;
use crate::tree::T;
use nom::error::ErrorKind;
use nom::Err as NE;
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, PartialEq, Debug)]
pub enum Out {
    /// offset of the remainder in the input, and the tree
    Ok(usize, T),
    /// kind, offset, failure (as opposed to a recoverable error)
    Err(ErrorKind, usize, bool),
    /// the parser asked for more input
    Incomplete,
    /// remainder or error position outside the caller's input
    Foreign(String),
    Panic(String),
}

thread_local! {
    static QUIET: Cell<bool> = Cell::new(false);
    static MSG: RefCell<String> = RefCell::new(String::new());
}

/// panics inside library calls are recorded, not printed
pub fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if QUIET.with(|q| q.get()) {
            MSG.with(|m| *m.borrow_mut() = i.to_string().replace('\n', " "));
        } else {
            old(i)
        }
    }));
}

/// call library code, recording a panic
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    QUIET.with(|q| q.set(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(false));
    r.map_err(|_| MSG.with(|m| m.borrow().clone()))
}

fn offset(text: &str, part: &str) -> Result<usize, String> {
    let (b, p) = (text.as_ptr() as usize, part.as_ptr() as usize);
    if p < b || p + part.len() > b + text.len() {
        return Err("not inside the caller's input".into());
    }
    if p + part.len() != b + text.len() {
        return Err(format!("does not reach the end of the input (offset {})", p - b));
    }
    if !text.is_char_boundary(p - b) {
        return Err(format!("begins inside a character (offset {})", p - b));
    }
    Ok(p - b)
}

/// what an entry point returned, before conversion to the neutral tree
#[derive(Clone, Debug, PartialEq)]
pub enum Ast {
    Stmt(nom_sparql::query::SparqlQueryStatement),
    Query(nom_sparql::query::SparqlQuery),
    Ask(nom_sparql::query::ask::AskQuery),
    Describe(nom_sparql::query::describe::DescribeQuery),
    Construct(nom_sparql::query::construct::ConstructQuery),
    SubConstruct(nom_sparql::query::construct::SubConstruct),
    SubTriples(nom_sparql::query::construct::SubTriples),
    Update(nom_sparql::update::Update),
}
pub type Raw<'a> = Result<Result<(&'a str, Ast), NE<(&'a str, ErrorKind)>>, String>;

pub fn tree_of(a: &Ast) -> T {
    match a {
        Ast::Stmt(x) => conv::stmt(x),
        Ast::Query(x) => conv::query(x),
        Ast::Ask(x) => conv::ask(x),
        Ast::Describe(x) => conv::describe(x),
        Ast::Construct(x) => conv::construct(x),
        Ast::SubConstruct(x) => conv::sub_construct(x),
        Ast::SubTriples(x) => conv::sub_triples(x),
        Ast::Update(x) => conv::update(x),
    }
}

pub fn cook(text: &str, r: Raw) -> Out {
    match r {
        Err(m) => Out::Panic(m),
        Ok(Ok((rest, a))) => match offset(text, rest) {
            Ok(o) => Out::Ok(o, tree_of(&a)),
            Err(m) => Out::Foreign(format!("remainder {}", m)),
        },
        Ok(Err(NE::Incomplete(_))) => Out::Incomplete,
        Ok(Err(NE::Error((p, k)))) => match offset(text, p) {
            Ok(o) => Out::Err(k, o, false),
            Err(m) => Out::Foreign(format!("error position {}", m)),
        },
        Ok(Err(NE::Failure((p, k)))) => match offset(text, p) {
            Ok(o) => Out::Err(k, o, true),
            Err(m) => Out::Foreign(format!("error position {}", m)),
        },
    }
}

/// generous: about thirty times what the most expensive text of that length needs today
pub fn step_limit(len: usize) -> u64 {
    30_000_000 + 20_000 * len as u64
}

thread_local! {
    static CUR: RefCell<(Option<Entry>, String)> = RefCell::new((None, String::new()));
}

pub fn run(e: Entry, text: &str) -> Out {
    run_steps(e, text).0
}

/// result and number of executed edges
pub fn run_steps(e: Entry, text: &str) -> (Out, u64) {
    let (r, n) = raw(e, text);
    (cook(text, r), n)
}

pub fn raw(e: Entry, text: &str) -> (Raw<'_>, u64) {
    CUR.with(|c| {
        let mut c = c.borrow_mut();
        c.0 = Some(e);
        c.1.clear();
        c.1.push_str(text);
    });
    crate::trace::note(e, text);
    crate::cov::counted(step_limit(text.len()), || call(e, text))
}

/// the library call alone: nothing is recorded about it
pub fn bare(e: Entry, text: &str) -> Raw<'_> {
    call(e, text)
}

/// called by the instrumentation when a call exceeds its step limit
pub fn runaway(steps: u64) -> ! {
    CUR.with(|c| {
        let c = c.borrow();
        crate::run::report_and_exit(
            &format!("parsing did not end within {} executed edges", steps),
            c.0.unwrap_or(Entry::Stmt),
            &c.1,
        )
    })
}

fn call(e: Entry, text: &str) -> Raw<'_> {
    use nom_sparql::parser::*;
    use nom_sparql::query::{ask, construct, describe};
    guarded(|| match e {
        Entry::Stmt => sparql_query_stmt(text).map(|(r, x)| (r, Ast::Stmt(x))),
        Entry::Query => sparql_query(text).map(|(r, x)| (r, Ast::Query(x))),
        Entry::Ask => ask::ask_query(text).map(|(r, x)| (r, Ast::Ask(x))),
        Entry::Describe => describe::describe_query(text).map(|(r, x)| (r, Ast::Describe(x))),
        Entry::Construct => construct::construct_query(text).map(|(r, x)| (r, Ast::Construct(x))),
        Entry::SubConstruct => {
            construct::sub_construct(text).map(|(r, x)| (r, Ast::SubConstruct(x)))
        }
        Entry::SubTriples => construct::sub_triples(text).map(|(r, x)| (r, Ast::SubTriples(x))),
        Entry::Update => nom_sparql::verif_hooks::update(text).map(|(r, x)| (r, Ast::Update(x))),
    })
}

pub const ENTRIES: [Entry; 8] = [
    Entry::Stmt,
    Entry::Query,
    Entry::Ask,
    Entry::Describe,
    Entry::Construct,
    Entry::SubConstruct,
    Entry::SubTriples,
    Entry::Update,
];

pub fn entry_name(e: Entry) -> &'static str {
    match e {
        Entry::Stmt => "stmt",
        Entry::Query => "query",
        Entry::Ask => "ask",
        Entry::Describe => "describe",
        Entry::Construct => "construct",
        Entry::SubConstruct => "sub_construct",
        Entry::SubTriples => "sub_triples",
        Entry::Update => "update",
    }
}
pub fn entry_by_name(s: &str) -> Option<Entry> {
    ENTRIES.iter().copied().find(|e| entry_name(*e) == s)
}
/// is layout before the first token part of this entry point's language
pub fn leads(e: Entry) -> bool {
    matches!(e, Entry::Stmt | Entry::Update)
}

/// Fewer bytes of `text` for which `bad` still holds: chunks, then single characters.
pub fn shrink(text: &str, bad: &mut dyn FnMut(&str) -> bool) -> String {
    let mut cur: Vec<char> = text.chars().collect();
    let t0 = std::time::Instant::now();
    let mut chunk = (cur.len() / 2).max(1);
    loop {
        let mut i = 0;
        let mut hit = false;
        while i < cur.len() {
            if t0.elapsed().as_secs() > 20 {
                return cur.into_iter().collect();
            }
            let mut cand = cur.clone();
            cand.drain(i..(i + chunk).min(cur.len()));
            let s: String = cand.iter().collect();
            if bad(&s) {
                cur = cand;
                hit = true;
            } else {
                i += chunk;
            }
        }
        if chunk == 1 && !hit {
            return cur.into_iter().collect();
        }
        if !hit || chunk > 1 {
            chunk = (chunk / 2).max(1);
        }
    }
}
