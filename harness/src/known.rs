//! Known findings: the listed witnesses are run again; each that still fails is named.

use crate::exec::*;
use crate::lex::is_layout;
use crate::refp::Entry;

/// lines `known: property=C03 stmt accept "text" what fails`
pub fn replay(id: &str) -> Vec<String> {
    let mut out = vec![];
    let file = std::fs::read_to_string("known_findings.txt").unwrap_or_default();
    for l in file.lines() {
        let Some(l) = l.strip_prefix("known: ") else { continue };
        let Some(rest) = l.strip_prefix(&format!("property={} ", id)) else { continue };
        let mut p = rest.splitn(4, ' ');
        let (Some(entry), Some(want), Some(n), Some(rest)) = (p.next(), p.next(), p.next(), p.next()) else { continue };
        let Some((text, what)) = quoted(rest) else { continue };
        let Some(e) = entry_by_name(entry) else { continue };
        let times: usize = n.parse().unwrap_or(1);
        let text = if times > 1 { text.repeat(times) } else { text };
        if still(e, want, &text) {
            out.push(what);
        }
    }
    out
}
/// does the witness still show the finding
fn still(e: Entry, want: &str, text: &str) -> bool {
    if want == "no-crash" {
        let f = std::env::temp_dir().join(format!("verif-known-{}", std::process::id()));
        if std::fs::write(&f, text).is_err() {
            return false;
        }
        let o = std::process::Command::new(std::env::current_exe().unwrap())
            .args(["one", entry_name(e), f.to_str().unwrap()])
            .output();
        let _ = std::fs::remove_file(&f);
        use std::os::unix::process::ExitStatusExt;
        return o.map_or(false, |o| o.status.signal().is_some());
    }
    let o = run(e, text);
    let full = match &o {
        Out::Ok(n, _) => is_layout(&text[*n..]),
        _ => false,
    };
    match want {
        "accept" => !full,
        "reject" => full,
        // value:XXX, the tree must hold it
        w => match (w.strip_prefix("holds:"), &o) {
            (Some(x), Out::Ok(_, t)) => !t.to_string().contains(x),
            _ => !full,
        },
    }
}
/// a Rust-like quoted text, and what follows it
fn quoted(s: &str) -> Option<(String, String)> {
    let s = s.strip_prefix('"')?;
    let mut out = String::new();
    let mut it = s.char_indices();
    while let Some((i, c)) = it.next() {
        match c {
            '"' => return Some((out, s[i + 1..].trim().to_string())),
            '\\' => match it.next()?.1 {
                'n' => out.push('\n'),
                c => out.push(c),
            },
            c => out.push(c),
        }
    }
    None
}
