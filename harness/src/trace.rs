//! When the process died before, each thread keeps the text it is working on in a file, so
//! that the text that ends the process can be found.

use crate::exec::entry_name;
use crate::refp::Entry;
use std::cell::RefCell;
use std::fs::File;
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::OnceLock;

static DIR: OnceLock<String> = OnceLock::new();
static NEXT: AtomicU64 = AtomicU64::new(0);
thread_local! {
    static FILE: RefCell<Option<File>> = RefCell::new(None);
}
pub fn to(dir: String) {
    let _ = DIR.set(dir);
}
pub fn note(e: Entry, text: &str) {
    if let Some(d) = DIR.get() {
        FILE.with(|f| {
            let mut f = f.borrow_mut();
            if f.is_none() {
                *f = File::create(format!("{}/{}", d, NEXT.fetch_add(1, SeqCst))).ok();
            }
            if let Some(f) = f.as_ref() {
                let line = format!("{:020} {}\n", text.len(), entry_name(e));
                let mut b = line.into_bytes();
                b.extend_from_slice(text.as_bytes());
                let _ = f.write_all_at(&b, 0);
            }
        });
    }
}
/// what each thread was working on
pub fn read(dir: &str) -> Vec<(Entry, String)> {
    let mut v = vec![];
    if let Ok(d) = std::fs::read_dir(dir) {
        for f in d.flatten() {
            if let Ok(b) = std::fs::read(f.path()) {
                let nl = match b.iter().position(|c| *c == b'\n') {
                    Some(p) => p,
                    None => continue,
                };
                let head = String::from_utf8_lossy(&b[..nl]).to_string();
                let mut p = head.split(' ');
                let len: usize = p.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                let e = p.next().and_then(crate::exec::entry_by_name);
                if let (Some(e), true) = (e, nl + 1 + len <= b.len()) {
                    if let Ok(s) = String::from_utf8(b[nl + 1..nl + 1 + len].to_vec()) {
                        v.push((e, s));
                    }
                }
            }
        }
    }
    v
}
