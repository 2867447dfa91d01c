mod aligned;
mod alloc;
mod chars;
mod checks;
mod context;
mod conv;
mod compose;
mod corpus;
mod cov;
mod deep;
mod exec;
mod gen;
mod helpers;
mod lex;
mod lists;
mod mutate;
mod notable;
mod refp;
mod render;
mod rng;
mod run;
mod sweep;
mod trace;
mod tree;

mod known;

use run::*;
use std::process::{Command, ExitStatus};
use std::time::{Duration, Instant};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    match &a[1..] {
        ["check", id] => std::process::exit(parent(id)),
        ["child", id] => std::process::exit(child(id)),
        ["one", entry, file] => one(entry, file),
        ["first", i, seed] => context::first_child(i.parse().unwrap(), seed.parse().unwrap()),
        ["replay", file] => replay(file),
        ["selftest"] => {
            lists::self_check();
            compose::self_check()
        }
        _ => {
            eprintln!("usage: harness check ID | replay FILE");
            std::process::exit(2)
        }
    }
}

fn env_n(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|s| s.parse().ok()).unwrap_or(d).max(1)
}
fn thorough() -> bool {
    std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough")
}
fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

fn limits() {
    #[repr(C)]
    struct RLimit {
        cur: u64,
        max: u64,
    }
    extern "C" {
        fn setrlimit(resource: i32, r: *const RLimit) -> i32;
    }
    // RLIMIT_AS: a parse that eats memory aborts instead of taking the machine along;
    // RLIMIT_CORE: no core files
    unsafe {
        // the sanitizers map terabytes of address space
        if std::env::var_os("VERIF_SAN").is_none() {
            setrlimit(9, &RLimit { cur: 26 << 30, max: 26 << 30 });
        }
        setrlimit(4, &RLimit { cur: 0, max: 0 });
    }
}

fn child(id: &str) -> i32 {
    exec::install_hook();
    limits();
    let _ = CHECK.set(id.to_string());
    if let Ok(d) = std::env::var("VERIF_TRACE_DIR") {
        trace::to(d);
    }
    let t = thorough();
    let mut r = Run {
        id: id.to_string(),
        thorough: t,
        seed: seed(),
        t0: Instant::now(),
        cap: Duration::from_secs(std::env::var("VERIF_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(if t { 7200 } else { 420 })),
        threads: env_n("VERIF_THREADS", 8) as usize,
        scale: env_n("VERIF_SCALE", 1),
        stats: Stats::default(),
        viol: None,
        phases: vec![],
        capped: false,
        rule: String::new(),
    };
    checks::run_check(&mut r);
    let known = if std::env::var_os("VERIF_SAN").is_some() { vec![] } else { known::replay(id) };
    for k in &known {
        println!("KNOWN-FINDING: property={} {}", id, k);
    }
    write_evidence(&r, &known);
    for (name, n, d, w) in &r.phases {
        println!("{:>9}/{:<9} {:6.1}s  {}", d, n, w, name);
    }
    let (h, tot) = cov::edges();
    println!("{}: {} evaluations, {} distinct cases, {}/{} library edges, {:.1}s", id, r.stats.evals, r.stats.seen.len(), h, tot, r.t0.elapsed().as_secs_f64());
    for (k, v) in &r.stats.counts {
        println!("  {}: {}", k, v);
    }
    for (k, v) in &r.stats.max {
        println!("  max {}: {}", k, v);
    }
    if let Some(v) = &r.viol {
        report(v);
        return 1;
    }
    if r.stats.counts.get("oracles disagree (not judged)").is_some() {
        println!("generator and reference parser disagree on some text: the harness is wrong");
        return 2;
    }
    0
}

fn spawn(id: &str, trace: Option<&str>) -> ExitStatus {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.args(["child", id]);
    if let Some(d) = trace {
        c.env("VERIF_TRACE_DIR", d);
    }
    let mut p = c.spawn().expect("cannot start the check");
    let t0 = Instant::now();
    let max = Duration::from_secs(if thorough() { 4 * 3600 } else { 840 });
    loop {
        if let Some(s) = p.try_wait().unwrap() {
            return s;
        }
        if t0.elapsed() > max {
            let _ = p.kill();
            return p.wait().unwrap();
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}
fn signal(s: &ExitStatus) -> Option<i32> {
    use std::os::unix::process::ExitStatusExt;
    s.signal()
}

/// Runs the sanitizer build of this program (VERIF_SAN, VERIF_SAN_BIN) on a smaller workload of
/// the same check. Some(exit code) if that settles the matter.
fn sanitized(id: &str) -> Option<i32> {
    let (bin, kind) = (std::env::var("VERIF_SAN_BIN").ok()?, std::env::var("VERIF_SAN_KIND").ok()?);
    let t0 = Instant::now();
    let dir = format!("{}/verif-{}-{}-{}", std::env::temp_dir().display(), id, kind, std::process::id());
    let _ = std::fs::create_dir_all(&dir);
    let log = format!("{}/log", dir);
    let opts = format!("exitcode=99:halt_on_error=1:abort_on_error=0:detect_leaks=0:detect_stack_use_after_return=0:log_path={}", log);
    let command = |args: &[&str]| {
        let mut c = Command::new(&bin);
        c.args(args).env("ASAN_OPTIONS", &opts).env("TSAN_OPTIONS", &opts).env("VERIF_SAN", &kind);
        c.env_remove("VERIF_SAN_BIN").env_remove("VERIF_SAN_KIND");
        c.env("VERIF_CAP", if thorough() { "3600" } else { "150" });
        c
    };
    let traces = format!("{}/texts", dir);
    let _ = std::fs::create_dir_all(&traces);
    let mut c = command(&["child", id]);
    // traces cost little beside the sanitizer, except that file writes order threads for TSan
    if kind == "asan" {
        c.env("VERIF_TRACE_DIR", &traces);
    }
    c.env("VERIF_SCALE", if thorough() { "4" } else { "10" }).env("VERIF_EVIDENCE", format!("{}/evidence", dir));
    let out = c.stderr(std::process::Stdio::inherit()).output();
    let logs = || {
        let mut s = String::new();
        if let Ok(d) = std::fs::read_dir(&dir) {
            for f in d.flatten() {
                if f.file_name().to_string_lossy().starts_with("log") {
                    s.push_str(&String::from_utf8_lossy(&std::fs::read(f.path()).unwrap_or_default()));
                }
            }
        }
        s
    };
    let mut res = None;
    let mut note = String::new();
    match out {
        Err(e) => note = format!("could not run: {}", e),
        Ok(o) => {
            let text = String::from_utf8_lossy(&o.stdout).to_string();
            let l = logs();
            let sum = l.lines().find(|x| x.starts_with("SUMMARY:") || x.contains("ERROR: ") || x.starts_with("WARNING: ")).unwrap_or("").to_string();
            match o.status.code() {
                Some(0) => {
                    note = text.lines().find(|x| x.starts_with(&format!("{}:", id))).unwrap_or("").to_string();
                }
                Some(1) if text.contains("VIOLATION property=") => {
                    print!("{}", text);
                    res = Some(1);
                }
                Some(99) if !l.is_empty() => {
                    let mut found = (refp::Entry::Stmt, String::new());
                    for (e, t) in trace::read(&traces) {
                        let f = format!("{}/text", dir);
                        let _ = std::fs::write(&f, &t);
                        if let Ok(o) = command(&["one", exec::entry_name(e), &f]).output() {
                            if o.status.code() == Some(99) {
                                found = (e, t);
                                break;
                            }
                        }
                    }
                    for x in l.lines().take(40) {
                        println!("{}", x);
                    }
                    report(&Viol { what: format!("{} reports: {}", kind, sum), entry: found.0, text: found.1, detail: cut(&l) });
                    res = Some(1);
                }
                // deaths of other kinds are found again, and told apart, by the plain run
                c => note = format!("no answer (exit {:?}) {}", c, sum),
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    let note = format!("{} run of the same workload, scaled down: {} ({:.1}s)", kind, note, t0.elapsed().as_secs_f64());
    println!("{}", note);
    if res.is_some() {
        let mut r = empty_run(id, "the sanitizer run settled the matter");
        r.viol = Some(Viol { what: note.clone(), entry: refp::Entry::Stmt, text: String::new(), detail: String::new() });
        write_evidence(&r, &[]);
    }
    std::env::set_var("VERIF_NOTE", note);
    res
}

fn empty_run(id: &str, rule: &str) -> Run {
    Run {
        id: id.to_string(),
        thorough: thorough(),
        seed: seed(),
        t0: Instant::now(),
        cap: Duration::from_secs(0),
        threads: env_n("VERIF_THREADS", 8) as usize,
        scale: env_n("VERIF_SCALE", 1),
        stats: Stats::default(),
        viol: None,
        phases: vec![],
        capped: false,
        rule: rule.into(),
    }
}

/// the check itself runs in a child process, so that its death can be told and explained
fn parent(id: &str) -> i32 {
    if !checks::IDS.contains(&id) {
        eprintln!("no check {}", id);
        return 2;
    }
    let _ = std::fs::remove_file(format!("evidence/{}.json", id));
    let _ = CHECK.set(id.to_string());
    if let Some(code) = sanitized(id) {
        return code;
    }
    let s = spawn(id, None);
    let sig = match signal(&s) {
        None => return s.code().unwrap_or(2),
        Some(9) => {
            println!("{}: killed (out of memory or time)", id);
            return 2;
        }
        Some(n) => n,
    };
    println!("{}: the process died of signal {}; looking for the text", id, sig);
    let dir = format!("{}/verif-{}-{}", std::env::temp_dir().display(), id, std::process::id());
    let _ = std::fs::create_dir_all(&dir);
    let s2 = spawn(id, Some(&dir));
    let mut found = None;
    if signal(&s2).is_some() {
        for (e, text) in trace::read(&dir) {
            let f = format!("{}/text", dir);
            let _ = std::fs::write(&f, &text);
            let p = Command::new(std::env::current_exe().unwrap())
                .args(["one", exec::entry_name(e), &f])
                .output();
            if let Ok(o) = p {
                if signal(&o.status).is_some() {
                    found = Some((e, text));
                    break;
                }
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    let _ = CHECK.set(id.to_string());
    let (e, text) = found.unwrap_or((refp::Entry::Stmt, String::new()));
    report(&Viol {
        what: format!("parsing ended the process (signal {})", sig),
        entry: e,
        text,
        detail: "stack exhausted, memory exhausted, or aborted".into(),
    });
    // evidence of a run that could not end
    let mut r = empty_run(id, "the workload ended the process");
    r.viol = Some(Viol { what: "died".into(), entry: e, text: String::new(), detail: String::new() });
    write_evidence(&r, &[]);
    1
}

/// parse one text on an 8 MiB stack
fn one(entry: &str, file: &str) {
    exec::install_hook();
    limits();
    let e = exec::entry_by_name(entry).expect("entry");
    let text = std::fs::read_to_string(file).expect("file");
    let o = std::thread::Builder::new()
        .stack_size(deep::STACK)
        .spawn(move || {
            let o = exec::raw(e, &text).0;
            let s = match &o {
                Err(m) => format!("panic {}", m),
                Ok(Ok((r, _))) => format!("accepted, {} bytes left", r.len()),
                Ok(Err(e)) => cut(&format!("{:?}", e)),
            };
            std::mem::forget(o);
            s
        })
        .unwrap()
        .join();
    println!("{}", o.unwrap_or("panic".into()));
}

fn replay(file: &str) {
    exec::install_hook();
    let b = std::fs::read_to_string(file).expect("file");
    let (head, text) = b.split_once("--- text ---\n").expect("a replay file");
    print!("{}", head);
    let e = head
        .lines()
        .find_map(|l| l.strip_prefix("entry: "))
        .and_then(exec::entry_by_name)
        .unwrap_or(refp::Entry::Stmt);
    let text = text.to_string();
    std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(move || {
            println!("library:   {}", outline(&exec::run(e, &text)));
            println!("reference: {}", cut(&format!("{:?}", refp::parse(e, &text))));
            println!("verdict:   {}", mismatch(e, &text, true).unwrap_or("no mismatch with the grammar".into()));
        })
        .unwrap()
        .join()
        .unwrap();
}
