//! Driver: parallel phases, statistics, verdicts, evidence.

use crate::exec::*;
use crate::lex;
use crate::refp::{parse, Entry, Verdict};
use crate::rng::{mix, Rng};
use crate::tree::T;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

pub static CHECK: OnceLock<String> = OnceLock::new();
static REPORTED: AtomicBool = AtomicBool::new(false);

#[derive(Clone, Debug)]
pub struct Viol {
    pub what: String,
    pub entry: Entry,
    pub text: String,
    pub detail: String,
}

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub seen: HashSet<u64>,
    pub counts: BTreeMap<&'static str, u64>,
    pub max: BTreeMap<&'static str, u64>,
    /// (parent, child) node kinds observed in the library's trees
    pub pairs: HashSet<(&'static str, &'static str)>,
    pub samples: Vec<String>,
}

impl Stats {
    pub fn count(&mut self, k: &'static str) {
        *self.counts.entry(k).or_insert(0) += 1
    }
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.counts.entry(k).or_insert(0) += n
    }
    pub fn max(&mut self, k: &'static str, n: u64) {
        let e = self.max.entry(k).or_insert(0);
        if *e < n {
            *e = n
        }
    }
    pub fn tree(&mut self, t: &T) {
        self.max("tree nodes", t.size() as u64);
        let d = walk(t, &mut self.pairs);
        self.max("tree depth", d);
    }
    /// a distinct, non-trivial case
    pub fn case(&mut self, e: Entry, text: &str) {
        if self.seen.insert(hash(e as u64, text)) && self.samples.len() < 2 && text.len() < 300 {
            self.samples.push(format!("{}: {}", entry_name(e), text));
        }
        self.max("text bytes", text.len() as u64);
    }
    fn merge(&mut self, o: Stats) {
        self.evals += o.evals;
        self.seen.extend(o.seen);
        for (k, v) in o.counts {
            self.add(k, v)
        }
        for (k, v) in o.max {
            self.max(k, v)
        }
        self.pairs.extend(o.pairs);
        for s in o.samples {
            if self.samples.len() < 40 {
                self.samples.push(s)
            }
        }
    }
}
fn walk(t: &T, p: &mut HashSet<(&'static str, &'static str)>) -> u64 {
    match t {
        T::A(_) => 1,
        T::N(n, k) => {
            let mut d = 0;
            for c in k {
                if let T::N(m, _) = c {
                    p.insert((n, m));
                }
                d = d.max(walk(c, p));
            }
            d + 1
        }
    }
}

pub fn hash(h: u64, s: &str) -> u64 {
    let mut x = 0xcbf29ce484222325u64 ^ h.wrapping_mul(0x9E3779B97F4A7C15);
    for b in s.bytes() {
        x = (x ^ b as u64).wrapping_mul(0x100000001b3);
    }
    x ^ (x >> 29)
}

pub struct Run {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    pub t0: Instant,
    pub cap: Duration,
    pub threads: usize,
    /// divides the number of cases (for trials of the machinery)
    pub scale: u64,
    pub stats: Stats,
    pub viol: Option<Viol>,
    pub phases: Vec<(String, u64, u64, f64)>,
    pub capped: bool,
    pub rule: String,
}

impl Run {
    /// `q` cases in a quick run, `t` in a thorough one
    pub fn n(&self, q: u64, t: u64) -> u64 {
        let n = if self.thorough { t } else { q };
        (n / self.scale).max(1)
    }
    pub fn par<F>(&mut self, name: &str, n: u64, f: F)
    where
        F: Fn(u64, &mut Rng, &mut Stats) -> Option<Viol> + Sync,
    {
        if self.viol.is_some() {
            return;
        }
        let t = Instant::now();
        let next = AtomicU64::new(0);
        let done = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let capped = AtomicBool::new(false);
        let found: Mutex<Option<(u64, Viol)>> = Mutex::new(None);
        let all = Mutex::new(Stats::default());
        let base = mix(self.seed, hash(7, &format!("{}/{}", self.id, name)));
        let chunk = (n / (self.threads as u64 * 16)).clamp(1, 256);
        let (t0, cap) = (self.t0, self.cap);
        std::thread::scope(|s| {
            for _ in 0..self.threads {
                std::thread::Builder::new()
                    .stack_size(1 << 30)
                    .spawn_scoped(s, || {
                        let mut st = Stats::default();
                        'o: loop {
                            let a = next.fetch_add(chunk, SeqCst);
                            if a >= n || stop.load(SeqCst) {
                                break;
                            }
                            if t0.elapsed() > cap {
                                capped.store(true, SeqCst);
                                break;
                            }
                            for i in a..(a + chunk).min(n) {
                                let mut r = Rng::new(mix(base, i));
                                if let Some(v) = f(i, &mut r, &mut st) {
                                    let mut g = found.lock().unwrap();
                                    if g.as_ref().map_or(true, |x| i < x.0) {
                                        *g = Some((i, v));
                                    }
                                    stop.store(true, SeqCst);
                                    break 'o;
                                }
                                done.fetch_add(1, SeqCst);
                            }
                        }
                        all.lock().unwrap().merge(st);
                    })
                    .unwrap();
            }
        });
        self.stats.merge(all.into_inner().unwrap());
        self.capped |= capped.into_inner();
        self.phases.push((
            name.to_string(),
            n,
            done.into_inner(),
            t.elapsed().as_secs_f64(),
        ));
        if std::env::var("VERIF_VERBOSE").is_ok() {
            eprintln!("{:?}", self.phases.last());
        }
        if let Some((_, v)) = found.into_inner().unwrap() {
            self.viol = Some(v)
        }
    }
}

/// is `text`, whose tree `expected` comes from the generator, read as that tree?
pub fn expect(st: &mut Stats, e: Entry, text: &str, expected: &T) -> Option<Viol> {
    st.evals += 1;
    let (out, steps) = run_steps(e, text);
    st.max("steps", steps);
    match &out {
        Out::Ok(o, t) if t == expected && lex::is_layout(&text[*o..]) => {
            st.tree(t);
            st.case(e, text);
            return None;
        }
        _ => {}
    }
    // the reference parser must agree with the generator before anything is reported
    match parse(e, text) {
        Verdict::Accept(t) if t == *expected => {}
        _ => {
            st.count("oracles disagree (not judged)");
            return None;
        }
    }
    let bad = |s: &str| mismatch(e, s, false).is_some();
    let small = shrink(text, &mut |s| bad(s));
    Some(describe(e, if bad(&small) { &small } else { text }))
}

/// the reference parser's verdict on `text` against the library's; over-acceptance counts
/// only if `rej`
pub fn agree(st: &mut Stats, e: Entry, text: &str, rej: bool) -> Option<Viol> {
    st.evals += 1;
    let v = parse(e, text);
    match &v {
        Verdict::Accept(_) => st.count("sentences"),
        Verdict::Reject => st.count("non-sentences"),
        Verdict::Grey(_) => st.count("not judged"),
    }
    if !matches!(v, Verdict::Grey(_)) && (rej || !matches!(v, Verdict::Reject)) {
        st.case(e, text);
    }
    if let Verdict::Accept(t) = &v {
        st.tree(t);
    }
    mismatch_with(e, text, rej, v)?;
    let bad = |s: &str| mismatch(e, s, rej).is_some();
    let small = shrink(text, &mut |s| bad(s));
    Some(describe(e, if bad(&small) { &small } else { text }))
}

pub fn mismatch(e: Entry, text: &str, rej: bool) -> Option<String> {
    mismatch_with(e, text, rej, parse(e, text))
}
pub fn mismatch_with(e: Entry, text: &str, rej: bool, v: Verdict) -> Option<String> {
    if let Verdict::Grey(_) = v {
        return None;
    }
    if v == Verdict::Reject && !rej {
        return None;
    }
    let out = run(e, text);
    match (v, out) {
        (Verdict::Accept(t), Out::Ok(o, x)) => {
            if !lex::is_layout(&text[o..]) {
                Some(format!("valid text not consumed: {:?} left over", &text[o..]))
            } else {
                t.diff(&x).map(|(p, a, b)| {
                    format!("tree differs at {}: expected {}, got {}", p, cut(&a), cut(&b))
                })
            }
        }
        (Verdict::Accept(_), o) => Some(format!("valid text not accepted: {}", outline(&o))),
        (Verdict::Reject, Out::Ok(o, x)) => {
            if lex::is_layout(&text[o..]) {
                return Some("invalid text accepted in full".into());
            }
            match parse(e, &text[..o]) {
                Verdict::Accept(t) => t.diff(&x).map(|(p, a, b)| {
                    format!(
                        "tree of the consumed part {:?} differs at {}: expected {}, got {}",
                        &text[..o],
                        p,
                        cut(&a),
                        cut(&b)
                    )
                }),
                Verdict::Grey(_) => None,
                Verdict::Reject => Some(format!(
                    "the consumed part {:?} is not a sentence",
                    &text[..o]
                )),
            }
        }
        _ => None,
    }
}
pub fn cut(s: &str) -> String {
    if s.chars().count() > 300 {
        let mut t: String = s.chars().take(300).collect();
        t.push_str("...");
        t
    } else {
        s.to_string()
    }
}
pub fn outline(o: &Out) -> String {
    match o {
        Out::Ok(n, t) => format!("accepted up to byte {} as {}", n, cut(&t.to_string())),
        o => cut(&format!("{:?}", o)),
    }
}
pub fn describe(e: Entry, text: &str) -> Viol {
    Viol {
        what: mismatch(e, text, true).unwrap_or_else(|| "mismatch".into()),
        entry: e,
        text: text.to_string(),
        detail: format!("library: {}; reference: {}", outline(&run(e, text)), {
            match parse(e, text) {
                Verdict::Accept(t) => format!("accepts as {}", cut(&t.to_string())),
                v => format!("{:?}", v),
            }
        }),
    }
}

// ---- reporting

pub fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn write_replay(v: &Viol) -> String {
    let id = CHECK.get().cloned().unwrap_or_default();
    let _ = std::fs::create_dir_all("replays");
    let p = format!("replays/{}-{:016x}.txt", id, hash(1, &v.text));
    let body = format!(
        "property: {}\nentry: {}\nwhat: {}\ndetail: {}\n--- text ---\n{}",
        id,
        entry_name(v.entry),
        v.what.replace('\n', "\\n"),
        v.detail.replace('\n', "\\n"),
        v.text
    );
    let _ = std::fs::write(&p, body);
    p
}
pub fn report(v: &Viol) {
    let id = CHECK.get().cloned().unwrap_or_default();
    let p = write_replay(v);
    println!("{}: {} on {:?}", entry_name(v.entry), v.what, cut(&v.text));
    println!("  {}", v.detail);
    println!("VIOLATION property={} replay={}", id, p);
}
pub fn report_and_exit(what: &str, e: Entry, text: &str) -> ! {
    if REPORTED.swap(true, SeqCst) {
        loop {
            std::thread::sleep(Duration::from_secs(1))
        }
    }
    report(&Viol {
        what: what.into(),
        entry: e,
        text: text.into(),
        detail: String::new(),
    });
    std::process::exit(1)
}

pub fn write_evidence(r: &Run, known: &[String]) {
    let (hit, total) = crate::cov::edges();
    let mut s = String::new();
    let mut phases = vec![];
    for (name, n, d, w) in &r.phases {
        phases.push(format!(
            "{{\"name\":{},\"planned\":{},\"run\":{},\"wall_s\":{:.2}}}",
            json(name),
            n,
            d,
            w
        ));
    }
    let counts: Vec<String> = r
        .stats
        .counts
        .iter()
        .map(|(k, v)| format!("{}:{}", json(k), v))
        .collect();
    let maxes: Vec<String> = r
        .stats
        .max
        .iter()
        .map(|(k, v)| format!("{}:{}", json(k), v))
        .collect();
    let samples: Vec<String> = r.stats.samples.iter().take(12).map(|x| json(&cut(x))).collect();
    let _ = write!(
        s,
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"exploration\",\"coverage\":{{\
\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\
\"phases\":[{}],\"observed\":{{{}}},\"observed_max\":{{{}}},\
\"distinct_parent_child_node_pairs_in_trees\":{},\
\"library_edges_executed\":{},\"library_edges_instrumented\":{},\"stopped_at_wall_limit\":{},\
\"sanitizer_runs\":[{}],\"known_findings_seen\":[{}]}},\
\"assumptions\":[\"the reference grammar (lex.rs, refp.rs) and generator (gen.rs) transcribe SPARQL 1.1 section 19.8; every reported case needs both to agree\"],\
\"wall_s\":{:.2},\"violations\":{}}}\n",
        json(&r.id),
        json(if r.thorough { "thorough" } else { "quick" }),
        r.seed,
        r.stats.evals,
        r.stats.seen.len(),
        json(&r.rule),
        samples.join(","),
        phases.join(","),
        counts.join(","),
        maxes.join(","),
        r.stats.pairs.len(),
        hit,
        total,
        r.capped,
        std::env::var("VERIF_NOTE").map(|x| json(&x)).unwrap_or_default(),
        known.iter().map(|k| json(k)).collect::<Vec<_>>().join(","),
        r.t0.elapsed().as_secs_f64(),
        r.viol.is_some() as u8
    );
    let dir = std::env::var("VERIF_EVIDENCE").unwrap_or("evidence".into());
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(format!("{}/{}.json", dir, r.id), s);
}
