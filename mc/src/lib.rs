//! Shared plumbing of the bounded checkers: tier selection, measured counters,
//! evidence files, violation/known-finding reporting, parallel enumeration.
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub use serde_json::{json, Value};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub fn tier() -> Tier {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

pub fn repo_dir() -> PathBuf {
    PathBuf::from(std::env::var("REPO_DIR").unwrap_or_else(|_| "/repo".into()))
}

/// `q` on the quick tier, `t` on the thorough tier.
pub fn pick<T>(q: T, t: T) -> T {
    match tier() {
        Tier::Quick => q,
        Tier::Thorough => t,
    }
}

struct Known {
    key: String,
    text: String,
}

pub struct Check {
    pub id: String,
    level: &'static str,
    start: Instant,
    states: AtomicU64,
    transitions: AtomicU64,
    traces: AtomicU64,
    evals: AtomicU64,
    nontrivial: Mutex<HashSet<u64>>,
    outcomes: Mutex<BTreeMap<String, u64>>,
    samples: Mutex<Vec<Value>>,
    extra: Mutex<BTreeMap<String, Value>>,
    assumptions: Mutex<Vec<String>>,
    known: Vec<Known>,
    known_hit: Mutex<BTreeSet<String>>,
    violations: Mutex<Vec<(String, String)>>,
    viol_count: AtomicU64,
    truncated: Mutex<Option<String>>,
    rule: Mutex<String>,
}

const MAX_KEPT: usize = 20;

impl Check {
    /// `level` is one of the levels of the evidence schema.
    pub fn new(id: &str, level: &'static str) -> Self {
        let mut known = Vec::new();
        let path = verif_dir().join("known-findings.txt");
        if let Ok(text) = std::fs::read_to_string(&path) {
            let prefix = format!("known: property={id} key=");
            for line in text.lines() {
                if let Some(rest) = line.strip_prefix(&prefix) {
                    let (key, text) = match rest.split_once(" :: ") {
                        Some((k, t)) => (k.to_string(), t.to_string()),
                        None => (rest.to_string(), String::new()),
                    };
                    known.push(Known { key, text });
                }
            }
        }
        Check {
            id: id.to_string(),
            level,
            start: Instant::now(),
            states: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            evals: AtomicU64::new(0),
            nontrivial: Mutex::new(HashSet::new()),
            outcomes: Mutex::new(BTreeMap::new()),
            samples: Mutex::new(Vec::new()),
            extra: Mutex::new(BTreeMap::new()),
            assumptions: Mutex::new(Vec::new()),
            known,
            known_hit: Mutex::new(BTreeSet::new()),
            violations: Mutex::new(Vec::new()),
            viol_count: AtomicU64::new(0),
            truncated: Mutex::new(None),
            rule: Mutex::new(String::new()),
        }
    }

    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }
    pub fn state(&self, n: u64) {
        self.states.fetch_add(n, Ordering::Relaxed);
    }
    pub fn trans(&self, n: u64) {
        self.transitions.fetch_add(n, Ordering::Relaxed);
    }
    pub fn trace(&self, n: u64) {
        self.traces.fetch_add(n, Ordering::Relaxed);
    }
    /// One evaluation (an execution of the code under test on one enumerated case).
    pub fn eval(&self, n: u64) {
        self.evals.fetch_add(n, Ordering::Relaxed);
    }
    /// Records a distinct non-trivial case by content.
    pub fn nontrivial<T: Hash>(&self, t: &T) {
        let h = hash64(t);
        self.nontrivial.lock().unwrap().insert(h);
    }
    pub fn nontrivial_many<I: IntoIterator<Item = u64>>(&self, it: I) {
        self.nontrivial.lock().unwrap().extend(it);
    }
    /// Histogram of outcomes: shows that the enumeration is not vacuous.
    pub fn outcome(&self, name: &str) {
        self.outcome_n(name, 1);
    }
    pub fn outcome_n(&self, name: &str, n: u64) {
        *self.outcomes.lock().unwrap().entry(name.to_string()).or_insert(0) += n;
    }
    pub fn sample(&self, v: impl Into<Value>) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 12 {
            s.push(v.into());
        }
    }
    pub fn want_sample(&self) -> bool {
        self.samples.lock().unwrap().len() < 12
    }
    pub fn note(&self, k: &str, v: impl Into<Value>) {
        self.extra.lock().unwrap().insert(k.to_string(), v.into());
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.to_string());
    }
    pub fn rule(&self, s: &str) {
        *self.rule.lock().unwrap() = s.to_string();
    }
    /// The space was not enumerated completely: says where it stopped.
    pub fn truncated(&self, why: &str) {
        *self.truncated.lock().unwrap() = Some(why.to_string());
    }

    /// A failure of the property. `key` names the specific failing input, site or
    /// history; only a committed entry with the same key demotes it to a known finding.
    pub fn violation(&self, key: &str, detail: &str) {
        if let Some(k) = self.known.iter().find(|k| k.key == key) {
            let fresh = self.known_hit.lock().unwrap().insert(key.to_string());
            if fresh {
                println!("KNOWN-FINDING: property={} {} {}", self.id, k.key, k.text);
            }
            return;
        }
        self.viol_count.fetch_add(1, Ordering::Relaxed);
        let mut v = self.violations.lock().unwrap();
        if let Ok(p) = std::env::var("VERIF_DUMP_KEYS") {
            // Developer aid: lists every failing key.
            if let Ok(mut f) = std::fs::OpenOptions::new().create(true).append(true).open(p) {
                let _ = writeln!(f, "known: property={} key={}", self.id, key);
            }
        }
        if v.len() < MAX_KEPT && !v.iter().any(|(k, _)| k == key) {
            v.push((key.to_string(), detail.to_string()));
        }
    }

    pub fn violated(&self) -> bool {
        self.viol_count.load(Ordering::Relaxed) > 0
    }
    pub fn violation_count(&self) -> u64 {
        self.viol_count.load(Ordering::Relaxed)
    }

    /// Writes evidence, prints the verdict, and exits.
    pub fn finish(self) -> ! {
        let code = self.finish_code();
        std::process::exit(code)
    }

    pub fn finish_code(self) -> i32 {
        let dir = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        let viols = self.violations.lock().unwrap();
        let mut cov = serde_json::Map::new();
        let (s, t, tr, e) = (
            self.states.load(Ordering::Relaxed),
            self.transitions.load(Ordering::Relaxed),
            self.traces.load(Ordering::Relaxed),
            self.evals.load(Ordering::Relaxed),
        );
        if self.level == "model_checking" {
            cov.insert("states".into(), json!(s));
            cov.insert("transitions".into(), json!(t));
            cov.insert("traces_validated_against_impl".into(), json!(tr));
        }
        if e > 0 || self.level != "model_checking" {
            cov.insert("evaluations".into(), json!(e));
        }
        let nt = self.nontrivial.lock().unwrap().len();
        if nt > 0 || self.level != "model_checking" {
            cov.insert("distinct_nontrivial".into(), json!(nt));
        }
        let rule = self.rule.lock().unwrap();
        if !rule.is_empty() {
            cov.insert("rule".into(), json!(*rule));
        }
        cov.insert("samples".into(), Value::Array(self.samples.lock().unwrap().clone()));
        cov.insert("outcomes".into(), json!(*self.outcomes.lock().unwrap()));
        let trunc = self.truncated.lock().unwrap();
        cov.insert("exhaustive".into(), json!(trunc.is_none() && viols.is_empty()));
        if let Some(w) = trunc.as_ref() {
            cov.insert("truncated".into(), json!(w));
        }
        for (k, v) in self.extra.lock().unwrap().iter() {
            cov.insert(k.clone(), v.clone());
        }
        let hit = self.known_hit.lock().unwrap();
        if !hit.is_empty() {
            cov.insert("known_findings_seen".into(), json!(*hit));
        }
        let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let ev = json!({
            "property": self.id,
            "tier": if tier() == Tier::Quick { "quick" } else { "thorough" },
            "seed": seed,
            "level": self.level,
            "coverage": Value::Object(cov),
            "assumptions": *self.assumptions.lock().unwrap(),
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": self.viol_count.load(Ordering::Relaxed),
        });
        let path = dir.join(format!("{}.json", self.id));
        if let Err(e) = std::fs::write(&path, serde_json::to_string_pretty(&ev).unwrap() + "\n") {
            eprintln!("cannot write evidence {}: {e}", path.display());
            return 3;
        }
        println!(
            "{}: states={s} transitions={t} traces={tr} evaluations={e} nontrivial={nt} wall={:.1}s",
            self.id,
            self.start.elapsed().as_secs_f64()
        );
        for (k, n) in self.outcomes.lock().unwrap().iter() {
            println!("  {k}: {n}");
        }
        if viols.is_empty() {
            println!("{}: held", self.id);
            let _ = std::io::stdout().flush();
            return 0;
        }
        let rdir = dir.join("replay");
        let _ = std::fs::create_dir_all(&rdir);
        for (i, (k, d)) in viols.iter().enumerate() {
            let p = rdir.join(format!("{}-{}.txt", self.id, i));
            let _ = std::fs::write(&p, format!("property: {}\nkey: {k}\n\n{d}\n", self.id));
            println!("--- failing case: {k}");
            for l in d.lines().take(40) {
                println!("    {l}");
            }
            println!("VIOLATION property={} replay={}", self.id, p.display());
        }
        let _ = std::io::stdout().flush();
        1
    }
}

pub fn hash64<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// Runs `f` on 0..n over all cores, handing out indices in order.
pub fn par_for(n: usize, f: impl Fn(usize) + Sync) {
    let next = AtomicUsize::new(0);
    let th = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(n.max(1));
    std::thread::scope(|s| {
        for _ in 0..th {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= n {
                        break;
                    }
                    f(i);
                })
                .unwrap();
        }
    });
}

/// Runs `f` on every element over all cores.
pub fn par_each<T: Sync>(items: &[T], f: impl Fn(&T) + Sync) {
    par_for(items.len(), |i| f(&items[i]));
}

/// Calls `f`; a panic becomes `Err(message)`. The default hook is silenced once.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        let old = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |i| {
            if QUIET.with(|q| q.get()) == 0 {
                old(i)
            }
        }));
    });
    QUIET.with(|q| q.set(q.get() + 1));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    QUIET.with(|q| q.set(q.get() - 1));
    r.map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        }
    })
}
thread_local! { static QUIET: std::cell::Cell<u32> = const { std::cell::Cell::new(0) }; }

/// All sequences over `alphabet` of length exactly `len`.
pub fn sequences<T: Clone>(alphabet: &[T], len: usize) -> Vec<Vec<T>> {
    let mut out = vec![vec![]];
    for _ in 0..len {
        let mut next = Vec::with_capacity(out.len() * alphabet.len());
        for p in &out {
            for a in alphabet {
                let mut q: Vec<T> = p.clone();
                q.push(a.clone());
                next.push(q);
            }
        }
        out = next;
    }
    out
}

/// All permutations of 0..n.
pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    fn go(cur: &mut Vec<usize>, used: &mut Vec<bool>, out: &mut Vec<Vec<usize>>) {
        if cur.len() == used.len() {
            out.push(cur.clone());
            return;
        }
        for i in 0..used.len() {
            if !used[i] {
                used[i] = true;
                cur.push(i);
                go(cur, used, out);
                cur.pop();
                used[i] = false;
            }
        }
    }
    let mut out = vec![];
    go(&mut vec![], &mut vec![false; n], &mut out);
    out
}

/// Every word over 0..k of length 0..=n, shortest prefixes first.
pub fn words(k: usize, n: usize, f: &mut dyn FnMut(&[usize])) {
    fn go(k: usize, n: usize, w: &mut Vec<usize>, f: &mut dyn FnMut(&[usize])) {
        f(w);
        if w.len() < n {
            for i in 0..k {
                w.push(i);
                go(k, n, w, f);
                w.pop();
            }
        }
    }
    go(k, n, &mut vec![], f)
}

mod child;
pub use child::isolated;
