//! Explicit-state exploration of replicated data types: every interleaving of local
//! updates, full-state exchanges and delta exchanges among a few replicas, up to a
//! bounded number of actions, on the real types. The oracle is a declarative
//! specification over the causal history (which update events a replica has seen and
//! what each event had seen), written without reference to the implementation's state.
use crate::canon::canon;
use logicaffeine_data::crdt::*;
use mc::{guard, hash64, Check};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Debug;
use std::sync::Mutex;

pub type Eid = (usize, usize);

#[derive(Clone)]
pub struct Event<O> {
    pub op: O,
    pub past: BTreeSet<Eid>,
}
pub type Hist<O> = BTreeMap<Eid, Event<O>>;

pub trait Rep: Clone + Send + Sync {
    const NAME: &'static str;
    type Op: Clone + Debug + Send + Sync;
    fn new(r: usize) -> Self;
    /// Enabled local updates. `uid` is unique to the event being created.
    fn ops(&self, uid: u64) -> Vec<Self::Op>;
    fn apply(&mut self, op: &Self::Op);
    fn merge_from(&mut self, o: &Self);
    fn obs(&self) -> String;
    fn key(&self) -> String;
    /// The observation the specification demands of a replica that has seen `vis`.
    /// `None`: sequence types, checked by `seq_labels`.
    fn spec(vis: &BTreeSet<Eid>, h: &Hist<Self::Op>) -> Option<String>;
    /// For sequence types: the labels that must be visible.
    fn seq_labels(_vis: &BTreeSet<Eid>, _h: &Hist<Self::Op>) -> Option<BTreeSet<u64>> {
        None
    }
    fn list(&self) -> Vec<u64> {
        vec![]
    }
    /// For sequence types: the effect of a local update on a plain list.
    fn list_effect(_before: &[u64], _op: &Self::Op) -> Option<Vec<u64>> {
        None
    }
    const DELTAS: bool = false;
    /// Applies `src`'s delta for this replica's version; returns false if none was due.
    fn apply_delta_from(&mut self, _src: &Self) -> bool {
        false
    }
    /// The events a delta exchange conveys from src to dst.
    fn delta_learns(_dst: &BTreeSet<Eid>, src: &BTreeSet<Eid>, _h: &Hist<Self::Op>) -> BTreeSet<Eid> {
        src.clone()
    }
    /// A further demand on the merge of two replicas, given what each has seen.
    fn merge_rule(_merged: &Self, _a: &Self, _va: &BTreeSet<Eid>, _b: &Self, _vb: &BTreeSet<Eid>, _h: &Hist<Self::Op>) -> Result<(), String> {
        Ok(())
    }
    /// A round trip through the persisted/wire form.
    fn reserialize(&self) -> Option<Self> {
        None
    }
}

#[derive(Clone)]
enum Act<O> {
    Local(usize, O),
    Merge(usize, usize),
    Delta(usize, usize),
}

#[derive(Clone)]
struct World<R: Rep> {
    reps: Vec<R>,
    vis: Vec<BTreeSet<Eid>>,
    hist: Hist<R::Op>,
    seq: Vec<usize>,
    acts: Vec<Act<R::Op>>,
}

impl<R: Rep> World<R> {
    fn history(&self) -> String {
        let one = |a: &Act<R::Op>| match a {
            Act::Local(i, op) => format!("r{i}.{op:?}"),
            Act::Merge(d, s) => format!("r{d}<-r{s}"),
            Act::Delta(d, s) => format!("r{d}<~r{s}"),
        };
        self.acts.iter().map(one).collect::<Vec<_>>().join("; ")
    }
    /// Runs the recorded history again from fresh replicas; true if every replica shows the same.
    fn replays(&self) -> bool {
        let mut reps: Vec<R> = (0..self.reps.len()).map(R::new).collect();
        for a in &self.acts {
            match a {
                Act::Local(i, op) => reps[*i].apply(op),
                Act::Merge(d, s) => {
                    let o = reps[*s].clone();
                    reps[*d].merge_from(&o)
                }
                Act::Delta(d, s) => {
                    let o = reps[*s].clone();
                    reps[*d].apply_delta_from(&o);
                }
            }
        }
        reps.iter().zip(&self.reps).all(|(a, b)| a.obs() == b.obs())
    }
    /// The causal history, independent of the order in which it was explored.
    fn hkey(&self) -> String {
        let e = |id: &Eid| format!("r{}#{}", id.0, id.1);
        let set = |v: &BTreeSet<Eid>| v.iter().map(e).collect::<Vec<_>>().join(" ");
        let evs: Vec<String> = self.hist.iter().map(|(k, v)| format!("{}={:?}[{}]", e(k), v.op, set(&v.past))).collect();
        let vis: Vec<String> = self.vis.iter().enumerate().map(|(i, v)| format!("r{i}[{}]", set(v))).collect();
        format!("{} / {}", evs.join(" "), vis.join(" "))
    }
    fn key(&self) -> u64 {
        let mut s = String::new();
        for (i, r) in self.reps.iter().enumerate() {
            s.push_str(&r.key());
            s.push_str(&format!("{:?}", self.vis[i]));
        }
        for (k, e) in &self.hist {
            s.push_str(&format!("{:?}{:?}{:?}", k, e.op, e.past));
        }
        hash64(&s)
    }
}

pub struct Bounds {
    pub replicas: usize,
    pub actions: usize,
    pub local: usize,
    pub deltas: bool,
    /// Check the delta laws at every state even if deltas are not explored as actions.
    pub laws: bool,
    pub cap: usize,
}

/// True if the property is violated by `who` holding `vis`.
fn check_one<R: Rep>(c: &Check, what: &str, r: &R, vis: &BTreeSet<Eid>, w: &World<R>) -> bool {
    let h = &w.hist;
    let fail = |exp: String, got: String| {
        c.violation(
            &format!("{}:{}:{}", R::NAME, what, w.hkey()),
            &format!("{} after {}\nexpected {}\nobserved {}\nhistory: {}", R::NAME, what, exp, got, w.history()),
        );
    };
    if let Some(exp) = R::spec(vis, h) {
        let got = r.obs();
        if got != exp {
            fail(exp, got);
            return true;
        }
    }
    if let Some(lbl) = R::seq_labels(vis, h) {
        let l = r.list();
        let got: BTreeSet<u64> = l.iter().copied().collect();
        if got != lbl || l.len() != lbl.len() {
            fail(format!("{lbl:?}"), format!("{l:?}"));
            return true;
        }
    }
    false
}

fn order_conflict(a: &[u64], b: &[u64]) -> bool {
    let pos: BTreeMap<u64, usize> = b.iter().enumerate().map(|(i, v)| (*v, i)).collect();
    let common: Vec<usize> = a.iter().filter_map(|v| pos.get(v).copied()).collect();
    common.windows(2).any(|w| w[0] >= w[1])
}

fn check_state<R: Rep>(c: &Check, w: &World<R>, b_deltas: bool) -> bool {
    let n = w.reps.len();
    let mut bad = false;
    for i in 0..n {
        bad |= check_one(c, &format!("replica {i}"), &w.reps[i], &w.vis[i], w);
        let mut m = w.reps[i].clone();
        m.merge_from(&w.reps[i].clone());
        if m.obs() != w.reps[i].obs() {
            c.violation(&format!("{}:self-merge:{}", R::NAME, w.hkey()), &format!("merging replica {i} with itself changed {} into {}", w.reps[i].obs(), m.obs()));
            bad = true;
        }
        if let Some(x) = w.reps[i].reserialize() {
            if x.obs() != w.reps[i].obs() {
                c.violation(&format!("{}:serialize:{}", R::NAME, w.hkey()), &format!("round trip changed {} into {}", w.reps[i].obs(), x.obs()));
                bad = true;
            }
        }
    }
    if bad {
        return true;
    }
    for i in 0..n {
        for j in 0..n {
            if i == j {
                continue;
            }
            let mut a = w.reps[i].clone();
            a.merge_from(&w.reps[j]);
            let u: BTreeSet<Eid> = w.vis[i].union(&w.vis[j]).copied().collect();
            bad |= check_one(c, &format!("merge of {j} into {i}"), &a, &u, w);
            if let Err(e) = R::merge_rule(&a, &w.reps[i], &w.vis[i], &w.reps[j], &w.vis[j], &w.hist) {
                c.violation(&format!("{}:rule {i},{j}:{}", R::NAME, w.hkey()), &format!("history: {}\n{e}; merged {}", w.history(), a.obs()));
                bad = true;
            }
            let mut b = w.reps[j].clone();
            b.merge_from(&w.reps[i]);
            if a.obs() != b.obs() {
                c.violation(
                    &format!("{}:merge {i},{j} not commutative:{}", R::NAME, w.hkey()),
                    &format!("history: {}\n{i} merged with {j}: {}\n{j} merged with {i}: {}", w.history(), a.obs(), b.obs()),
                );
                bad = true;
            }
            // Merging again, or with a state already included, changes nothing.
            let mut again = a.clone();
            again.merge_from(&w.reps[j]);
            again.merge_from(&w.reps[i]);
            if again.obs() != a.obs() {
                c.violation(&format!("{}:re-merge:{}", R::NAME, w.hkey()), &format!("re-delivery changed {} into {}", a.obs(), again.obs()));
                bad = true;
            }
            for k in 0..n {
                if k == i || k == j {
                    continue;
                }
                let mut left = a.clone();
                left.merge_from(&w.reps[k]);
                let mut bc = w.reps[j].clone();
                bc.merge_from(&w.reps[k]);
                let mut right = w.reps[i].clone();
                right.merge_from(&bc);
                if left.obs() != right.obs() {
                    c.violation(
                        &format!("{}:merge {i},{j},{k} not associative:{}", R::NAME, w.hkey()),
                        &format!("history: {}\n({i} {j}) {k}: {}\n{i} ({j} {k}): {}", w.history(), left.obs(), right.obs()),
                    );
                    bad = true;
                }
            }
            if order_conflict(&w.reps[i].list(), &w.reps[j].list()) || order_conflict(&a.list(), &w.reps[i].list()) || order_conflict(&a.list(), &w.reps[j].list()) {
                c.violation(
                    &format!("{}:order of {i},{j}:{}", R::NAME, w.hkey()),
                    &format!("history: {}\n{:?} vs {:?}, merged {:?}", w.history(), w.reps[i].list(), w.reps[j].list(), a.list()),
                );
                bad = true;
            }
            // A delta followed by a full exchange is the full exchange.
            if R::DELTAS && b_deltas {
                let mut d = w.reps[i].clone();
                d.apply_delta_from(&w.reps[j]);
                let after_delta = d.obs();
                d.merge_from(&w.reps[j]);
                if d.obs() != a.obs() {
                    c.violation(
                        &format!("{}:delta {j}->{i} then merge:{}", R::NAME, w.hkey()),
                        &format!("history: {}\nmerge alone: {}\nafter delta: {after_delta}\ndelta then merge: {}", w.history(), a.obs(), d.obs()),
                    );
                    bad = true;
                }
                let mut d = w.reps[i].clone();
                d.apply_delta_from(&w.reps[j]);
                let mut back = w.reps[j].clone();
                back.merge_from(&d);
                if back.obs() != b.obs() {
                    c.violation(
                        &format!("{}:delta {j}->{i} merged back:{}", R::NAME, w.hkey()),
                        &format!("history: {}\nmerge: {}\nafter delta, merged back: {}", w.history(), b.obs(), back.obs()),
                    );
                    bad = true;
                }
            }
        }
    }
    bad
}

pub fn explore<R: Rep>(c: &Check, b: &Bounds) {
    let init = World::<R> {
        reps: (0..b.replicas).map(R::new).collect(),
        vis: vec![BTreeSet::new(); b.replicas],
        hist: BTreeMap::new(),
        seq: vec![0; b.replicas],
        acts: vec![],
    };
    let seen: Vec<Mutex<HashSet<u64>>> = (0..64).map(|_| Mutex::new(HashSet::new())).collect();
    seen[(init.key() % 64) as usize].lock().unwrap().insert(init.key());
    let mut frontier = vec![init];
    let t0 = c.elapsed();
    let (mut states, mut trans) = (1u64, 0u64);
    for depth in 0..b.actions {
        let next: Mutex<Vec<World<R>>> = Mutex::new(vec![]);
        let tr = std::sync::atomic::AtomicU64::new(0);
        mc::par_each(&frontier, |w| {
            let mut out = vec![];
            let succ = match guard(|| successors(c, w, b)) {
                Ok(s) => s,
                Err(m) => {
                    c.violation(&format!("{}:panic:{}", R::NAME, w.hkey()), &format!("panic {m} after {}", w.history()));
                    return;
                }
            };
            tr.fetch_add(succ.len() as u64, std::sync::atomic::Ordering::Relaxed);
            for s in succ {
                let k = s.key();
                if seen[(k % 64) as usize].lock().unwrap().insert(k) {
                    match guard(|| check_state(c, &s, b.deltas || b.laws)) {
                        Ok(false) => out.push(s),
                        Ok(true) => {}
                        Err(m) => c.violation(&format!("{}:panic:{}", R::NAME, s.hkey()), &format!("panic {m} after {}", s.history())),
                    }
                }
            }
            next.lock().unwrap().append(&mut out);
        });
        frontier = next.into_inner().unwrap();
        states += frontier.len() as u64;
        trans += tr.into_inner();
        if frontier.len() > b.cap {
            c.truncated(&format!("{} with {} replicas stopped after {} actions", R::NAME, b.replicas, depth + 1));
            break;
        }
        if let (Some(w), true) = (frontier.last(), depth + 1 == b.actions) {
            c.sample(format!("{}: {}", R::NAME, w.history()));
        }
    }
    c.state(states);
    c.trans(trans);
    // Every history of full length is run once more from the start, on fresh replicas.
    mc::par_each(&frontier, |w| {
        if !w.replays() {
            c.violation(&format!("{}:replay:{}", R::NAME, w.hkey()), &format!("the same history gave another outcome: {}", w.history()));
        }
    });
    c.trace(frontier.len() as u64);
    c.outcome_n(&format!("{} x{} deltas={} <= {} actions ({:.1}s)", R::NAME, b.replicas, b.deltas, b.actions, c.elapsed() - t0), states);
}

fn successors<R: Rep>(c: &Check, w: &World<R>, b: &Bounds) -> Vec<World<R>> {
    let mut out = vec![];
    let n = w.reps.len();
    if w.hist.len() < b.local {
        for i in 0..n {
            let uid = (w.seq[i] as u64) * 10 + i as u64 + 1;
            for op in w.reps[i].ops(uid) {
                let mut s = w.clone();
                let before = s.reps[i].list();
                s.reps[i].apply(&op);
                let id = (i, s.seq[i]);
                s.seq[i] += 1;
                s.hist.insert(id, Event { op: op.clone(), past: s.vis[i].clone() });
                s.vis[i].insert(id);
                s.acts.push(Act::Local(i, op.clone()));
                if let Some(exp) = R::list_effect(&before, &op) {
                    let got = s.reps[i].list();
                    if got != exp {
                        c.violation(&format!("{}:local effect:{}", R::NAME, s.hkey()), &format!("history: {}\nbefore {before:?}, {op:?}: expected {exp:?}, observed {got:?}", s.history()));
                    }
                }
                out.push(s);
            }
        }
    }
    for d in 0..n {
        for src in 0..n {
            if d == src {
                continue;
            }
            let mut s = w.clone();
            let o = s.reps[src].clone();
            s.reps[d].merge_from(&o);
            let add = s.vis[src].clone();
            s.vis[d].extend(add);
            s.acts.push(Act::Merge(d, src));
            out.push(s);
            if b.deltas {
                let mut s = w.clone();
                let o = s.reps[src].clone();
                let shipped = s.reps[d].apply_delta_from(&o);
                if shipped {
                    let learn = R::delta_learns(&s.vis[d], &s.vis[src], &s.hist);
                    s.vis[d].extend(learn);
                } else {
                    // Nothing was due: the specification must agree that no addition was missing.
                    let learn = R::delta_learns(&s.vis[d], &s.vis[src], &s.hist);
                    if learn.iter().any(|e| !s.vis[d].contains(e)) {
                        c.violation(&format!("{}:no delta {src}->{d}:{}", R::NAME, s.hkey()), &format!("history: {}\nreplica {src} had news for {d} but produced no delta", s.history()));
                    }
                }
                s.acts.push(Act::Delta(d, src));
                out.push(s);
            }
        }
    }
    out
}

// ------------------------------------------------------------------ the types

fn rid(r: usize) -> u64 {
    (r as u64) + 1
}
fn round<T: serde::Serialize + serde::de::DeserializeOwned>(t: &T) -> Option<T> {
    bincode::deserialize(&bincode::serialize(t).ok()?).ok()
}

#[derive(Clone)]
pub struct GC(GCounter);
impl Rep for GC {
    const NAME: &'static str = "grow-only counter";
    type Op = u64;
    fn new(r: usize) -> Self {
        GC(GCounter::with_replica_id(rid(r)))
    }
    fn ops(&self, _: u64) -> Vec<u64> {
        vec![1, 3]
    }
    fn apply(&mut self, op: &u64) {
        self.0.increment(*op)
    }
    fn merge_from(&mut self, o: &Self) {
        self.0.merge(&o.0)
    }
    fn obs(&self) -> String {
        self.0.value().to_string()
    }
    fn key(&self) -> String {
        canon(&self.0, true)
    }
    fn spec(vis: &BTreeSet<Eid>, h: &Hist<u64>) -> Option<String> {
        Some(vis.iter().map(|e| h[e].op).sum::<u64>().to_string())
    }
    fn reserialize(&self) -> Option<Self> {
        round(&self.0).map(GC)
    }
}

#[derive(Clone)]
pub struct PN(PNCounter);
impl Rep for PN {
    const NAME: &'static str = "up/down counter";
    type Op = i64;
    fn new(r: usize) -> Self {
        PN(PNCounter::with_replica_id(rid(r)))
    }
    fn ops(&self, _: u64) -> Vec<i64> {
        vec![2, -3]
    }
    fn apply(&mut self, op: &i64) {
        if *op > 0 {
            self.0.increment(*op as u64)
        } else {
            self.0.decrement((-*op) as u64)
        }
    }
    fn merge_from(&mut self, o: &Self) {
        self.0.merge(&o.0)
    }
    fn obs(&self) -> String {
        self.0.value().to_string()
    }
    fn key(&self) -> String {
        canon(&self.0, true)
    }
    fn spec(vis: &BTreeSet<Eid>, h: &Hist<i64>) -> Option<String> {
        Some(vis.iter().map(|e| h[e].op).sum::<i64>().to_string())
    }
    const DELTAS: bool = true;
    fn apply_delta_from(&mut self, src: &Self) -> bool {
        match src.0.delta_since(&self.0.version()) {
            Some(d) => {
                self.0.apply_delta(&d);
                true
            }
            None => false,
        }
    }
    fn reserialize(&self) -> Option<Self> {
        round(&self.0).map(PN)
    }
}

/// Last-writer-wins register; every write carries its own timestamp (an assumption of the
/// property), here a Lamport-style pair packed as counter*8+replica.
#[derive(Clone)]
pub struct LWW(LWWRegister<u64>, usize);
impl Rep for LWW {
    const NAME: &'static str = "last-writer-wins register";
    type Op = (u64, u64);
    fn new(r: usize) -> Self {
        LWW(LWWRegister::new(0, 0), r)
    }
    fn ops(&self, uid: u64) -> Vec<(u64, u64)> {
        let base = self.0.timestamp() / 8;
        // A prompt clock, and one that has run ahead.
        vec![(uid, (base + 1) * 8 + rid(self.1)), (uid, (base + 3) * 8 + rid(self.1))]
    }
    fn apply(&mut self, op: &(u64, u64)) {
        self.0.set(op.0, op.1)
    }
    fn merge_from(&mut self, o: &Self) {
        self.0.merge(&o.0)
    }
    fn obs(&self) -> String {
        format!("{}@{}", self.0.get(), self.0.timestamp())
    }
    fn key(&self) -> String {
        self.obs()
    }
    fn spec(vis: &BTreeSet<Eid>, h: &Hist<(u64, u64)>) -> Option<String> {
        let m = vis.iter().map(|e| h[e].op).max_by_key(|o| o.1).unwrap_or((0, 0));
        Some(format!("{}@{}", m.0, m.1))
    }
    fn reserialize(&self) -> Option<Self> {
        round(&self.0).map(|x| LWW(x, self.1))
    }
}

#[derive(Clone)]
pub struct MV(MVRegister<u64>);
impl Rep for MV {
    const NAME: &'static str = "multi-value register";
    type Op = (u64, bool);
    fn new(r: usize) -> Self {
        MV(MVRegister::new(rid(r)))
    }
    fn ops(&self, uid: u64) -> Vec<(u64, bool)> {
        if self.0.has_conflict() {
            vec![(uid, false), (uid, true)]
        } else {
            vec![(uid, false)]
        }
    }
    fn apply(&mut self, op: &(u64, bool)) {
        if op.1 {
            self.0.resolve(op.0)
        } else {
            self.0.set(op.0)
        }
    }
    fn merge_from(&mut self, o: &Self) {
        self.0.merge(&o.0)
    }
    fn obs(&self) -> String {
        let mut v: Vec<u64> = self.0.values().into_iter().copied().collect();
        v.sort();
        format!("{v:?} conflict={}", self.0.has_conflict())
    }
    fn key(&self) -> String {
        canon(&self.0, false)
    }
    fn spec(vis: &BTreeSet<Eid>, h: &Hist<(u64, bool)>) -> Option<String> {
        let mut v: Vec<u64> = vis.iter().filter(|e| !vis.iter().any(|f| h[f].past.contains(e))).map(|e| h[e].op.0).collect();
        v.sort();
        Some(format!("{v:?} conflict={}", v.len() > 1))
    }
    const DELTAS: bool = true;
    fn apply_delta_from(&mut self, src: &Self) -> bool {
        match src.0.delta_since(&self.0.version()) {
            Some(d) => {
                self.0.apply_delta(&d);
                true
            }
            None => false,
        }
    }
    fn delta_learns(dst: &BTreeSet<Eid>, src: &BTreeSet<Eid>, h: &Hist<(u64, bool)>) -> BTreeSet<Eid> {
        // Overwritten writes carry no news.
        let _ = dst;
        src.iter().filter(|e| !src.iter().any(|f| h[f].past.contains(e))).flat_map(|e| h[e].past.iter().copied().chain([*e])).collect()
    }
    fn reserialize(&self) -> Option<Self> {
        round(&self.0).map(MV)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum SetOp {
    Add(u8),
    Remove(u8),
}

macro_rules! orset {
    ($name:ident, $bias:ty, $label:expr, $spec:expr, $rule:expr, $elems:expr) => {
        #[derive(Clone)]
        pub struct $name(ORSet<u8, $bias>);
        impl Rep for $name {
            const NAME: &'static str = $label;
            type Op = SetOp;
            fn new(r: usize) -> Self {
                $name(ORSet::new(rid(r)))
            }
            fn ops(&self, _: u64) -> Vec<SetOp> {
                let mut v = vec![];
                for e in 0..$elems {
                    v.push(SetOp::Add(e));
                    // Removing an element one does not observe removes nothing.
                    v.push(SetOp::Remove(e));
                }
                v
            }
            fn apply(&mut self, op: &SetOp) {
                match op {
                    SetOp::Add(e) => self.0.add(*e),
                    SetOp::Remove(e) => self.0.remove(e),
                }
            }
            fn merge_from(&mut self, o: &Self) {
                self.0.merge(&o.0)
            }
            fn obs(&self) -> String {
                let mut v: Vec<u8> = self.0.iter().copied().collect();
                v.sort();
                let w: Vec<u8> = (0..$elems).filter(|e| self.0.contains(e)).collect();
                format!("{v:?} {w:?} {} {}", self.0.len(), self.0.is_empty())
            }
            fn key(&self) -> String {
                canon(&self.0, true)
            }
            fn spec(vis: &BTreeSet<Eid>, h: &Hist<SetOp>) -> Option<String> {
                let f: Option<fn(u8, &BTreeSet<Eid>, &Hist<SetOp>) -> bool> = $spec;
                let f = f?;
                let v: Vec<u8> = (0..$elems).filter(|e| f(*e, vis, h)).collect();
                Some(format!("{v:?} {v:?} {} {}", v.len(), v.is_empty()))
            }
            fn merge_rule(m: &Self, a: &Self, va: &BTreeSet<Eid>, b: &Self, vb: &BTreeSet<Eid>, h: &Hist<SetOp>) -> Result<(), String> {
                for e in 0..$elems {
                    let f: fn(bool, bool, bool, &BTreeSet<Eid>, &BTreeSet<Eid>, &Hist<SetOp>, u8) -> Result<(), String> = $rule;
                    f(m.0.contains(&e), a.0.contains(&e), b.0.contains(&e), va, vb, h, e)?;
                }
                Ok(())
            }
            const DELTAS: bool = true;
            fn apply_delta_from(&mut self, src: &Self) -> bool {
                match src.0.delta_since(&self.0.version()) {
                    Some(d) => {
                        self.0.apply_delta(&d);
                        true
                    }
                    None => false,
                }
            }
            fn delta_learns(_: &BTreeSet<Eid>, src: &BTreeSet<Eid>, h: &Hist<SetOp>) -> BTreeSet<Eid> {
                live_adds(src, h)
            }
            fn reserialize(&self) -> Option<Self> {
                round(&self.0).map($name)
            }
        }
    };
}

fn live_adds(vis: &BTreeSet<Eid>, h: &Hist<SetOp>) -> BTreeSet<Eid> {
    vis.iter()
        .filter(|a| match h[*a].op {
            SetOp::Add(x) => !vis.iter().any(|r| h[r].op == SetOp::Remove(x) && h[r].past.contains(a)),
            _ => false,
        })
        .copied()
        .collect()
}
fn add_wins(e: u8, vis: &BTreeSet<Eid>, h: &Hist<SetOp>) -> bool {
    live_adds(vis, h).iter().any(|a| h[a].op == SetOp::Add(e))
}
fn no_rule(_: bool, _: bool, _: bool, _: &BTreeSet<Eid>, _: &BTreeSet<Eid>, _: &Hist<SetOp>, _: u8) -> Result<(), String> {
    Ok(())
}
/// What the remove-wins bias promises of one exchange between two replicas:
/// a replica that removed an add the other still shows takes the element away, whatever was
/// added meanwhile; without any remove among the events seen, an add is enough; and an add
/// made after every remove it could clash with stays.
fn remove_wins_rule(m: bool, a: bool, b: bool, va: &BTreeSet<Eid>, vb: &BTreeSet<Eid>, h: &Hist<SetOp>, e: u8) -> Result<(), String> {
    let adds = |v: &BTreeSet<Eid>| -> BTreeSet<Eid> { v.iter().filter(|x| h[*x].op == SetOp::Add(e)).copied().collect() };
    let removes: BTreeSet<Eid> = va.union(vb).filter(|x| h[*x].op == SetOp::Remove(e)).copied().collect();
    for (one, vone, other, vother) in [(a, va, b, vb), (b, vb, a, va)] {
        // `other` has seen no remove, so it shows every add it has seen.
        if !one && other && !vother.iter().any(|x| removes.contains(x)) && adds(vone).intersection(&adds(vother)).next().is_some() && m {
            return Err("a removed add came back".into());
        }
    }
    if removes.is_empty() && m != (!adds(va).is_empty() || !adds(vb).is_empty()) {
        return Err("element without any remove".into());
    }
    let all: BTreeSet<Eid> = va.union(vb).copied().collect();
    if adds(&all).iter().any(|x| removes.iter().all(|r| h[x].past.contains(r))) && !m {
        return Err("an add made after every remove was lost".into());
    }
    if !a && !b && m {
        return Err("element shown by neither side".into());
    }
    Ok(())
}

orset!(AW, AddWins, "add-wins set", Some(add_wins), no_rule, 2u8);
orset!(AW1, AddWins, "add-wins set (one element)", Some(add_wins), no_rule, 1u8);
orset!(RW, RemoveWins, "remove-wins set", None, remove_wins_rule, 1u8);

#[derive(Clone, Debug, PartialEq)]
pub enum MapOp {
    Put(u8, u64),
    Remove(u8),
}
/// Map from keys to last-writer-wins registers.
#[derive(Clone)]
pub struct OM(ORMap<u8, LWWRegister<u64>>);
impl OM {
    fn clockmax(&self) -> u64 {
        // Timestamps handed out by the harness are carried by the values themselves.
        (0..2u8).filter_map(|k| self.0.get(&k)).map(|r| r.timestamp()).max().unwrap_or(0)
    }
}
impl Rep for OM {
    const NAME: &'static str = "add-wins map";
    type Op = MapOp;
    fn new(r: usize) -> Self {
        OM(ORMap::new(rid(r)))
    }
    fn ops(&self, uid: u64) -> Vec<MapOp> {
        let t = (self.clockmax() / 100 + 1) * 100 + uid;
        vec![MapOp::Put(0, t), MapOp::Put(1, t), MapOp::Remove(0), MapOp::Remove(1)]
    }
    fn apply(&mut self, op: &MapOp) {
        match op {
            MapOp::Put(k, t) => {
                let r = self.0.get_or_insert(*k);
                if *t >= r.timestamp() {
                    r.set(*t, *t)
                }
            }
            MapOp::Remove(k) => self.0.remove(k),
        }
    }
    fn merge_from(&mut self, o: &Self) {
        self.0.merge(&o.0)
    }
    fn obs(&self) -> String {
        let mut v: Vec<(u8, u64)> = self.0.iter().map(|(k, r)| (*k, *r.get())).collect();
        v.sort();
        let mut ks: Vec<u8> = self.0.keys().copied().collect();
        ks.sort();
        let g: Vec<(u8, u64)> = (0..2u8).filter(|k| self.0.contains_key(k)).filter_map(|k| self.0.get(&k).map(|r| (k, *r.get()))).collect();
        format!("{v:?} {ks:?} {g:?} {} {}", self.0.len(), self.0.is_empty())
    }
    fn key(&self) -> String {
        canon(&self.0, true)
    }
    fn spec(vis: &BTreeSet<Eid>, h: &Hist<MapOp>) -> Option<String> {
        let v: Vec<(u8, u64)> = (0..2u8)
            .filter_map(|k| {
                let live = vis.iter().any(|a| match h[a].op {
                    MapOp::Put(x, _) if x == k => !vis.iter().any(|r| h[r].op == MapOp::Remove(k) && h[r].past.contains(a)),
                    _ => false,
                });
                let val = vis.iter().filter_map(|e| match h[e].op { MapOp::Put(x, t) if x == k => Some(t), _ => None }).max();
                if live { val.map(|t| (k, t)) } else { None }
            })
            .collect();
        let ks: Vec<u8> = v.iter().map(|x| x.0).collect();
        Some(format!("{v:?} {ks:?} {v:?} {} {}", v.len(), v.is_empty()))
    }
    const DELTAS: bool = true;
    fn apply_delta_from(&mut self, src: &Self) -> bool {
        match src.0.delta_since(&self.0.version()) {
            Some(d) => {
                self.0.apply_delta(&d);
                true
            }
            None => false,
        }
    }
    fn reserialize(&self) -> Option<Self> {
        round(&self.0).map(OM)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum SeqOp {
    Append(u64),
    Before(usize, u64),
    After(usize, u64),
    Remove(usize, u64),
}
fn seq_labels_of(vis: &BTreeSet<Eid>, h: &Hist<SeqOp>) -> BTreeSet<u64> {
    let mut s = BTreeSet::new();
    for e in vis {
        if let SeqOp::Append(l) | SeqOp::Before(_, l) | SeqOp::After(_, l) = h[e].op {
            s.insert(l);
        }
    }
    for e in vis {
        if let SeqOp::Remove(_, l) = h[e].op {
            s.remove(&l);
        }
    }
    s
}
macro_rules! seqtype {
    ($name:ident, $ty:ty, $label:expr, $learn:expr) => {
        #[derive(Clone)]
        pub struct $name($ty);
        impl Rep for $name {
            const NAME: &'static str = $label;
            type Op = SeqOp;
            fn new(r: usize) -> Self {
                $name(<$ty>::new(rid(r)))
            }
            fn ops(&self, uid: u64) -> Vec<SeqOp> {
                let l = self.0.to_vec();
                let n = l.len();
                let mut v = vec![SeqOp::Append(uid)];
                for i in 0..n {
                    v.push(SeqOp::Before(i, uid));
                    v.push(SeqOp::After(i, uid));
                    v.push(SeqOp::Remove(i, l[i]));
                }
                v
            }
            fn apply(&mut self, op: &SeqOp) {
                match op {
                    SeqOp::Append(l) => self.0.append(*l),
                    SeqOp::Before(i, l) => self.0.insert_before(*i, *l),
                    SeqOp::After(i, l) => self.0.insert_after(*i, *l),
                    SeqOp::Remove(i, _) => self.0.remove(*i),
                }
            }
            fn merge_from(&mut self, o: &Self) {
                self.0.merge(&o.0)
            }
            fn obs(&self) -> String {
                let l = self.0.to_vec();
                let it: Vec<u64> = self.0.iter().copied().collect();
                let g: Vec<u64> = (0..self.0.len()).filter_map(|i| self.0.get(i).copied()).collect();
                format!("{l:?} {} {} {} {:?}", it == l, g == l, self.0.is_empty() == l.is_empty(), self.0.get(l.len()))
            }
            fn key(&self) -> String {
                canon(&self.0, false)
            }
            fn spec(_: &BTreeSet<Eid>, _: &Hist<SeqOp>) -> Option<String> {
                None
            }
            fn seq_labels(vis: &BTreeSet<Eid>, h: &Hist<SeqOp>) -> Option<BTreeSet<u64>> {
                Some(seq_labels_of(vis, h))
            }
            fn list(&self) -> Vec<u64> {
                self.0.to_vec()
            }
            fn list_effect(b: &[u64], op: &SeqOp) -> Option<Vec<u64>> {
                let mut v = b.to_vec();
                match op {
                    SeqOp::Append(l) => v.push(*l),
                    SeqOp::Before(i, l) => v.insert(*i, *l),
                    SeqOp::After(i, l) => v.insert(*i + 1, *l),
                    SeqOp::Remove(i, _) => {
                        v.remove(*i);
                    }
                }
                Some(v)
            }
            const DELTAS: bool = true;
            fn apply_delta_from(&mut self, src: &Self) -> bool {
                match src.0.delta_since(&self.0.version()) {
                    Some(d) => {
                        self.0.apply_delta(&d);
                        true
                    }
                    None => false,
                }
            }
            fn delta_learns(dst: &BTreeSet<Eid>, src: &BTreeSet<Eid>, h: &Hist<SeqOp>) -> BTreeSet<Eid> {
                $learn(dst, src, h)
            }
            fn reserialize(&self) -> Option<Self> {
                round(&self.0).map($name)
            }
        }
    };
}
fn is_insert(o: &SeqOp) -> bool {
    !matches!(o, SeqOp::Remove(..))
}
fn label(o: &SeqOp) -> u64 {
    match o {
        SeqOp::Append(l) | SeqOp::Before(_, l) | SeqOp::After(_, l) | SeqOp::Remove(_, l) => *l,
    }
}
/// A delta conveys the insertions the receiver lacks, each with its deletion if deleted.
fn rga_learn(dst: &BTreeSet<Eid>, src: &BTreeSet<Eid>, h: &Hist<SeqOp>) -> BTreeSet<Eid> {
    let newins: BTreeSet<Eid> = src.iter().filter(|e| is_insert(&h[*e].op) && !dst.contains(e)).copied().collect();
    let labels: BTreeSet<u64> = newins.iter().map(|e| label(&h[e].op)).collect();
    let dels = src.iter().filter(|e| !is_insert(&h[*e].op) && labels.contains(&label(&h[*e].op)));
    newins.iter().chain(dels).copied().collect()
}
/// A delta, when due, conveys everything; it is due when an insertion is missing.
fn yata_learn(dst: &BTreeSet<Eid>, src: &BTreeSet<Eid>, h: &Hist<SeqOp>) -> BTreeSet<Eid> {
    if src.iter().any(|e| is_insert(&h[e].op) && !dst.contains(e)) {
        src.clone()
    } else {
        BTreeSet::new()
    }
}
seqtype!(SeqR, RGA<u64>, "sequence (RGA)", rga_learn);
seqtype!(SeqY, YATA<u64>, "sequence (YATA)", yata_learn);
