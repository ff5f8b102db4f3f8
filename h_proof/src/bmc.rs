//! P14: verdicts about transition systems against their reachable states, for every system over two bits.
use logicaffeine_proof::bmc::*;
use logicaffeine_proof::ProofExpr;
use logicaffeine_verify::{abstraction, ic3, interpolation, kinduction, liveness, strategy, ConsistencyResult, EquivalenceResult, SignalValue, Trace, VerifyExpr};
use mc::{guard, par_for, pick, Check};

/// States 0..4; `next[s]`, `init` and `good` are sets of states as bit masks.
#[derive(Clone, Copy, Debug)]
pub struct Sys {
    pub next: [u8; 4],
    pub init: u8,
    pub good: u8,
}

impl Sys {
    /// The states reached after exactly k steps.
    fn layer(&self, k: u32) -> u8 {
        let mut now = self.init;
        for _ in 0..k {
            now = self.post(now);
        }
        now
    }
    fn post(&self, s: u8) -> u8 {
        (0..4).filter(|i| s >> i & 1 == 1).fold(0, |a, i| a | self.next[i])
    }
    fn reach(&self) -> u8 {
        let mut r = self.init;
        loop {
            let n = r | self.post(r);
            if n == r {
                return r;
            }
            r = n;
        }
    }
    fn bad(&self) -> u8 {
        !self.good & 15
    }
    fn safe(&self) -> bool {
        self.reach() & self.bad() == 0
    }
    /// The first step at which a bad state can be reached.
    fn depth(&self) -> Option<u32> {
        (0..8).find(|k| self.layer(*k) & self.bad() != 0)
    }
    /// Are all paths of k steps through good states followed by good ones only?
    fn inductive(&self, k: u32) -> bool {
        let mut now = self.good;
        for _ in 1..k {
            now = self.post(now) & self.good;
        }
        self.post(now) & self.bad() == 0
    }
}

fn key(kind: &str, s: &Sys) -> String {
    format!("{kind}/{:x}{:x}{:x}{:x}.{:x}.{:x}", s.next[0], s.next[1], s.next[2], s.next[3], s.init, s.good)
}

fn p(name: &str, t: u32) -> ProofExpr {
    ProofExpr::Atom(format!("{name}@{t}"))
}
fn pnot(e: ProofExpr) -> ProofExpr {
    ProofExpr::Not(Box::new(e))
}
fn pand(a: ProofExpr, b: ProofExpr) -> ProofExpr {
    ProofExpr::And(Box::new(a), Box::new(b))
}
fn por(a: ProofExpr, b: ProofExpr) -> ProofExpr {
    ProofExpr::Or(Box::new(a), Box::new(b))
}
fn pstate(s: usize, t: u32) -> ProofExpr {
    let l = |b: usize, n: &str| if s >> b & 1 == 1 { p(n, t) } else { pnot(p(n, t)) };
    pand(l(0, "a"), l(1, "b"))
}
fn pset(m: u8, t: u32) -> ProofExpr {
    let none = pand(p("a", t), pnot(p("a", t)));
    (0..4).filter(|s| m >> s & 1 == 1).map(|s| pstate(s, t)).reduce(por).unwrap_or(none)
}
fn ptrans(s: &Sys, t: u32) -> ProofExpr {
    (0..4).map(|x| por(pnot(pstate(x, t)), pset(s.next[x], t + 1))).reduce(pand).unwrap()
}

fn v(name: &str, t: &str) -> VerifyExpr {
    VerifyExpr::var(format!("{name}@{t}"))
}
fn vstate(s: usize, t: &str) -> VerifyExpr {
    let l = |b: usize, n: &str| if s >> b & 1 == 1 { v(n, t) } else { VerifyExpr::not(v(n, t)) };
    VerifyExpr::and(l(0, "a"), l(1, "b"))
}
/// A set of states in its shortest form.
fn vset(m: u8, t: &str) -> VerifyExpr {
    let (a, b) = (v("a", t), v("b", t));
    match m {
        0 => VerifyExpr::bool(false),
        15 => VerifyExpr::bool(true),
        10 => a,
        5 => VerifyExpr::not(a),
        12 => b,
        3 => VerifyExpr::not(b),
        9 => VerifyExpr::iff(a, b),
        6 => VerifyExpr::not(VerifyExpr::iff(a, b)),
        _ if m.count_ones() == 1 => vstate(m.trailing_zeros() as usize, t),
        11 => VerifyExpr::implies(b, a),
        _ => VerifyExpr::not(vset(!m & 15, t)),
    }
}
fn vtrans(s: &Sys) -> VerifyExpr {
    (0..4).map(|x| VerifyExpr::or(VerifyExpr::not(vstate(x, "t")), vset(s.next[x], "t1"))).reduce(VerifyExpr::and).unwrap()
}

/// The truth of an expression over the two bits at step `t`, and at the step after it.
fn eval(e: &VerifyExpr, now: usize, then: usize) -> Option<bool> {
    use logicaffeine_verify::VerifyOp::*;
    Some(match e {
        VerifyExpr::Bool(b) => *b,
        VerifyExpr::Var(n) => {
            let s = if n.ends_with("@t1") || n.ends_with("@1") { then } else { now };
            match &n[..1] {
                "a" => s & 1 == 1,
                "b" => s & 2 == 2,
                _ => return None,
            }
        }
        VerifyExpr::Not(x) => !eval(x, now, then)?,
        VerifyExpr::Iff(x, y) => eval(x, now, then)? == eval(y, now, then)?,
        VerifyExpr::Binary { op, left, right } => {
            let (x, y) = (eval(left, now, then)?, eval(right, now, then)?);
            match op {
                And => x && y,
                Or => x || y,
                Implies => !x || y,
                Eq => x == y,
                Neq => x != y,
                _ => return None,
            }
        }
        _ => return None,
    })
}

fn visited(t: &Trace) -> Option<Vec<usize>> {
    t.cycles
        .iter()
        .map(|c| {
            let bit = |n: &str| match c.signals.get(n) {
                Some(SignalValue::Bool(b)) => Some(*b as usize),
                _ => None,
            };
            Some(bit("a")? | bit("b")? << 1)
        })
        .collect()
}

fn path_ok(s: &Sys, path: &[usize]) -> bool {
    path.first().is_some_and(|x| s.init >> x & 1 == 1) && path.windows(2).all(|w| s.next[w[0]] >> w[1] & 1 == 1) && path.last().is_some_and(|x| s.good >> x & 1 == 0)
}

const DEPTH: u32 = 5;

fn propositional(c: &Check, s: &Sys) {
    let init = pset(s.init, 0);
    let trans = |t: u32| ptrans(s, t);
    let prop = |t: u32| pset(s.good, t);
    let want = s.depth().filter(|k| *k <= DEPTH);
    let real = |k: u32, trace: &[(String, bool)]| {
        let at = |n: &str, t: u32| trace.iter().find(|(x, _)| *x == format!("{n}@{t}")).map(|(_, b)| *b as usize);
        let path: Option<Vec<usize>> = (0..=k).map(|t| Some(at("a", t)? | at("b", t)? << 1)).collect();
        c.trace(1);
        path.is_some_and(|x| path_ok(s, &x))
    };
    type Find = fn(&ProofExpr, &dyn Fn(u32) -> ProofExpr, &dyn Fn(u32) -> ProofExpr, u32) -> BmcOutcome;
    for (who, f) in [("search", find_counterexample as Find), ("incremental search", find_counterexample_incremental), ("symmetric search", find_counterexample_symmetric)] {
        // The incremental search is stated for relations in which every state has a successor.
        if who == "incremental search" && s.next.contains(&0) {
            continue;
        }
        c.trans(1);
        let got = guard(|| f(&init, &trans, &prop, DEPTH));
        let ok = match (&got, want) {
            (Ok(BmcOutcome::CounterexampleAt { k, trace }), Some(d)) => *k == d && real(*k, trace),
            (Ok(BmcOutcome::NoneWithin(n)), None) => *n == DEPTH,
            _ => false,
        };
        if !ok {
            c.violation(&key(who, s), &format!("{s:?}: a bad state is first reached at {want:?}, the {who} says {got:?}"))
        }
    }
    c.outcome(if want.is_some() { "bad state within reach" } else { "no bad state within reach" });
    for k in 1..=3 {
        c.trans(1);
        let base = s.depth().filter(|d| *d < k);
        let got = guard(|| prove_invariant(&init, &trans, &prop, k));
        let ok = match (&got, base) {
            (Ok(InductionOutcome::CounterexampleAt { k: d, trace }), Some(w)) => *d == w && real(*d, trace),
            (Ok(InductionOutcome::Proven), None) => s.inductive(k),
            (Ok(InductionOutcome::NotInductive), None) => !s.inductive(k),
            _ => false,
        };
        if matches!(got, Ok(InductionOutcome::Proven)) {
            c.nontrivial(&key("p", s));
            c.outcome("proved by induction");
            if !s.safe() {
                c.violation(&key("induction", s), &format!("{s:?}: proved although a bad state is reachable"))
            }
        }
        if !ok {
            c.violation(&key("induction", s), &format!("{s:?}: first bad state {base:?}, inductive over {k} steps: {}, said {got:?}", s.inductive(k)))
        }
    }
}

/// What a child process has to say about a system, handed to the parent as text.
#[derive(Default)]
struct Said(std::cell::RefCell<String>);

impl Said {
    fn line(&self, k: char, t: &str) {
        let mut s = self.0.borrow_mut();
        s.push(k);
        s.push_str(&t.replace('\n', " "));
        s.push('\n');
    }
    fn outcome(&self, t: &str) {
        self.line('O', t)
    }
    fn trans(&self, _: u64) {
        self.line('T', "")
    }
    fn violation(&self, key: &str, t: &str) {
        self.line('V', &format!("{key}\t{t}"))
    }
}

fn solver_backed(c: &Said, s: &Sys, long: bool) {
    let (init, trans, good) = (vset(s.init, "0"), vtrans(s), vset(s.good, "t"));
    let mut say = |who: &str, what: String| c.violation(&key(who, s), &format!("{s:?} (safe: {}): {what}", s.safe()));
    let judge = |who: &str, path: Option<&Trace>, safe: bool, say: &mut dyn FnMut(&str, String)| {
        c.trans(1);
        if safe && !s.safe() {
            say(who, format!("{who} calls it safe"))
        }
        if let Some(t) = path {
            if s.safe() {
                say(who, format!("{who} calls it unsafe"))
            }
            if let Some(x) = visited(t).filter(|x| !x.is_empty()) {
                if !path_ok(s, &x) {
                    say(who, format!("{who} shows the path {x:?}, which is not one to a bad state"))
                }
            }
        }
    };
    match guard(|| kinduction::k_induction(&init, &trans, &good, &[], DEPTH)) {
        Ok(kinduction::KInductionResult::Proven { k }) => {
            judge("k-induction", None, true, &mut say);
            c.outcome("k-induction proves");
            if !s.inductive(k) || (1..k).any(|j| s.inductive(j)) {
                say("k-induction", format!("proved at {k}"))
            }
        }
        Ok(kinduction::KInductionResult::Counterexample { k, trace }) => {
            judge("k-induction", Some(&trace), false, &mut say);
            c.outcome("k-induction refutes");
            if s.depth().map(|d| d + 1) != Some(k) {
                say("k-induction", format!("refuted at {k}"))
            }
        }
        Ok(kinduction::KInductionResult::InductionFailed { .. }) => {
            c.outcome("k-induction gives up");
            if s.depth().is_some_and(|d| d < DEPTH) || (1..=DEPTH).any(|k| s.inductive(k)) {
                say("k-induction", "gave up".into())
            }
        }
        x => say("k-induction", format!("{x:?}")),
    }
    // Safe systems that are not inductive take seconds each.
    let frames: &[u32] = if !s.safe() || s.inductive(1) { &[1, 2] } else { pick(&[], &[2]) };
    for &frames in frames {
    match guard(|| ic3::ic3(&init, &trans, &good, frames)) {
        Ok(ic3::Ic3Result::Safe { invariant }) => {
            c.outcome("ic3 proves");
            judge("ic3", None, true, &mut say);
            let inv: Vec<Option<bool>> = (0..4).map(|x| eval(&invariant, x, 0)).collect();
            if inv.iter().any(|x| x.is_none()) {
                c.outcome("ic3 invariant not judged")
            } else {
                let m = (0..4).fold(0u8, |a, x| a | (inv[x].unwrap() as u8) << x);
                if s.init & !m != 0 || m & s.bad() != 0 || s.post(m) & !m != 0 {
                    say("ic3 invariant", format!("the invariant {m:04b} given is not one"))
                }
            }
        }
        Ok(ic3::Ic3Result::Unsafe { trace }) => {
            c.outcome("ic3 refutes");
            judge("ic3", Some(&trace), false, &mut say)
        }
        Ok(ic3::Ic3Result::Unknown) => c.outcome("ic3 gives up"),
        Err(e) => say("ic3", e),
    }
    }
    for bound in [1, DEPTH] {
    match guard(|| interpolation::itp_model_check(&init, &trans, &good, bound)) {
        Ok(interpolation::InterpolationResult::Safe | interpolation::InterpolationResult::Fixpoint { .. }) => {
            c.outcome("interpolation proves");
            judge("interpolation", None, true, &mut say)
        }
        Ok(interpolation::InterpolationResult::Unsafe { trace }) => {
            c.outcome("interpolation refutes");
            judge("interpolation", Some(&trace), false, &mut say)
        }
        Ok(interpolation::InterpolationResult::Unknown) => c.outcome("interpolation gives up"),
        Err(e) => say("interpolation", e),
    }
    }
    // The automatic choice falls back to a costly search where induction is not enough.
    if s.safe() && !(1..=4).any(|k| s.inductive(k)) {
        c.outcome("not inductive");
    } else {
    match guard(|| strategy::verify_auto(&init, &trans, &good, &[])) {
        Ok(strategy::VerificationResult::Safe { .. }) => judge("automatic choice", None, true, &mut say),
        Ok(strategy::VerificationResult::Unsafe { trace, .. }) => judge("automatic choice", Some(&trace), false, &mut say),
        Ok(strategy::VerificationResult::Unknown) => c.outcome("automatic choice gives up"),
        Err(e) => say("automatic choice", e),
    }
    }
    if !long {
        return;
    }
    for preds in [vec![], vec![v("a", "t")], vec![v("a", "t"), v("b", "t")]] {
        match guard(|| abstraction::cegar_verify(&init, &trans, &good, &preds, 3)) {
            Ok(abstraction::AbstractionResult::Safe) => {
                c.outcome("abstraction proves");
                judge("abstraction", None, true, &mut say)
            }
            Ok(abstraction::AbstractionResult::Unsafe { concrete_trace }) => {
                c.outcome("abstraction refutes");
                judge("abstraction", Some(&concrete_trace), false, &mut say)
            }
            Ok(_) => c.outcome("abstraction gives up"),
            Err(e) => say("abstraction", e),
        }
    }
    // Does every path from an initial state see a good state, at least once?
    let mut avoid = s.init & s.bad();
    for _ in 0..DEPTH {
        avoid = s.post(avoid) & s.bad();
    }
    match guard(|| liveness::check_liveness(&init, &trans, &[], &good, DEPTH)) {
        Ok(liveness::LivenessResult::Live) => {
            c.outcome("liveness proves");
            if avoid != 0 {
                say("liveness", "called live although a path avoids the good states".into())
            }
        }
        Ok(liveness::LivenessResult::NotLive { .. }) => {
            c.outcome("liveness refutes");
            if avoid == 0 {
                say("liveness", "called not live although no path avoids the good states".into())
            }
        }
        Ok(liveness::LivenessResult::Unknown) => c.outcome("liveness gives up"),
        Err(e) => say("liveness", e),
    }
}

/// One start, one good state seen first and never again: seen once, but not again and again.
fn recurrence(c: &Said) {
    let s = Sys { next: [8, 2, 2, 8], init: 1, good: 7 };
    if let liveness::LivenessResult::Live = liveness::check_liveness(&vset(s.init, "0"), &vtrans(&s), &[], &vset(s.good, "t"), DEPTH) {
        c.violation(&key("recurrence", &s), &format!("{s:?}: called live although every path leaves the good states for ever"))
    }
}

/// Specifications over the two bits, each a set of states: compared, and put together.
fn specifications(c: &Said, i: usize) {
    let (x, y) = (i as u8 & 15, (i >> 4) as u8 & 15);
    let sig = ["a".to_string(), "b".to_string()];
    let (p, q) = (vset(x, "0"), vset(y, "0"));
    c.trans(1);
    match logicaffeine_verify::check_equivalence(&p, &q, &sig, 1) {
        EquivalenceResult::Equivalent if x == y => c.outcome("specifications equal"),
        EquivalenceResult::NotEquivalent { counterexample } if x != y => {
            c.outcome("specifications differ");
            let seen = visited(&counterexample).and_then(|v| v.first().copied());
            if seen.is_some_and(|s| (x ^ y) >> s & 1 == 0) {
                c.violation(&format!("compare/{x:x}{y:x}"), &format!("{p:?} and {q:?} do not differ at {seen:?}"))
            }
        }
        r => c.violation(&format!("compare/{x:x}{y:x}"), &format!("{p:?} against {q:?}: {r:?}")),
    }
    for z in [15u8, 9, 7, 4] {
        let all = [p.clone(), q.clone(), vset(z, "0")];
        let want = x & y & z != 0;
        c.trans(1);
        match logicaffeine_verify::check_consistency(&all, &sig, 1) {
            ConsistencyResult::Consistent if want => {}
            ConsistencyResult::Inconsistent { conflicting, .. } if !want => {
                let sets = [x, y, z];
                let pairs: Vec<(usize, usize)> = [(0, 1), (0, 2), (1, 2)].into_iter().filter(|(i, j)| sets[*i] & sets[*j] == 0).collect();
                if conflicting != pairs {
                    c.violation(&format!("together/{x:x}{y:x}{z:x}"), &format!("conflicts {conflicting:?} reported, {pairs:?} exist among {all:?}"))
                }
            }
            r => c.violation(&format!("together/{x:x}{y:x}{z:x}"), &format!("{all:?}: {r:?}")),
        }
    }
}

pub fn run() {
    let c = Check::new("P14", "model_checking");
    c.rule("the reachable states of each system are listed; a verdict must agree with them, a shown path must be one, and an invariant given must be one");
    let mut det = Vec::new();
    for n in 0..256usize {
        for init in 1..16u8 {
            for good in 0..16u8 {
                let next = [0, 1, 2, 3].map(|s| 1u8 << (n >> (2 * s) & 3));
                det.push(Sys { next, init, good });
            }
        }
    }
    // One of each two systems that differ in the names of the bits only.
    let swap = |m: u8| m & 9 | (m & 2) << 1 | (m & 4) >> 1;
    let twin = |s: &Sys| (swap(s.next[0]), swap(s.next[2]), swap(s.next[1]), swap(s.next[3]), swap(s.good));
    let mut some: Vec<Sys> = det.iter().copied().filter(|s| s.init == 1 && pick([1, 6, 7, 13].contains(&s.good), true) && (s.next[0], s.next[1], s.next[2], s.next[3], s.good) <= twin(s)).collect();
    // Relations which may branch or stop, from one starting state; the last two states stay put or stop.
    let mut rel = Vec::new();
    for n in 0..pick(1024usize, 65536) {
        let next = [0, 1, 2, 3].map(|s| match s {
            2 if n < 1024 => (n >> 8 & 1) as u8 * 4,
            3 if n < 1024 => (n >> 9 & 1) as u8 * 8,
            _ => (n >> (4 * s) & 15) as u8,
        });
        for good in [7u8, 3, 1, 13] {
            rel.push(Sys { next, init: 1, good });
        }
    }
    some.extend(rel.iter().take(1024).filter(|s| s.good == 3 || pick(false, true)).copied());
    mc::isolated(
        some.len(),
        std::time::Duration::from_secs(120),
        &|i| {
            let said = Said::default();
            solver_backed(&said, &some[i], [pick(6, some[i].good), 7].contains(&some[i].good));
            if i == 0 {
                recurrence(&said)
            }
            if i < 256 {
                specifications(&said, i)
            }
            said.0.into_inner()
        },
        &mut |i, got| {
            c.state(1);
            match got {
                Ok(t) => {
                    for l in t.lines() {
                        match l.split_at(1) {
                            ("O", x) => c.outcome(x),
                            ("T", _) => c.trans(1),
                            (_, x) => {
                                let (k, t) = x.split_once('\t').unwrap();
                                c.violation(k, t)
                            }
                        }
                    }
                }
                Err(e) => c.violation(&key("run", &some[i]), &format!("{:?}: {e}", some[i])),
            }
        },
    );
    det.retain(|s| pick([1, 6].contains(&s.init), true));
    par_for(det.len(), |i| {
        c.state(1);
        propositional(&c, &det[i])
    });
    par_for(rel.len(), |i| {
        c.state(1);
        propositional(&c, &rel[i])
    });
    c.finish()
}
