//! P12: every decider's verdict, model and count against brute force, on every clause set of a bounded space.
use crate::forms::*;
use logicaffeine_proof::cdcl::*;
use logicaffeine_proof::proof::ProofStep;
use logicaffeine_proof::sat::{find_model, prove_equivalence, prove_unsat, EquivOutcome, ModelOutcome, UnsatOutcome};
use logicaffeine_proof::solve::{self, Answer};
use logicaffeine_proof::*;
use mc::{guard, par_for, pick, Check};
use std::collections::BTreeMap;
use std::sync::Mutex;

/// What a decider said. `proof` is replayed when it says no.
pub struct Said {
    pub sat: Option<bool>,
    pub model: Option<Vec<bool>>,
    pub proof: Option<Vec<ProofStep>>,
    pub via: String,
}

fn none() -> Said {
    Said { sat: None, model: None, proof: None, via: String::new() }
}
fn no() -> Said {
    Said { sat: Some(false), ..none() }
}
fn refuted(b: bool) -> Said {
    if b {
        no()
    } else {
        none()
    }
}
fn yes(m: Vec<bool>) -> Said {
    Said { sat: Some(true), model: Some(m), ..none() }
}

fn from_solver(s: &Solver, r: SolveResult) -> Said {
    match r {
        SolveResult::Sat(m) => yes(m),
        SolveResult::Unsat => Said { proof: Some(s.learned().iter().map(|c| ProofStep::Rup(c.lits.clone())).collect()), ..no() },
    }
}

fn solved(s: solve::Solved) -> Said {
    let mut out = match s.answer {
        Answer::Sat(m) => yes(m),
        Answer::Unsat => no(),
    };
    if !s.proof.is_empty() {
        out.proof = Some(s.proof);
    }
    out.via = format!("{:?}", s.via);
    out
}

fn solver(n: usize, cs: &[Vec<Lit>]) -> Solver {
    let mut s = Solver::new(n);
    for c in cs {
        s.add_clause(c.clone());
    }
    s
}

pub fn expr(cs: &[Vec<Lit>]) -> ProofExpr {
    let atom = |l: &Lit| {
        let a = ProofExpr::Atom(format!("v{}", l.var()));
        if l.is_positive() {
            a
        } else {
            ProofExpr::Not(Box::new(a))
        }
    };
    let mut all: Option<ProofExpr> = None;
    for c in cs {
        let mut d: Option<ProofExpr> = None;
        for l in c {
            let a = atom(l);
            d = Some(match d {
                None => a,
                Some(x) => ProofExpr::Or(Box::new(x), Box::new(a)),
            });
        }
        let d = d.unwrap();
        all = Some(match all {
            None => d,
            Some(x) => ProofExpr::And(Box::new(x), Box::new(d)),
        });
    }
    all.unwrap()
}

/// A model given by atom names; variables it does not mention may take any value.
fn named(n: usize, m: &[(String, bool)]) -> Vec<bool> {
    let mut out = vec![false; n];
    for (k, v) in m {
        if let Ok(i) = k.trim_start_matches('v').parse::<usize>() {
            if i < n {
                out[i] = *v
            }
        }
    }
    out
}

type Decider = (&'static str, fn(usize, &[Vec<Lit>]) -> Said);

fn clean(cs: &[Vec<Lit>]) -> bool {
    !cs.is_empty() && cs.iter().all(|c| !c.is_empty())
}

/// The fast deciders.
pub const FAST: &[Decider] = &[
    ("cdcl", |n, cs| {
        let mut s = solver(n, cs);
        let r = s.solve();
        from_solver(&s, r)
    }),
    ("cdcl-inprocess", |n, cs| {
        let mut s = solver(n, cs);
        s.set_inprocess(true);
        s.set_inprocess_interval(1);
        s.set_reduce(true);
        s.set_reduce_limit(1);
        s.set_restart_mode(RestartMode::Glucose);
        let r = s.solve();
        from_solver(&s, r)
    }),
    ("cdcl-phase", |n, cs| {
        let mut s = solver(n, cs);
        s.set_initial_phase(&vec![true; n]);
        s.set_restart_mode(RestartMode::Luby);
        if !(s.subsume() && s.vivify() && s.probe()) {
            return no();
        }
        let r = s.solve();
        from_solver(&s, r)
    }),
    ("cdcl-budget", |n, cs| {
        let mut s = solver(n, cs);
        for _ in 0..10_000 {
            match s.solve_budgeted(1) {
                BudgetedResult::Sat(m) => return yes(m),
                BudgetedResult::Unsat => return no(),
                BudgetedResult::Budget => {}
            }
        }
        none()
    }),
    ("find-model", |n, cs| {
        if !clean(cs) {
            return none();
        }
        match find_model(&expr(cs)) {
            ModelOutcome::Sat(m) => yes(named(n, &m)),
            ModelOutcome::Unsat => no(),
            ModelOutcome::Unsupported => none(),
        }
    }),
    ("prove-unsat", |n, cs| {
        if !clean(cs) {
            return none();
        }
        match prove_unsat(&expr(cs)) {
            UnsatOutcome::Sat(m) => yes(named(n, &m)),
            UnsatOutcome::Refuted => no(),
            UnsatOutcome::Unsupported => none(),
        }
    }),
    ("pigeonhole", |_, cs| refuted(clean(cs) && pigeonhole::decide_pigeonhole_unsat(&expr(cs)))),
    ("ordering", |n, cs| refuted(ordering::refute_ordering(n, cs))),
    ("counting", |n, cs| refuted(counting_principle::refute_counting(n, cs))),
    ("parity-cardinality", |n, cs| refuted(parity_cardinality::refute(n, cs))),
    ("parity", |_, cs| refuted(clean(cs) && xorsat::refute_via_parity(&expr(cs)))),
    ("cutting-planes", |_, cs| refuted(clean(cs) && pseudo_boolean::refute_clausal(&expr(cs)))),
    ("collapse", |n, cs| refuted(!matches!(lyapunov::auto_collapse(n, cs), lyapunov::AutoCollapse::None))),
    ("fused", |n, cs| match lyapunov::fused_parity_cardinality_decide(n, cs) {
        Some(false) => no(),
        Some(true) => Said { sat: Some(true), ..none() },
        None => none(),
    }),
    ("nullstellensatz", |n, cs| refuted(polycalc::nullstellensatz_refutes(n, cs, 2))),
    ("polynomial-calculus", |n, cs| refuted(polycalc::polynomial_calculus_refutes(n, cs, 2))),
    ("equivalent-literals", |n, cs| match inprocess::equivalent_literal_scc(n, cs) {
        inprocess::EquivResult::Unsat(p) => Said { proof: Some(p), ..no() },
        _ => none(),
    }),
    ("buckets", |n, cs| match inprocess::bucket_elimination_refute(n, cs, 12) {
        Some(p) => Said { proof: Some(p), ..no() },
        None => none(),
    }),
    ("elimination", |n, cs| {
        let (r, p) = inprocess::bve(n, cs);
        if r.iter().any(|c| c.is_empty()) {
            return Said { proof: Some(p), ..no() };
        }
        // What is left must be satisfiable exactly when the whole was.
        Said { sat: Some(!models(n, &r).is_empty()), ..none() }
    }),
    ("vivified", |n, cs| {
        let (r, _) = inprocess::vivify(n, cs);
        let (a, b) = (models(n, &r), models(n, cs));
        // Same models, or the wrong verdict on purpose.
        Said { sat: Some(if a == b { !b.is_empty() } else { b.is_empty() }), ..none() }
    }),
    ("ladder", |n, cs| Said { sat: Some(hypercube::decide_laddered(n, cs).0), ..none() }),
];

/// The ones that search for symmetry and algebra first.
pub const SLOW: &[Decider] = &[
    ("structured", |n, cs| solved(solve::solve_structured(n, cs))),
    ("comprehensive", |n, cs| solved(solve::solve_comprehensive(n, cs))),
    ("components", |n, cs| solved(solve::solve_by_components(n, cs))),
    ("symmetry-breaking", |n, cs| solved(solve::solve_by_symmetry_breaking(n, cs))),
    ("certified", |n, cs| match sdcl::solve_certified(n, cs) {
        sdcl::CertifiedOutcome::Sat(m) => yes(m),
        sdcl::CertifiedOutcome::Unsat { steps, .. } => Said { proof: Some(steps), ..no() },
        #[allow(unreachable_patterns)]
        _ => none(),
    }),
    ("symmetry-certified", |n, cs| {
        let r = sym_certify::certified_unsat_auto(n, cs);
        if r.refuted {
            Said { proof: Some(r.steps), ..no() }
        } else {
            none()
        }
    }),
];

struct Stats {
    fired: BTreeMap<String, (u64, u64)>,
    spent: BTreeMap<String, f64>,
    routes: BTreeMap<String, u64>,
}

fn judge(c: &Check, f: &Form, ms: &[usize], (name, run): &Decider, st: &mut Stats) {
    let t = std::time::Instant::now();
    let said = match guard(|| run(f.n, &f.clauses)) {
        Ok(s) => s,
        Err(e) => return c.violation(&format!("{}/{name}", f.key), &format!("{name} panicked: {e}\n{}", show(f))),
    };
    c.eval(1);
    *st.spent.entry(name.to_string()).or_default() += t.elapsed().as_secs_f64();
    let e = st.fired.entry(name.to_string()).or_default();
    match said.sat {
        Some(true) => e.0 += 1,
        Some(false) => e.1 += 1,
        None => return,
    }
    if !said.via.is_empty() {
        *st.routes.entry(said.via.clone()).or_default() += 1;
    }
    let sat = !ms.is_empty();
    if said.sat != Some(sat) {
        return c.violation(
            &format!("{}/{name}", f.key),
            &format!("{name} {} says satisfiable={:?}, but it has {} models\n{}", said.via, said.sat, ms.len(), show(f)),
        );
    }
    if let Some(m) = said.model {
        if m.len() < f.n || !holds(&f.clauses, &m) {
            c.violation(&format!("{}/{name}", f.key), &format!("{name} {} returned {m:?}, which is not a model\n{}", said.via, show(f)));
        }
    }
    if let Some(p) = said.proof {
        // A proof may use names of its own beyond the formula's.
        let n = p.iter().flat_map(|s| s.clause().iter()).map(|l| l.var() as usize + 1).max().unwrap_or(0).max(f.n);
        if !pr::check_pr_refutation(n, &f.clauses, &p) {
            c.violation(&format!("{}/{name}", f.key), &format!("{name} {}: its refutation does not check: {p:?}\n{}", said.via, show(f)));
        } else if !pr::check_pr_refutation_fast(n, &f.clauses, &p) {
            c.violation(&format!("{}/{name}", f.key), &format!("{name}: the two checkers disagree on {p:?}\n{}", show(f)));
        }
        c.trace(1);
        if p.iter().all(|s| matches!(s, ProofStep::Rup(_))) {
            match guard(|| proof_emit::emit_lrat(n, &f.clauses, &p)) {
                Ok(Ok(t)) => {
                    if !proof_emit::check_lrat(n, &f.clauses, &t) {
                        c.violation(&format!("{}/{name}", f.key), &format!("{name}: the emitted proof text does not check:\n{t}\n{}", show(f)));
                    }
                }
                Ok(Err(_)) => {}
                Err(e) => c.violation(&format!("{}/{name}", f.key), &format!("{name}: writing the proof panicked: {e}\n{}", show(f))),
            }
        }
    }
}

/// One solver used for a sequence of questions, each under other assumptions.
fn assumptions(c: &Check, f: &Form, ms: &[usize]) {
    let mut s = solver(f.n, &f.clauses);
    let lits: Vec<Lit> = (0..f.n.min(4)).flat_map(|v| [lit(v, true), lit(v, false)]).collect();
    let mut asked: Vec<Vec<Lit>> = vec![vec![]];
    for (i, a) in lits.iter().enumerate() {
        asked.push(vec![*a]);
        for b in &lits[i + 1..] {
            asked.push(vec![*a, *b]);
        }
    }
    asked.push(vec![]);
    for a in asked {
        let want = ms.iter().any(|m| a.iter().all(|l| (m >> l.var() & 1 == 1) == l.is_positive()));
        let got = match guard(|| s.solve_under_assumptions(&a)) {
            Ok(r) => r,
            Err(e) => return c.violation(&format!("{}/assume", f.key), &format!("panicked under {a:?}: {e}\n{}", show(f))),
        };
        c.trans(1);
        let ok = match &got {
            SolveResult::Unsat => !want,
            SolveResult::Sat(m) => want && holds(&f.clauses, m) && a.iter().all(|l| m[l.var() as usize] == l.is_positive()),
        };
        if !ok {
            return c.violation(&format!("{}/assume", f.key), &format!("under {a:?} the solver answered {got:?}; satisfiable: {want}\n{}", show(f)));
        }
    }
}

fn counts(c: &Check, f: &Form, ms: &[usize]) {
    let bad = |what: &str, got: String, want: String| c.violation(&format!("{}/{what}", f.key), &format!("{what}: {got}, should be {want}\n{}", show(f)));
    c.eval(7);
    let weight: Vec<(i64, i64)> = (0..f.n).map(|v| (v as i64 + 1, 2 * v as i64 - 3)).collect();
    let w = |m: usize| -> i128 { (0..f.n).map(|v| if m >> v & 1 == 1 { weight[v].1 } else { weight[v].0 } as i128).product() };
    match guard(|| solve::weighted_model_count(f.n, &f.clauses, &weight)) {
        Ok(z) => {
            let want: i128 = ms.iter().map(|m| w(*m)).sum();
            if z != want {
                bad("weighted-count", z.to_string(), want.to_string())
            }
        }
        Err(e) => bad("weighted-count", e, "a number".into()),
    }
    let mut occurs: Vec<usize> = f.clauses.iter().flatten().map(|l| l.var() as usize).collect();
    occurs.sort();
    occurs.dedup();
    // Listing the models one orbit at a time costs a full solve each.
    let few = ms.len() <= pick(3, 64);
    match guard(|| solve::models_up_to_symmetry(f.n, &f.clauses, if few { 10_000 } else { 1 })) {
        Ok(s) => {
            let want = (ms.len() >> (f.n - occurs.len())) as u128;
            if s.exhaustive && s.total_models != want {
                bad("orbit-count", s.total_models.to_string(), want.to_string())
            }
            for m in &s.representatives {
                if !holds(&f.clauses, m) {
                    bad("orbit-count", format!("{m:?} listed"), "a model".into())
                }
            }
        }
        Err(e) => bad("orbit-count", e, "a number".into()),
    }
    for pattern in [[2, -1, 3, 1], [1, 1, 1, 1], [-1, -1, -1, -1], [1, -1, 1, -1]] {
        let weights: Vec<i64> = (0..f.n).map(|v| pattern[v % 4]).collect();
        let cost = |m: usize| -> i64 { (0..f.n).map(|v| if m >> v & 1 == 1 { weights[v] } else { 0 }).sum() };
        match guard(|| solve::optimize_modulo_symmetry(f.n, &f.clauses, &weights)) {
            Ok(r) => {
                let want = ms.iter().map(|m| cost(*m)).min();
                let ok = match &r {
                    None => want.is_none(),
                    Some((k, m)) => Some(*k) == want && holds(&f.clauses, m) && (0..f.n).map(|v| if m[v] { weights[v] } else { 0 }).sum::<i64>() == *k,
                };
                if !ok {
                    bad("optimum", format!("{r:?}"), format!("{want:?}"))
                }
            }
            Err(e) => bad("optimum", e, "an answer".into()),
        }
    }
    // The formula and its negation through the equivalence question.
    if clean(&f.clauses) {
        let e = expr(&f.clauses);
        for v in 0..f.n {
            let a = ProofExpr::Atom(format!("v{v}"));
            let want = (0..1usize << f.n).all(|m| ms.binary_search(&m).is_ok() == (m >> v & 1 == 1));
            match prove_equivalence(&e, &a) {
                EquivOutcome::Equivalent if want => {}
                EquivOutcome::Differ(m) if !want => {
                    let m = named(f.n, &m);
                    if holds(&f.clauses, &m) == m[v] {
                        bad("equivalence", format!("{m:?} does not tell it from variable {v}"), "a difference".into())
                    }
                }
                x => bad("equivalence", format!("{x:?} with variable {v}"), format!("equivalent={want}")),
            }
        }
    }
}

pub fn run() {
    let c = Check::new("P12", "model_checking");
    c.rule("a clause set is judged in full by listing all assignments; every decider must agree with the list, its models must satisfy the clauses and its refutations must check");
    let mut fast: Vec<Form> = Vec::new();
    subsets("two", 2, &all_clauses(2, 0..=2), 9, &mut fast);
    subsets("three", 3, &all_clauses(3, 1..=3), pick(5, 6), &mut fast);
    subsets("three-full", 3, &all_clauses(3, 3..=3), 8, &mut fast);
    subsets("four", 4, &all_clauses(4, 1..=4), pick(2, 3), &mut fast);
    subsets("four-wide", 4, &all_clauses(4, 3..=3), pick(4, 6), &mut fast);
    raw(2, 2, 3, &mut fast);
    let mut slow: Vec<Form> = Vec::new();
    subsets("two", 2, &all_clauses(2, 0..=2), 9, &mut slow);
    subsets("three", 3, &all_clauses(3, 1..=3), pick(3, 4), &mut slow);
    subsets("three-full", 3, &all_clauses(3, 3..=3), 8, &mut slow);
    subsets("four-wide", 4, &all_clauses(4, 3..=3), pick(2, 3), &mut slow);
    raw(2, 3, pick(1, 2), &mut slow);
    for (name, n, base) in bases() {
        neighbours(&name, n, &base, if base.len() <= 12 { 2 } else { 1 }, pick(800, 20000), &mut fast);
        neighbours(&name, n, &base, if base.len() <= 12 { 2 } else { 1 }, pick(60, 2000), &mut slow);
    }
    let stats = Mutex::new(Stats { fired: BTreeMap::new(), spent: BTreeMap::new(), routes: BTreeMap::new() });
    for (forms, deciders, deep) in [(&fast, FAST, false), (&slow, SLOW, true)] {
        let chunk = if deep { 1 } else { 64 };
        par_for(forms.len().div_ceil(chunk), |k| {
            let mut st = Stats { fired: BTreeMap::new(), spent: BTreeMap::new(), routes: BTreeMap::new() };
            for f in &forms[k * chunk..((k + 1) * chunk).min(forms.len())] {
                let ms = models(f.n, &f.clauses);
                c.state(1);
                c.outcome(if ms.is_empty() { "unsatisfiable" } else { "satisfiable" });
                for d in deciders {
                    judge(&c, f, &ms, d, &mut st);
                }
                if deep {
                    counts(&c, f, &ms);
                } else {
                    assumptions(&c, f, &ms);
                }
                c.nontrivial(&ms);
                if c.want_sample() {
                    c.sample(format!("{}: {}, {} models", f.key, show(f), ms.len()));
                }
            }
            let mut all = stats.lock().unwrap();
            for (k, v) in st.fired {
                let e = all.fired.entry(k).or_default();
                e.0 += v.0;
                e.1 += v.1;
            }
            for (k, v) in st.spent {
                *all.spent.entry(k).or_default() += v;
            }
            for (k, v) in st.routes {
                *all.routes.entry(k).or_default() += v;
            }
        });
    }
    let st = stats.into_inner().unwrap();
    let fired: Vec<String> = st.fired.iter().map(|(k, v)| format!("{k} {}/{}", v.0, v.1)).collect();
    c.note("verdicts_sat_unsat", fired.join(", "));
    let routes: Vec<String> = st.routes.iter().map(|(k, v)| format!("{k} {v}")).collect();
    c.note("routes", routes.join(", "));
    c.finish()
}
