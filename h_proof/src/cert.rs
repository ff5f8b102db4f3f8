//! P13: certificate checkers against the truth, on every short certificate for every small problem, and the
//! specialised procedures which issue them.
use crate::forms::*;
use logicaffeine_proof::cdcl::Lit;
use logicaffeine_proof::proof::{Perm, ProofStep, Witness};
use logicaffeine_proof::*;
use mc::{guard, par_for, permutations, pick, Check};

/// Every word of just this length.
fn exact(k: usize, n: usize, f: &mut dyn FnMut(&[usize])) {
    mc::words(k, n, &mut |w| {
        if w.len() == n {
            f(w)
        }
    })
}

fn partials(n: usize) -> Vec<Vec<Lit>> {
    all_clauses(n, 0..=n)
}

/// Every signed permutation of the variables.
fn perms(n: usize) -> Vec<Perm> {
    let mut out = Vec::new();
    for p in permutations(n) {
        for s in 0..1usize << n {
            out.push(Perm::from_images((0..n).map(|v| lit(p[v], s >> v & 1 == 0)).collect()))
        }
    }
    out
}

fn steps(n: usize) -> Vec<ProofStep> {
    let cl = all_clauses(n, 0..=n);
    let mut out = Vec::new();
    for c in &cl {
        out.push(ProofStep::Rup(c.clone()));
        out.push(ProofStep::Delete(c.clone()));
        for w in partials(n) {
            out.push(ProofStep::Pr { clause: c.clone(), witness: Witness::Assignment(w) });
        }
        for p in perms(n) {
            out.push(ProofStep::Pr { clause: c.clone(), witness: Witness::Substitution(p) });
        }
    }
    out
}

/// Each step a checker takes on its own: what it accepts must leave the formula satisfiable or not, as it was.
fn redundancy(c: &Check, n: usize, forms: &[Form]) {
    let all = steps(n);
    par_for(forms.len(), |i| {
        let f = &forms[i];
        let sat = !models(n, &f.clauses).is_empty();
        c.state(1);
        for s in &all {
            let ProofStep::Pr { clause, witness } = s else { continue };
            c.eval(1);
            if clause.is_empty() {
                continue;
            }
            if !pr::is_pr(n, &f.clauses, clause, witness) {
                continue;
            }
            c.outcome("redundant clause accepted");
            c.nontrivial(&f.key);
            let mut g = f.clauses.clone();
            g.push(clause.clone());
            if sat && models(n, &g).is_empty() {
                c.violation(&format!("pr{n}/{}/{s:?}", f.key), &format!("{s:?} is accepted as harmless but makes the formula unsatisfiable\n{}", show(f)));
            }
        }
    });
}

/// Whole scripts: only unsatisfiable formulas have accepted ones, and all checkers agree.
fn scripts(c: &Check, n: usize, forms: &[Form], len: usize) {
    let all = steps(n);
    par_for(forms.len(), |i| {
        let f = &forms[i];
        let unsat = models(n, &f.clauses).is_empty();
        c.state(1);
        let judge = |p: &[ProofStep]| {
            c.trans(1);
            let (a, b) = (pr::check_pr_refutation(n, &f.clauses, p), pr::check_pr_refutation_fast(n, &f.clauses, p));
            if a != b {
                c.violation(&format!("script{n}/{}/{p:?}", f.key), &format!("one checker says {a}, the fast one {b}: {p:?}\n{}", show(f)));
            }
            if (a || b) && !unsat {
                c.violation(&format!("script{n}/{}/{p:?}", f.key), &format!("a refutation is accepted for a satisfiable formula: {p:?}\n{}", show(f)));
            }
            if p.iter().all(|s| matches!(s, ProofStep::Rup(_))) {
                let learned: Vec<Vec<Lit>> = p.iter().map(|s| s.clause().to_vec()).collect();
                let r = rup::check_refutation(n, &f.clauses, &learned);
                if r != a {
                    c.violation(&format!("script{n}/{}/{p:?}", f.key), &format!("the propagation checker says {r}, the general one {a}: {p:?}\n{}", show(f)));
                }
            }
            if a {
                c.outcome("refutation accepted");
                c.nontrivial(&f.key);
                // Written out and read back it is the same certificate.
                if let Ok(Ok(t)) = guard(|| proof_emit::emit_dpr(n, &f.clauses, p)) {
                    c.trace(1);
                    match guard(|| proof_emit::parse_dpr(&t)) {
                        Ok(Ok(q)) if pr::check_pr_refutation(n, &f.clauses, &q) => {}
                        x => c.violation(&format!("text{n}/{}/{p:?}", f.key), &format!("{p:?} written as\n{t}\nreads back as {x:?}\n{}", show(f))),
                    }
                }
            } else {
                c.outcome("refutation rejected");
            }
        };
        judge(&[]);
        for a in &all {
            judge(std::slice::from_ref(a));
            if len > 1 {
                for b in &all {
                    // A second step after a rejected first one changes nothing.
                    judge(&[a.clone(), b.clone()]);
                }
            }
        }
    });
}

/// Proof texts with hints: each genuine text with each number replaced, against every formula.
fn texts(c: &Check, n: usize, forms: &[Form]) {
    let mut corpus: Vec<String> = Vec::new();
    for f in forms {
        if !models(n, &f.clauses).is_empty() {
            continue;
        }
        let p = sdcl::plain_cdcl_refutation(n, &f.clauses);
        if let Ok(t) = proof_emit::emit_lrat(n, &f.clauses, &p) {
            corpus.push(t)
        }
    }
    corpus.sort();
    corpus.dedup();
    let mut edited = corpus.clone();
    for t in &corpus {
        let toks: Vec<&str> = t.split(' ').collect();
        for i in 0..toks.len() {
            for r in ["0", "1", "2", "3", "5", "-1", "-2", "d", ""] {
                let mut u: Vec<String> = toks.iter().map(|s| s.to_string()).collect();
                let nl = u[i].ends_with('\n');
                u[i] = format!("{r}{}", if nl { "\n" } else { "" });
                edited.push(u.join(" "));
            }
        }
    }
    edited.sort();
    edited.dedup();
    par_for(forms.len(), |i| {
        let f = &forms[i];
        let unsat = models(n, &f.clauses).is_empty();
        c.state(1);
        for t in &edited {
            c.eval(1);
            match guard(|| proof_emit::check_lrat(n, &f.clauses, t)) {
                Ok(a) => {
                    if a && !unsat {
                        c.violation(&format!("lrat{n}/{}", f.key), &format!("a proof text is accepted for a satisfiable formula:\n{t}\n{}", show(f)));
                    }
                    c.outcome(if a { "proof text accepted" } else { "proof text rejected" });
                }
                Err(e) => c.violation(&format!("lrat{n}/{}", f.key), &format!("checking a proof text panicked: {e}\n{t}\n{}", show(f))),
            }
        }
    });
    c.note("proof_texts", edited.len());
}

/// Every list over 0..n of up to k entries, repeats included.
fn lists(n: usize, k: usize) -> Vec<Vec<usize>> {
    let mut out = Vec::new();
    mc::words(n, k, &mut |w| out.push(w.to_vec()));
    out
}

fn subsets_of(n: usize) -> Vec<Vec<usize>> {
    (0..1usize << n).map(|m| (0..n).filter(|i| m >> i & 1 == 1).collect()).collect()
}

/// Two-literal clauses, Horn rules, parity systems and modular systems, each with all its witnesses.
fn linear(c: &Check) {
    // Two-literal clauses over three variables.
    let lits: Vec<twosat::Lit> = (0..3).flat_map(|v| [twosat::Lit::pos(v), twosat::Lit::neg(v)]).collect();
    let mut pool = Vec::new();
    for i in 0..6 {
        for j in i..6 {
            pool.push((lits[i], lits[j]))
        }
    }
    let mut sets = Vec::new();
    for k in 0..=pick(4, 5) {
        exact(pool.len(), k, &mut |w| {
            if w.windows(2).all(|p| p[0] < p[1]) {
                sets.push(w.to_vec())
            }
        });
    }
    par_for(sets.len(), |i| {
        let cs: Vec<_> = sets[i].iter().map(|x| pool[*x]).collect();
        let ok = |m: usize| cs.iter().all(|(a, b)| [a, b].iter().any(|l| (m >> l.var & 1 == 1) == l.pos));
        let sat = (0..8).any(ok);
        c.state(1);
        c.eval(1);
        let key = format!("two/{:?}", sets[i]);
        match twosat::solve(&cs, 3) {
            twosat::TwoSatOutcome::Sat(m) => {
                let bits = (0..3).map(|v| (m[v] as usize) << v).sum::<usize>();
                if !ok(bits) || !twosat::satisfies(&cs, &m) {
                    c.violation(&key, &format!("{m:?} is not a model of {cs:?}"))
                }
            }
            twosat::TwoSatOutcome::Unsat(v) => {
                if sat || !twosat::is_refutation(&cs, 3, v) {
                    c.violation(&key, &format!("refuted by variable {v}, satisfiable: {sat}: {cs:?}"))
                }
            }
        }
        for v in 0..3 {
            if twosat::is_refutation(&cs, 3, v) && sat {
                c.violation(&key, &format!("variable {v} accepted as a refutation of the satisfiable {cs:?}"))
            }
        }
        for m in 0..8 {
            if twosat::satisfies(&cs, &assignment(3, m)) != ok(m) {
                c.violation(&key, &format!("{m:03b} misjudged as a model of {cs:?}"))
            }
        }
    });
    // Horn rules over three variables.
    let mut pool = Vec::new();
    for body in subsets_of(3) {
        for head in [None, Some(0), Some(1), Some(2)] {
            pool.push(hornsat::HornClause { body: body.clone(), head })
        }
    }
    let mut sets = Vec::new();
    for k in 0..=pick(3, 4) {
        exact(pool.len(), k, &mut |w| {
            if w.windows(2).all(|p| p[0] < p[1]) {
                sets.push(w.to_vec())
            }
        });
    }
    par_for(sets.len(), |i| {
        let cs: Vec<_> = sets[i].iter().map(|x| pool[*x].clone()).collect();
        let ok = |m: usize| cs.iter().all(|h| h.body.iter().any(|b| m >> b & 1 == 0) || h.head.is_some_and(|x| m >> x & 1 == 1));
        let sat = (0..8).any(ok);
        c.state(1);
        c.eval(1);
        let key = format!("horn/{:?}", sets[i]);
        match hornsat::solve(&cs, 3) {
            hornsat::HornOutcome::Sat(m) => {
                let bits = (0..3).map(|v| (m[v] as usize) << v).sum::<usize>();
                let least = (0..8).filter(|x| ok(*x)).fold(7, |a, b| a & b);
                if !ok(bits) || bits != least {
                    c.violation(&key, &format!("{m:?} is not the least model of {cs:?}"))
                }
            }
            hornsat::HornOutcome::Unsat(r) => {
                if sat || !hornsat::is_refutation(&cs, 3, &r) {
                    c.violation(&key, &format!("refuted by {r:?}, satisfiable: {sat}: {cs:?}"))
                }
            }
        }
        for r in lists(cs.len(), 3) {
            if hornsat::is_refutation(&cs, 3, &r) && sat {
                c.violation(&key, &format!("{r:?} accepted as a refutation of the satisfiable {cs:?}"))
            }
        }
        for m in 0..8 {
            if hornsat::satisfies(&cs, &assignment(3, m)) != ok(m) {
                c.violation(&key, &format!("{m:03b} misjudged as a model of {cs:?}"))
            }
        }
    });
    // Parity equations over three variables, a repeated variable cancelling itself.
    let mut pool = Vec::new();
    for s in subsets_of(3).into_iter().chain([vec![0, 0], vec![0, 1, 1]]) {
        for rhs in [false, true] {
            pool.push(xorsat::XorEquation::new(s.clone(), rhs))
        }
    }
    let mut sets = Vec::new();
    for k in 0..=pick(3, 4) {
        exact(pool.len(), k, &mut |w| sets.push(w.to_vec()));
    }
    par_for(sets.len(), |i| {
        let cs: Vec<_> = sets[i].iter().map(|x| pool[*x].clone()).collect();
        let ok = |m: usize| cs.iter().all(|e| e.vars.iter().fold(false, |a, v| a ^ (m >> v & 1 == 1)) == e.rhs);
        let sat = (0..8).any(ok);
        c.state(1);
        c.eval(1);
        let key = format!("xor/{:?}", sets[i]);
        match xorsat::solve(&cs, 3) {
            xorsat::XorOutcome::Sat(m) => {
                let bits = (0..3).map(|v| (m[v] as usize) << v).sum::<usize>();
                if !ok(bits) {
                    c.violation(&key, &format!("{m:?} is not a solution of {cs:?}"))
                }
            }
            xorsat::XorOutcome::Unsat(r) => {
                if sat || !xorsat::is_refutation(&cs, 3, &r) {
                    c.violation(&key, &format!("refuted by {r:?}, satisfiable: {sat}: {cs:?}"))
                }
            }
        }
        for r in lists(cs.len(), 3) {
            if xorsat::is_refutation(&cs, 3, &r) && sat {
                c.violation(&key, &format!("{r:?} accepted as a refutation of the satisfiable {cs:?}"))
            }
        }
        // The incremental engine, assigned variable by variable: what it derives or refutes must follow.
        for part in 0..27usize {
            let vals: Vec<Option<bool>> = (0..3u32).map(|v| [None, Some(false), Some(true)][part / 3usize.pow(v) % 3]).collect();
            let fits = |m: usize| (0..3).all(|v| vals[v].is_none_or(|b| (m >> v & 1 == 1) == b)) && ok(m);
            let any = (0..8).any(fits);
            let eng = xor_engine::XorEngine::new(3, &cs);
            let mut inc = xor_engine::IncXor::new(3, &cs);
            for v in 0..3 {
                if let Some(b) = vals[v] {
                    inc.assign(v, b)
                }
            }
            for (who, got) in [("direct", eng.all_consequences(&vals)), ("incremental", inc.state())] {
                c.trans(1);
                match got {
                    Ok(cons) => {
                        for (l, _) in &cons {
                            if (0..8).any(|m| fits(m) && (m >> l.var() & 1 == 1) != l.is_positive()) {
                                c.violation(&key, &format!("{who}: {l:?} does not follow from {cs:?} under {vals:?}"))
                            }
                        }
                    }
                    Err(_) => {
                        if any {
                            c.violation(&key, &format!("{who}: conflict reported for {cs:?} under {vals:?}, which has a solution"))
                        }
                    }
                }
            }
        }
    });
    // Congruences in two variables, prime and composite moduli.
    for m in [2u64, 3, 4, 5, 6, 8, 9] {
        let mut pool = Vec::new();
        for a in 0..m {
            for b in 0..m {
                for r in 0..m {
                    pool.push(modp::ModpEquation::new(vec![(0, a), (1, b)], r))
                }
            }
        }
        let two = pool.len() <= pick(130, 800);
        let n = if two { pool.len() * pool.len() } else { pool.len() };
        par_for(n, |i| {
            let cs: Vec<modp::ModpEquation> = if two { vec![pool[i / pool.len()].clone(), pool[i % pool.len()].clone()] } else { vec![pool[i].clone(), pool[(i * 7 + 3) % pool.len()].clone()] };
            let ok = |x: &[u64]| cs.iter().all(|e| e.coeffs.iter().map(|(v, a)| a * x[*v]).sum::<u64>() % m == e.rhs % m);
            let sat = (0..m * m).any(|s| ok(&[s / m, s % m]));
            c.state(1);
            c.eval(1);
            let key = format!("mod{m}/{i}");
            if modp::is_prime(m) {
                match modp::solve(&cs, 2, m) {
                    modp::ModpOutcome::Sat(x) => {
                        if !ok(&x) {
                            c.violation(&key, &format!("{x:?} does not solve {cs:?} modulo {m}"))
                        }
                    }
                    modp::ModpOutcome::Unsat(r) => {
                        if sat || !modp::is_refutation(&cs, 2, m, &r) {
                            c.violation(&key, &format!("refuted by {r:?}, solvable: {sat}: {cs:?} modulo {m}"))
                        }
                    }
                }
                if let Some(sp) = modp::solve_space(&cs, 2, m) {
                    let want = (0..m * m).filter(|s| ok(&[s / m, s % m])).count() as u128;
                    if sp.count() != want || sp.enumerate().iter().any(|x| !ok(x)) {
                        c.violation(&key, &format!("{} solutions reported, {want} exist: {cs:?} modulo {m}", sp.count()))
                    }
                } else if sat {
                    c.violation(&key, &format!("no solutions reported, some exist: {cs:?} modulo {m}"))
                }
            }
            match guard(|| modm::solve(&cs, 2, m)) {
                Ok(Some(modm::ModmOutcome::Sat(x))) => {
                    if !ok(&x) {
                        c.violation(&key, &format!("{x:?} does not solve {cs:?} modulo {m}"))
                    }
                }
                Ok(Some(modm::ModmOutcome::Unsat { modulus, combo })) => {
                    if sat || m % modulus != 0 || !modm::is_refutation(&cs, 2, modulus, &combo) {
                        c.violation(&key, &format!("refuted modulo {modulus} by {combo:?}, solvable: {sat}: {cs:?} modulo {m}"))
                    }
                }
                Ok(None) => c.outcome("declined"),
                Err(e) => c.violation(&key, &format!("panicked: {e}: {cs:?} modulo {m}")),
            }
            for s in 0..m * m {
                let combo = [(0usize, s / m), (1usize, s % m)];
                if modm::is_refutation(&cs, 2, m, &combo) && sat {
                    c.violation(&key, &format!("{combo:?} accepted as a refutation of the solvable {cs:?} modulo {m}"))
                }
            }
        });
    }
}

fn allocation(c: &Check) {
    // Every bipartite graph with up to four items and three slots.
    for (n, s) in [(3usize, 3usize), (4, 3), (3, 4)] {
        par_for(1usize << (n * s), |g| {
            let adj: Vec<Vec<usize>> = (0..n).map(|i| (0..s).filter(|j| g >> (i * s + j) & 1 == 1).collect()).collect();
            let key = format!("match{n}.{s}/{g}");
            c.state(1);
            let fits = |cap: &[usize]| {
                let mut found = false;
                exact(s, n, &mut |w| {
                    found |= (0..n).all(|i| adj[i].contains(&w[i])) && (0..s).all(|j| w.iter().filter(|x| **x == j).count() <= cap[j]);
                });
                found
            };
            let want = fits(&vec![1; s]);
            c.eval(1);
            match matching::assign_or_hall(&adj, s) {
                matching::MatchOutcome::Feasible(a) => {
                    if !want || !matching::is_valid_assignment(&adj, s, &a) {
                        c.violation(&key, &format!("{a:?} given for {adj:?}, possible: {want}"))
                    }
                }
                matching::MatchOutcome::Infeasible(w) => {
                    if want || !matching::is_hall_witness(&adj, &w) {
                        c.violation(&key, &format!("{w:?} given for {adj:?}, possible: {want}"))
                    }
                }
            }
            for items in lists(n, 3) {
                for slots in subsets_of(s) {
                    let w = matching::HallWitness { items: items.clone(), slots };
                    if want && matching::is_hall_witness(&adj, &w) {
                        c.violation(&key, &format!("{w:?} accepted though {adj:?} can be placed"))
                    }
                }
            }
            exact(3, s, &mut |cap| {
                let want = fits(cap);
                c.eval(1);
                if want {
                    for items in lists(n, 2) {
                        let w = matching::CapHallWitness { slots: items.iter().flat_map(|i| adj[*i].clone()).collect(), items };
                        if matching::is_cap_hall_witness(&adj, cap, &w) {
                            c.violation(&key, &format!("{w:?} accepted though {adj:?} can be placed with room {cap:?}"))
                        }
                    }
                }
                match matching::assign_or_hall_capacitated(&adj, cap) {
                    matching::CapMatchOutcome::Feasible(a) => {
                        let ok = (0..n).all(|i| adj[i].contains(&a[i])) && (0..s).all(|j| a.iter().filter(|x| **x == j).count() <= cap[j]);
                        if !ok {
                            c.violation(&key, &format!("{a:?} given for {adj:?} with room {cap:?}"))
                        }
                    }
                    matching::CapMatchOutcome::Infeasible(w) => {
                        if want || !matching::is_cap_hall_witness(&adj, cap, &w) {
                            c.violation(&key, &format!("{w:?} given for {adj:?} with room {cap:?}, possible: {want}"))
                        }
                    }
                }
            });
        });
    }
    // Every list of up to four intervals on a line of four points.
    let mut iv = Vec::new();
    for a in 0..4i64 {
        for b in a..5 {
            iv.push((a, b))
        }
    }
    let k = 4;
    let mut rows = Vec::new();
    for len in 0..=k {
        exact(iv.len(), len, &mut |w| rows.push(w.to_vec()));
    }
    par_for(rows.len(), |i| {
        use interval_sched::*;
        let tasks: Vec<Interval> = rows[i].iter().map(|x| Interval::new(iv[*x].0, iv[*x].1)).collect();
        let peak = (0..5).map(|t| tasks.iter().filter(|x| x.start <= t && t < x.end).count()).max().unwrap_or(0);
        let key = format!("line/{:?}", rows[i]);
        c.state(1);
        if peak_concurrency(&tasks) != peak {
            c.violation(&key, &format!("{} said to overlap, {peak} do: {tasks:?}", peak_concurrency(&tasks)))
        }
        for m in 1..4 {
            c.eval(1);
            let valid = |a: &[usize]| {
                a.len() == tasks.len()
                    && (0..tasks.len()).all(|x| {
                        tasks[x].start >= tasks[x].end || (a[x] < m && (0..x).all(|y| a[x] != a[y] || tasks[x].end <= tasks[y].start || tasks[y].end <= tasks[x].start || tasks[y].start >= tasks[y].end))
                    })
            };
            match schedule_or_overflow(&tasks, m) {
                ScheduleOutcome::Feasible(a) => {
                    if peak > m || !valid(&a) {
                        c.violation(&key, &format!("{a:?} on {m} machines, {peak} needed: {tasks:?}"))
                    }
                }
                ScheduleOutcome::Infeasible(w) => {
                    if peak <= m || !is_overflow_witness(&tasks, m, &w) {
                        c.violation(&key, &format!("{w:?} against {m} machines, {peak} needed: {tasks:?}"))
                    }
                }
            }
            for w in lists(tasks.len(), 3) {
                if is_overflow_witness(&tasks, m, &w) && peak <= m {
                    c.violation(&key, &format!("{w:?} accepted against {m} machines, {peak} needed: {tasks:?}"))
                }
            }
            let ranges: Vec<register_alloc::LiveRange> = tasks.iter().enumerate().map(|(v, t)| register_alloc::LiveRange::new(v, t.start, t.end)).collect();
            match register_alloc::allocate(&ranges, m) {
                register_alloc::Allocation::Allocated(a) => {
                    if peak > m || !register_alloc::is_valid_allocation(&ranges, m, &a) {
                        c.violation(&key, &format!("{a:?} in {m} registers, {peak} needed: {ranges:?}"))
                    }
                }
                register_alloc::Allocation::Spill { pressure, must_spill } => {
                    if pressure != peak || peak <= m || !register_alloc::is_spill_certificate(&ranges, m, &must_spill) {
                        c.violation(&key, &format!("{must_spill:?} must be spilled from {m} registers, {peak} needed: {ranges:?}"))
                    }
                }
            }
            for w in lists(tasks.len(), 3) {
                if register_alloc::is_spill_certificate(&ranges, m, &w) && peak <= m {
                    c.violation(&key, &format!("{w:?} accepted as a reason to spill from {m} registers, {peak} needed: {ranges:?}"))
                }
            }
        }
    });
}

/// Linear combinations with whole coefficients that must follow from their parents.
fn cutting_planes(c: &Check) {
    use pseudo_boolean::PbConstraint;
    let mut pool = Vec::new();
    exact(7, 2, &mut |w| {
        for d in -1..=4i64 {
            let t: Vec<(usize, i64, bool)> = (0..2).filter(|v| w[*v] != 3).map(|v| (v, (w[v] as i64 - 3).abs(), w[v] > 3)).collect();
            pool.push((t, d))
        }
    });
    let sat = |p: &PbConstraint, m: usize| p.is_satisfied(&|v| m >> v & 1 == 1);
    let truth = |t: &[(usize, i64, bool)], d: i64, m: usize| t.iter().map(|(v, k, pos)| if (m >> v & 1 == 1) == *pos { *k } else { 0 }).sum::<i64>() >= d;
    par_for(pool.len(), |i| {
        let (t, d) = &pool[i];
        let a = PbConstraint::new_weighted(t, *d);
        let key = format!("pb/{i}");
        c.state(1);
        for m in 0..4 {
            if sat(&a, m) != truth(t, *d, m) {
                c.violation(&key, &format!("{t:?} >= {d} misjudged at {m:02b}"))
            }
        }
        let follows = |what: &str, from: &[&PbConstraint], to: &PbConstraint| {
            c.eval(1);
            for m in 0..4 {
                if from.iter().all(|p| sat(p, m)) && !sat(to, m) {
                    c.violation(&key, &format!("{what} of {from:?} gives {to:?}, false at {m:02b}"))
                }
            }
            if to.is_contradiction() && (0..4).any(|m| from.iter().all(|p| sat(p, m))) {
                c.violation(&key, &format!("{what} of {from:?} is called contradictory"))
            }
        };
        follows("the constraint", &[&a], &a);
        follows("saturation", &[&a], &a.saturate());
        for k in 1..=3 {
            follows("a multiple", &[&a], &a.multiply(k));
            follows("rounded division", &[&a], &a.divide_round(k));
        }
        for (u, e) in &pool {
            let b = PbConstraint::new_weighted(u, *e);
            let s = a.add(&b);
            follows("the sum", &[&a, &b], &s);
            follows("the saturated sum", &[&a, &b], &s.saturate());
            follows("half the sum", &[&a, &b], &s.divide_round(2));
        }
    });
    // At least, at most and exactly so many of up to four, with auxiliary names.
    for n in 1..=4usize {
        for k in 0..=n + 1 {
            for (which, e) in [
                ("at most", cardinality::at_most as fn(&[ProofExpr], usize, &str) -> ProofExpr),
                ("at least", cardinality::at_least),
                ("exactly", cardinality::exactly),
            ] {
                let vars: Vec<ProofExpr> = (0..n).map(|i| ProofExpr::Atom(format!("v{i}"))).collect();
                for m in 0..1usize << n {
                    let mut f = e(&vars, k, "aux");
                    for (v, x) in vars.iter().enumerate() {
                        let l = if m >> v & 1 == 1 { x.clone() } else { ProofExpr::Not(Box::new(x.clone())) };
                        f = ProofExpr::And(Box::new(f), Box::new(l));
                    }
                    let cnt = m.count_ones() as usize;
                    let want = match which {
                        "at most" => cnt <= k,
                        "at least" => cnt >= k,
                        _ => cnt == k,
                    };
                    c.eval(1);
                    let got = sat::find_model(&f);
                    if matches!(got, sat::ModelOutcome::Sat(_)) != want || matches!(got, sat::ModelOutcome::Unsupported) {
                        c.violation(&format!("cardinality/{which}/{n}.{k}.{m}"), &format!("{which} {k} of {n} with {m:04b} set: {got:?}"))
                    }
                }
            }
        }
    }
}

pub fn run() {
    let c = Check::new("P13", "model_checking");
    c.rule("every certificate of the stated shapes is offered for every problem of the space; it may be accepted only if listing all assignments shows the claim true");
    let mut two: Vec<Form> = Vec::new();
    subsets("two", 2, &all_clauses(2, 1..=2), 8, &mut two);
    let mut three: Vec<Form> = Vec::new();
    subsets("three", 3, &all_clauses(3, 1..=3), pick(3, 4), &mut three);
    redundancy(&c, 2, &two);
    redundancy(&c, 3, &three);
    scripts(&c, 2, &two, 2);
    let mut some: Vec<Form> = Vec::new();
    subsets("three", 3, &all_clauses(3, 1..=3), pick(2, 3), &mut some);
    scripts(&c, 3, &some, 1);
    texts(&c, 2, &two);
    linear(&c);
    allocation(&c);
    cutting_planes(&c);
    c.finish()
}
