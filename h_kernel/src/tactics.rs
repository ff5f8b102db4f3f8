//! P16: what the built-in decision procedures of the kernel conclude is true. Goals are quoted
//! statements about integers; their truth is decided by evaluating them at many points.
use logicaffeine_kernel::prelude::StandardLibrary;
use logicaffeine_kernel::{normalize, Context, Literal, Term};
use mc::{par_each, pick, Check};
use std::collections::HashMap;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum E {
    X,
    Y,
    N(&'static str),
    L(i64),
    Add(Box<E>, Box<E>),
    Sub(Box<E>, Box<E>),
    Mul(Box<E>, Box<E>),
    F(Box<E>),
    G(Box<E>, Box<E>),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum G {
    Rel(&'static str, E, E),
    /// An equality with its type written out.
    Typed(E, E),
    Imp(Box<G>, Box<G>),
}

fn g(n: &str) -> Term {
    Term::Global(n.into())
}
fn app(f: Term, a: Term) -> Term {
    Term::App(Box::new(f), Box::new(a))
}
fn name(n: &str) -> Term {
    app(g("SName"), Term::Lit(Literal::Text(n.into())))
}
fn sapp(f: Term, a: Term) -> Term {
    app(app(g("SApp"), f), a)
}
fn bin(op: &str, a: Term, b: Term) -> Term {
    sapp(sapp(name(op), a), b)
}

impl E {
    fn term(&self) -> Term {
        match self {
            E::X => app(g("SVar"), Term::Lit(Literal::Int(0))),
            E::Y => app(g("SVar"), Term::Lit(Literal::Int(1))),
            E::N(n) => name(n),
            E::L(n) => app(g("SLit"), Term::Lit(Literal::Int(*n))),
            E::Add(a, b) => bin("add", a.term(), b.term()),
            E::Sub(a, b) => bin("sub", a.term(), b.term()),
            E::Mul(a, b) => bin("mul", a.term(), b.term()),
            E::F(a) => sapp(name("f"), a.term()),
            E::G(a, b) => bin("g", a.term(), b.term()),
        }
    }
    fn eval(&self, p: &Point) -> Option<i128> {
        Some(match self {
            E::X => p.v[0],
            E::Y => p.v[1],
            E::N("a") => p.v[2],
            E::N("b") => p.v[3],
            E::N(_) => p.v[4],
            E::L(n) => *n as i128,
            E::Add(a, b) => a.eval(p)?.checked_add(b.eval(p)?)?,
            E::Sub(a, b) => a.eval(p)?.checked_sub(b.eval(p)?)?,
            E::Mul(a, b) => a.eval(p)?.checked_mul(b.eval(p)?)?,
            E::F(a) => {
                let a = a.eval(p)?;
                match p.f {
                    0 => a,
                    1 => 0,
                    2 => a.checked_add(1)?,
                    3 => a.checked_neg()?,
                    4 => a.checked_mul(a)?,
                    _ => (a == 1) as i128,
                }
            }
            E::G(a, b) => {
                let (a, b) = (a.eval(p)?, b.eval(p)?);
                match p.f {
                    0 => a,
                    1 => b,
                    2 => a.checked_sub(b)?,
                    3 => a.checked_add(b.checked_mul(2)?)?,
                    4 => 7,
                    _ => a.checked_mul(b)?,
                }
            }
        })
    }
    fn text(&self) -> String {
        match self {
            E::X => "x".into(),
            E::Y => "y".into(),
            E::N(n) => n.to_string(),
            E::L(n) => n.to_string(),
            E::Add(a, b) => format!("({}+{})", a.text(), b.text()),
            E::Sub(a, b) => format!("({}-{})", a.text(), b.text()),
            E::Mul(a, b) => format!("({}*{})", a.text(), b.text()),
            E::F(a) => format!("f({})", a.text()),
            E::G(a, b) => format!("g({},{})", a.text(), b.text()),
        }
    }
    fn vars(&self, out: &mut [bool; 6]) {
        match self {
            E::X => out[0] = true,
            E::Y => out[1] = true,
            E::N("a") => out[2] = true,
            E::N("b") => out[3] = true,
            E::N(_) => out[4] = true,
            E::L(_) => {}
            E::Add(a, b) | E::Sub(a, b) | E::Mul(a, b) => {
                a.vars(out);
                b.vars(out)
            }
            E::F(a) => {
                out[5] = true;
                a.vars(out)
            }
            E::G(a, b) => {
                out[5] = true;
                a.vars(out);
                b.vars(out)
            }
        }
    }
}

impl G {
    fn term(&self) -> Term {
        match self {
            G::Rel(r, a, b) => bin(r, a.term(), b.term()),
            G::Typed(a, b) => sapp(sapp(sapp(name("Eq"), name("Int")), a.term()), b.term()),
            G::Imp(h, c) => bin("implies", h.term(), c.term()),
        }
    }
    /// Unknown where the numbers outgrow the evaluation.
    fn holds(&self, p: &Point) -> Option<bool> {
        Some(match self {
            G::Rel(r, a, b) => {
                let (a, b) = (a.eval(p)?, b.eval(p)?);
                match *r {
                    "Lt" | "lt" => a < b,
                    "Le" | "le" => a <= b,
                    "Gt" | "gt" => a > b,
                    "Ge" | "ge" => a >= b,
                    _ => a == b,
                }
            }
            G::Typed(a, b) => a.eval(p)? == b.eval(p)?,
            G::Imp(h, c) => !h.holds(p)? || c.holds(p)?,
        })
    }
    fn text(&self) -> String {
        match self {
            G::Rel(r, a, b) => format!("{r} {} {}", a.text(), b.text()),
            G::Typed(a, b) => format!("Eq Int {} {}", a.text(), b.text()),
            G::Imp(h, c) => format!("[{}] -> {}", h.text(), c.text()),
        }
    }
    fn vars(&self, out: &mut [bool; 6]) {
        match self {
            G::Rel(_, a, b) | G::Typed(a, b) => {
                a.vars(out);
                b.vars(out)
            }
            G::Imp(h, c) => {
                h.vars(out);
                c.vars(out)
            }
        }
    }
    fn ops(&self) -> usize {
        self.text().matches(['+', '-', '*', '[']).count()
    }
    /// Whether the procedure is meant for statements of this form.
    fn concerns(&self, tac: &str) -> bool {
        match self {
            G::Rel("Eq", ..) => matches!(tac, "try_cc" | "try_simp" | "try_auto"),
            G::Rel(..) => matches!(tac, "try_lia" | "try_omega" | "try_auto"),
            G::Typed(..) => matches!(tac, "try_ring" | "try_compute" | "try_auto"),
            G::Imp(h, c) => h.concerns(tac) || c.concerns(tac),
        }
    }
    /// Whether equations among the hypotheses define a variable by a larger expression over itself.
    /// Rewriting with those has no end but the step limit, at which memory runs out.
    fn grows(&self) -> bool {
        fn has(e: &E, v: &E) -> bool {
            e == v
                || match e {
                    E::Add(a, b) | E::Sub(a, b) | E::Mul(a, b) | E::G(a, b) => has(a, v) || has(b, v),
                    E::F(a) => has(a, v),
                    _ => false,
                }
        }
        let vars = [E::X, E::Y];
        let (mut edge, mut size) = ([[false; 2]; 2], 0);
        let mut at = self;
        while let G::Imp(h, rest) = at {
            if let G::Rel("Eq", a, b) | G::Typed(a, b) = &**h {
                for (l, r) in [(a, b), (b, a)] {
                    if let Some(i) = vars.iter().position(|v| v == l) {
                        for (j, v) in vars.iter().enumerate() {
                            if has(r, v) && r != l {
                                edge[i][j] = true;
                                size += (r != v) as usize;
                            }
                        }
                    }
                }
            } else if let G::Imp(..) = &**h {
                return true;
            }
            at = rest;
        }
        size > 0 && (edge[0][0] || edge[1][1] || (edge[0][1] && edge[1][0]))
    }
    /// A point at which the statement is false.
    fn refuted(&self) -> Option<Point> {
        let mut used = [false; 6];
        self.vars(&mut used);
        let n = used[..5].iter().filter(|x| **x).count();
        const SMALL: [i128; 5] = [0, 1, -1, 2, -3];
        const WIDE: [i128; 15] = [0, 1, -1, 2, -2, 3, -3, 4, -4, 5, -5, 6, -7, 1 << 40, -(1 << 40)];
        let vals: &[i128] = if n <= 2 { &WIDE } else { &SMALL };
        let fs = if used[5] { 6 } else { 1 };
        let slots: Vec<usize> = (0..5).filter(|i| used[*i]).collect();
        for f in 0..fs {
            let mut idx = vec![0; n];
            loop {
                let mut p = Point { v: [0; 5], f };
                for (k, s) in slots.iter().enumerate() {
                    p.v[*s] = vals[idx[k]];
                }
                if self.holds(&p) == Some(false) {
                    return Some(p);
                }
                let mut k = 0;
                while k < n && idx[k] + 1 == vals.len() {
                    idx[k] = 0;
                    k += 1;
                }
                if k == n {
                    break;
                }
                idx[k] += 1;
            }
        }
        None
    }
}

#[derive(Debug, Clone)]
struct Point {
    v: [i128; 5],
    f: u8,
}

const TACTICS: &[(&str, &str)] = &[
    ("try_ring", "DRingSolve"),
    ("try_lia", "DLiaSolve"),
    ("try_cc", "DccSolve"),
    ("try_simp", "DSimpSolve"),
    ("try_omega", "DOmegaSolve"),
    ("try_auto", "DAutoSolve"),
    ("try_compute", "DCompute"),
    ("try_refl", "DRefl"),
    ("try_bitblast", "DBitblastSolve"),
    ("try_tabulate", "DTabulateSolve"),
    ("try_hw_auto", "DHwAutoSolve"),
];

/// Expressions with exactly `n` operators.
fn exprs(leaves: &[E], n: usize) -> Vec<E> {
    let mut by: Vec<Vec<E>> = vec![leaves.to_vec()];
    for k in 1..=n {
        let mut v = Vec::new();
        for i in 0..k {
            for a in &by[i] {
                for b in &by[k - 1 - i] {
                    v.push(E::Add(a.clone().into(), b.clone().into()));
                    v.push(E::Sub(a.clone().into(), b.clone().into()));
                    v.push(E::Mul(a.clone().into(), b.clone().into()));
                }
            }
        }
        by.push(v);
    }
    by.pop().unwrap()
}

fn l(n: i64) -> E {
    E::L(n)
}
fn add(a: E, b: E) -> E {
    E::Add(a.into(), b.into())
}
fn sub(a: E, b: E) -> E {
    E::Sub(a.into(), b.into())
}
fn mul(a: E, b: E) -> E {
    E::Mul(a.into(), b.into())
}

const RELS: [&str; 4] = ["Lt", "Le", "Gt", "Ge"];

fn families() -> Vec<(&'static str, Vec<G>)> {
    let mut out = Vec::new();
    // Bare statements with up to two operators in all.
    let mut v = Vec::new();
    let leaves = [E::X, E::N("a"), l(0), l(1), l(-2)];
    let by: Vec<Vec<E>> = (0..=2).map(|n| exprs(&leaves, n)).collect();
    for i in 0..=2usize {
        for j in 0..=2 - i {
            for a in &by[i] {
                for b in &by[j] {
                    for r in RELS {
                        if i + j < 2 || r == "Lt" || r == "Ge" {
                            v.push(G::Rel(r, a.clone(), b.clone()));
                        }
                    }
                    v.push(G::Rel("Eq", a.clone(), b.clone()));
                    v.push(G::Typed(a.clone(), b.clone()));
                }
            }
        }
    }
    out.push(("bare statements", v));
    // The same at the edges of the machine integers.
    let mut v = Vec::new();
    let leaves = [E::X, l(i64::MAX), l(i64::MIN), l(1), l(-1), l(2)];
    let by: Vec<Vec<E>> = (0..=2).map(|n| exprs(&leaves, n)).collect();
    for (i, j) in [(0, 0), (1, 0), (0, 1), (1, 1), (2, 0)] {
        for a in &by[i] {
            for b in &by[j] {
                if i + j < 2 {
                    for r in RELS {
                        v.push(G::Rel(r, a.clone(), b.clone()));
                    }
                } else {
                    v.push(G::Rel("Le", a.clone(), b.clone()));
                }
                v.push(G::Rel("Eq", a.clone(), b.clone()));
                v.push(G::Typed(a.clone(), b.clone()));
            }
        }
    }
    out.push(("machine limits", v));
    // Identities with three or four operators.
    let mut v = Vec::new();
    let leaves = [E::X, E::Y, l(pick(-2, 1))];
    let two = exprs(&leaves, 2);
    let one = exprs(&leaves, 1);
    for a in &two {
        for b in &one {
            v.push(G::Typed(a.clone(), b.clone()));
            v.push(G::Rel("Eq", a.clone(), b.clone()));
        }
    }
    for (i, a) in two.iter().enumerate() {
        for b in &two[..i] {
            v.push(G::Typed(a.clone(), b.clone()));
        }
    }
    out.push(("identities", v));
    // One and two linear hypotheses.
    let sides = [E::X, E::Y, add(E::X, E::Y), sub(E::X, E::Y), mul(l(2), E::X), mul(l(3), E::Y), add(mul(l(2), E::X), E::Y), sub(mul(l(3), E::X), mul(l(2), E::Y))];
    let rights = [l(0), l(1), l(-1), E::Y, l(5)];
    let mut atoms = Vec::new();
    for a in &sides {
        for r in RELS {
            for b in &rights {
                atoms.push(G::Rel(r, a.clone(), b.clone()));
            }
        }
        atoms.push(G::Rel("Eq", a.clone(), l(1)));
    }
    let imp = |h: &G, c: G| G::Imp(Box::new(h.clone()), Box::new(c));
    let mut v = Vec::new();
    for h in &atoms {
        for c in &atoms {
            v.push(imp(h, c.clone()));
        }
    }
    out.push(("one hypothesis", v));
    let mut small = Vec::new();
    for a in [E::X, E::Y, sub(E::X, E::Y), mul(l(2), E::X), sub(mul(l(2), E::X), mul(l(3), E::Y))] {
        for r in RELS {
            for b in [l(1), E::N("a")] {
                small.push(G::Rel(r, a.clone(), b));
            }
        }
    }
    let mut v = Vec::new();
    for h in &small {
        for k in &small {
            for c in &small {
                if pick(true, false) && matches!((h, k), (G::Rel("Gt", ..), G::Rel("Gt", ..))) {
                    continue;
                }
                v.push(imp(h, imp(k, c.clone())));
            }
        }
    }
    out.push(("two hypotheses", v));
    // Hypotheses used as rewrites.
    let es = [E::X, E::Y, l(0), l(1), add(E::X, l(1)), add(E::X, E::Y), mul(E::X, E::Y), sub(E::X, E::Y)];
    let mut eqs = Vec::new();
    for a in &es {
        for b in &es {
            eqs.push(G::Rel("Eq", a.clone(), b.clone()));
        }
    }
    let mut v = Vec::new();
    for h in &eqs {
        for c in &eqs {
            v.push(imp(h, c.clone()));
            v.push(imp(c, imp(h, G::Rel("Le", E::X, E::Y))));
        }
    }
    for h in eqs.iter() {
        for k in eqs.iter() {
            for c in eqs.iter().skip(1).step_by(9) {
                v.push(imp(h, imp(k, c.clone())));
            }
        }
    }
    // An implication as a hypothesis, and hypotheses that are not about integers alone.
    for h in eqs.iter().step_by(3) {
        for k in eqs.iter().step_by(3) {
            v.push(imp(&imp(h, k.clone()), k.clone()));
            v.push(imp(&imp(h, k.clone()), h.clone()));
        }
    }
    out.push(("equalities as hypotheses", v));
    // Uninterpreted functions.
    let (a, b, c) = (E::N("a"), E::N("b"), E::N("c"));
    let f = |e: &E| E::F(e.clone().into());
    let g2 = |x: &E, y: &E| E::G(x.clone().into(), y.clone().into());
    let ts = [a.clone(), b.clone(), c.clone(), f(&a), f(&b), f(&f(&a)), g2(&a, &b), g2(&b, &a), l(0)];
    let mut eqs = Vec::new();
    for i in 0..ts.len() {
        for j in 0..ts.len() {
            if i != j {
                eqs.push((i, j));
            }
        }
    }
    let un: Vec<(usize, usize)> = eqs.iter().copied().filter(|(i, j)| i < j).collect();
    let eq = |(i, j): (usize, usize)| G::Rel("Eq", ts[i].clone(), ts[j].clone());
    let mut v = Vec::new();
    for &h in &eqs {
        for &k in &eqs {
            v.push(imp(&eq(h), eq(k)));
        }
    }
    for (n, &h) in un.iter().enumerate() {
        for &k in &un[n + 1..] {
            for &c in &un {
                v.push(imp(&eq(h), imp(&eq(k), eq(c))));
            }
            if pick(false, true) {
                for &m in &un {
                    for &c in &un {
                        v.push(imp(&eq(h), imp(&eq(k), imp(&eq(m), eq(c)))));
                    }
                }
            }
        }
    }
    out.push(("functions", v));
    out
}

pub fn run() {
    let c = Check::new("P16", "model_checking");
    let mut ctx = Context::new();
    StandardLibrary::register(&mut ctx);
    let known: Vec<(&str, &str)> = TACTICS.iter().copied().filter(|(t, _)| ctx.get_global(t).is_some()).collect();
    c.rule("states are statements; transitions are applications of a procedure; traces are conclusions drawn again from a certificate made up by hand");
    let batch = 4096;
    for (fam, goals) in families() {
        let chunks: Vec<&[G]> = goals.chunks(batch).collect();
        par_each(&chunks, |gs| {
            let mut ctx = Context::new();
            StandardLibrary::register(&mut ctx);
            let mut tally: HashMap<String, u64> = HashMap::new();
            for goal in *gs {
                let t = goal.term();
                let norm = normalize(&ctx, &t);
                let mut truth: Option<Option<Point>> = None;
                c.state(1);
                let all = goal.ops() <= 1;
                let grows = goal.grows();
                for (tac, cert) in &known {
                    if (!all && !goal.concerns(tac)) || (grows && matches!(*tac, "try_simp" | "try_auto" | "try_hw_auto")) {
                        continue;
                    }
                    // What is asked for ends in the same conclusion, so for the larger statements only the
                    // certificate is made up.
                    for (how, call) in [("made up", app(g(cert), t.clone())), ("asked", app(g(tac), t.clone()))] {
                        if how == "asked" && !all && *tac != "try_auto" {
                            continue;
                        }
                        let r = normalize(&ctx, &app(g("concludes"), call));
                        c.trans(1);
                        if how == "made up" {
                            c.trace(1);
                        }
                        if r == t || r == norm {
                            *tally.entry(format!("{fam}: {tac} {how}: proved")).or_default() += 1;
                            let refuted = truth.get_or_insert_with(|| goal.refuted());
                            c.nontrivial(goal);
                            if let Some(p) = refuted {
                                c.violation(&format!("{tac}/{how}/{}", goal.text()), &format!("proved, but false at x={} y={} a={} b={} c={} f#{}", p.v[0], p.v[1], p.v[2], p.v[3], p.v[4], p.f));
                            }
                        } else {
                            let s = format!("{r}");
                            let kind = if s.contains("Error") { "declined".to_string() } else if s.starts_with("(concludes") || s.starts_with("concludes") { "stuck".to_string() } else { format!("other {}", &s[..s.len().min(60)]) };
                            if kind != "declined" {
                                *tally.entry(format!("{tac} {how}: {kind}")).or_default() += 1;
                            }
                        }
                    }
                }
            }
            for (k, n) in tally {
                c.outcome_n(&k, n);
            }
        });
    }
    c.finish()
}
