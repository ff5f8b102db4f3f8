//! The enumerated program families.
use crate::lang::*;

pub struct Case {
    pub key: String,
    pub prog: Prog,
}

pub const EDGE: &[i64] = &[
    i64::MIN, i64::MIN + 1, -4294967296, -2147483648, -7, -2, -1, 0, 1, 2, 3, 7, 10, 63, 64,
    2147483647, 2147483648, 4294967295, 3037000500, 4611686018427387904, i64::MAX - 1, i64::MAX,
];

fn fun(name: &str, params: &[(&str, &str)], ret: &str, body: Vec<S>) -> Fun {
    Fun {
        name: name.into(),
        params: params.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect(),
        ret: (!ret.is_empty()).then(|| ret.to_string()),
        body,
    }
}

/// Every operator on every pair of edge values, in several syntactic positions.
pub fn values() -> Vec<Case> {
    let mut out = vec![];
    let ops: Vec<Op> = ARITH.iter().chain(BITS).chain(CMP).copied().chain([Op::LAnd, Op::LOr]).collect();
    for form in 0..5 {
        for &o in &ops {
            for (ai, &a) in EDGE.iter().enumerate() {
                // Cases the reference predicts to succeed share one program.
                let mut main = vec![];
                let mut alone = vec![];
                let mut funs = vec![];
                match form {
                    1 | 2 => main.push(letm("p", i(a))),
                    3 => funs.push(fun("op", &[("p", "Int"), ("q", "Int")], if CMP.contains(&o) || matches!(o, Op::LAnd | Op::LOr) { "Bool" } else { "Int" },
                        vec![S::Return(Some(bin(o, v("p"), v("q"))))])),
                    _ => {}
                }
                for (bi, &b) in EDGE.iter().enumerate() {
                    let (pre, e) = match form {
                        0 => (vec![], bin(o, i(a), i(b))),
                        1 => (vec![], bin(o, v("p"), i(b))),
                        2 => (vec![letm(&format!("q{bi}"), i(b))], bin(o, v("p"), v(&format!("q{bi}")))),
                        3 => (vec![], call("op", vec![i(a), i(b)])),
                        // The left operand comes out of a collection.
                        _ => (vec![S::Let(format!("r{bi}"), E::List(vec![i(a), i(b)]))],
                              bin(o, item(i(1), v(&format!("r{bi}"))), item(i(2), v(&format!("r{bi}"))))),
                    };
                    let ok = apply(o, &Val::I(a as i128), &Val::I(b as i128));
                    let mut st = pre;
                    st.push(show(e));
                    if matches!(ok, Err(Stop::Error(_))) {
                        alone.push((b, st));
                    } else {
                        main.extend(st);
                    }
                }
                let _ = ai;
                out.push(Case { key: format!("values/form{form}/{:?}/{a}", o), prog: Prog { decls: String::new(), funs: funs.clone(), main: main.clone() } });
                for (b, st) in alone {
                    let mut m: Vec<S> = match form { 1 | 2 => vec![letm("p", i(a))], _ => vec![] };
                    m.push(show(i(1)));
                    m.extend(st);
                    m.push(show(i(2)));
                    out.push(Case { key: format!("values/form{form}/{:?}/{a}/{b}", o), prog: Prog { decls: String::new(), funs: funs.clone(), main: m } });
                }
            }
        }
    }
    out
}

/// Statements over integers a, b and sequences xs, ys, with k the loop counter.
pub fn alphabet() -> Vec<Vec<S>> {
    use Op::*;
    let a = || v("a");
    let b = || v("b");
    let k = || v("k");
    let xs = || v("xs");
    vec![
        vec![set("a", bin(Add, a(), i(1)))],
        vec![set("a", bin(Add, a(), b()))],
        vec![set("b", bin(Mul, b(), i(3)))],
        vec![set("b", bin(Sub, b(), a()))],
        vec![set("a", bin(Mod, a(), i(7)))],
        vec![set("b", bin(Div, b(), i(3)))],
        vec![set("a", bin(Add, bin(Mul, k(), k()), b()))],
        vec![set("a", b())],
        vec![set("b", k())],
        vec![set("b", bin(Xor, bin(Shl, b(), i(3)), a()))],
        vec![S::If(bin(Gt, a(), b()), vec![set("a", b())], vec![set("b", bin(Add, b(), i(2)))])],
        vec![S::If(bin(Eq, bin(Mod, k(), i(2)), i(0)), vec![set("a", bin(Sub, a(), i(5)))], vec![])],
        vec![S::If(bin(LAnd, bin(Gt, a(), i(3)), bin(Lt, b(), i(50))), vec![set("b", bin(Add, b(), a()))], vec![set("a", bin(Add, a(), i(4)))])],
        vec![S::Push(a(), "xs".into())],
        vec![S::SetItem("xs".into(), i(2), bin(Add, item(i(1), xs()), a()))],
        vec![S::SetItem("xs".into(), bin(Add, bin(Mod, k(), i(3)), i(1)), k())],
        vec![set("a", item(bin(Add, bin(Mod, k(), i(3)), i(1)), xs()))],
        vec![set("b", bin(Add, b(), len(xs())))],
        vec![set("b", item(len(xs()), xs()))],
        vec![S::Pop("xs".into(), None)],
        vec![set("ys", xs())],
        vec![S::Push(b(), "ys".into())],
        vec![S::Let("t".into(), a()), set("a", b()), set("b", v("t"))],
        vec![S::For("j".into(), i(1), i(3), vec![set("a", bin(Add, a(), v("j")))])],
        vec![S::Each("x".into(), xs(), vec![set("b", bin(Add, b(), v("x")))])],
        vec![set("a", call("half", vec![b()]))],
        vec![set("b", call("pick", vec![xs(), a()]))],
        vec![S::If(E::Has(Box::new(xs()), Box::new(a())), vec![set("b", bin(Add, b(), i(11)))], vec![])],
        vec![S::While(bin(Gt, a(), i(20)), vec![set("a", bin(Div, a(), i(2)))])],
        vec![S::If(bin(Gt, a(), i(1000)), vec![S::Break], vec![])],
        vec![S::If(bin(Eq, a(), i(4)), vec![show(b())], vec![])],
    ]
}

fn helpers() -> Vec<Fun> {
    use Op::*;
    vec![
        fun("half", &[("n", "Int")], "Int", vec![
            S::If(bin(Lt, v("n"), i(0)), vec![S::Return(Some(bin(Sub, i(0), v("n"))))], vec![]),
            S::Return(Some(bin(Div, v("n"), i(2)))),
        ]),
        fun("pick", &[("s", "Seq of Int"), ("n", "Int")], "Int", vec![
            S::If(bin(LOr, bin(Lt, v("n"), i(1)), bin(Gt, v("n"), len(v("s")))), vec![S::Return(Some(i(9)))], vec![]),
            S::Return(Some(item(v("n"), v("s")))),
        ]),
    ]
}

fn prologue() -> Vec<S> {
    vec![letm("a", i(1)), letm("b", i(2)), letm("xs", E::List(vec![i(3), i(4), i(5)])), letm("ys", E::List(vec![i(6)]))]
}
fn epilogue() -> Vec<S> {
    vec![show(v("a")), show(v("b")), show(v("xs")), show(v("ys"))]
}

pub const CONTEXTS: usize = 7;
/// Places `body` into one of the surroundings. `n` is the iteration count of loops.
pub fn context(c: usize, body: &[S], n: i64) -> Prog {
    use Op::*;
    let uses_break = format!("{body:?}").contains("Break");
    let mut funs = helpers();
    let mut main = prologue();
    match c {
        0 => {
            // Straight line.
            if !uses_break {
                main.push(letm("k", i(n)));
                main.extend(body.iter().cloned());
            } else {
                main.push(S::For("k".into(), i(n), i(n), body.to_vec()));
            }
        }
        1 => {
            main.push(letm("k", i(0)));
            let mut b = body.to_vec();
            b.push(set("k", bin(Add, v("k"), i(1))));
            main.push(S::While(bin(Lt, v("k"), i(n)), b));
        }
        2 => main.push(S::For("k".into(), i(1), i(n), body.to_vec())),
        3 => {
            // In a function working on its own state, called often.
            let mut fb = vec![letm("a", v("p")), letm("b", v("q")), letm("xs", E::List(vec![i(3), i(4), i(5)])), letm("ys", E::List(vec![i(6)]))];
            if uses_break {
                fb.push(S::For("k".into(), v("p"), v("p"), body.to_vec()));
            } else {
                fb.push(letm("k", v("p")));
                fb.extend(body.iter().cloned());
            }
            fb.push(S::Return(Some(bin(Add, bin(Mul, v("a"), i(31)), bin(Add, v("b"), bin(Add, len(v("xs")), len(v("ys"))))))));
            funs.push(fun("step", &[("p", "Int"), ("q", "Int")], "Int", fb));
            main.push(letm("k", i(0)));
            main.push(S::While(bin(Lt, v("k"), i(n)), vec![
                set("a", call("step", vec![v("k"), v("b")])),
                set("b", bin(Mod, bin(Add, v("b"), v("a")), i(1009))),
                set("k", bin(Add, v("k"), i(1))),
            ]));
        }
        4 => {
            // Nested loops: the body is the inner one.
            main.push(S::For("g".into(), i(1), i(3), vec![
                letm("k", v("g")),
                S::While(bin(Lt, v("k"), i(n)), { let mut b = body.to_vec(); b.push(set("k", bin(Add, v("k"), i(1)))); b }),
            ]));
        }
        5 => {
            // Function that owns the loop and takes the sequence.
            let mut b = body.to_vec();
            b.push(set("k", bin(Add, v("k"), i(1))));
            funs.push(fun("run", &[("zs", "Seq of Int"), ("n", "Int")], "Int", vec![
                letm("a", i(1)), letm("b", i(2)), letm("xs", E::CopyOf(Box::new(v("zs")))), letm("ys", E::List(vec![i(6)])), letm("k", i(0)),
                S::While(bin(Lt, v("k"), v("n")), b),
                show(v("xs")),
                S::Return(Some(bin(Add, v("a"), v("b")))),
            ]));
            main.push(set("a", call("run", vec![v("xs"), i(n)])));
        }
        _ => {
            // Only under a condition that alternates.
            main.push(letm("k", i(0)));
            main.push(S::While(bin(Lt, v("k"), i(n)), vec![
                S::If(bin(Eq, bin(Mod, v("k"), i(3)), i(1)), body.to_vec(), vec![set("b", bin(Add, v("b"), i(1)))]),
                set("k", bin(Add, v("k"), i(1))),
            ]));
        }
    }
    main.extend(epilogue());
    Prog { decls: String::new(), funs, main }
}

pub fn bodies(len: usize, ctx: &[usize], ns: &[i64]) -> Vec<Case> {
    let al = alphabet();
    let mut out = vec![];
    mc::words(al.len(), len, &mut |w| {
        if w.is_empty() || (len >= 3 && w.len() < len) {
            return;
        }
        let body: Vec<S> = w.iter().enumerate().flat_map(|(pos, &j)| rename(&al[j], pos)).collect();
        for &c in ctx {
            for &n in ns {
                out.push(Case { key: format!("bodies/c{c}/n{n}/{w:?}"), prog: context(c, &body, n) });
            }
        }
    });
    out
}

/// Keeps names introduced by a statement distinct by position.
fn rename(s: &[S], pos: usize) -> Vec<S> {
    s.iter().map(|x| match x {
        S::Let(n, e) if n == "t" => S::Let(format!("t{pos}"), e.clone()),
        S::Set(n, E::V(t)) if t == "t" => S::Set(n.clone(), v(&format!("t{pos}"))),
        x => x.clone(),
    }).collect()
}

/// Every expression of two operators over variables and the constants that rewrites treat
/// specially, with the variables' values known to the compiler or not.
pub fn exprs() -> Vec<Case> {
    let ints = [v("a"), v("z"), i(0), i(1), i(2)];
    let arith = [Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Mod, Op::And, Op::Or, Op::Shl];
    let bools = [
        v("p"), v("q"), E::B(true), E::B(false),
        bin(Op::Gt, v("a"), i(3)),
        bin(Op::Eq, bin(Op::Div, i(10), v("z")), i(1)),
        bin(Op::Eq, item(v("z"), v("ns")), i(1)),
    ];
    let mut es = vec![];
    let two = |ops1: &[Op], ops2: &[Op], pool: &[E], es: &mut Vec<E>| {
        for &o in ops1 { for &o2 in ops2 { for x in pool { for y in pool {
            let inner = bin(o2, x.clone(), y.clone());
            for w in pool {
                es.push(bin(o, inner.clone(), w.clone()));
                es.push(bin(o, w.clone(), inner.clone()));
            }
        } } } }
    };
    two(&arith, &arith, &ints, &mut es);
    two(CMP, &arith, &ints, &mut es);
    two(&[Op::LAnd, Op::LOr], &[Op::LAnd, Op::LOr], &bools, &mut es);
    for x in &bools {
        for y in &bools {
            for o in [Op::LAnd, Op::LOr] {
                es.push(E::Not(Box::new(bin(o, E::Not(Box::new(x.clone())), y.clone()))));
                es.push(bin(o, E::Not(Box::new(E::Not(Box::new(x.clone())))), y.clone()));
            }
        }
    }
    let mut out = vec![];
    for known in [true, false] {
        let pre = if known {
            vec![letm("a", i(6)), letm("z", i(0)), letm("p", E::B(true)), letm("q", E::B(false)), S::Let("ns".into(), E::List(vec![i(6), i(0)]))]
        } else {
            vec![S::Let("ns".into(), E::List(vec![i(6), i(0)])), letm("a", item(i(1), v("ns"))), letm("z", item(i(2), v("ns"))),
                 letm("p", bin(Op::Gt, v("a"), i(0))), letm("q", bin(Op::Lt, v("a"), i(0)))]
        };
        let mut batch = vec![];
        for (k, e) in es.iter().enumerate() {
            let mut main = pre.clone();
            main.push(show(e.clone()));
            let one = Prog { decls: String::new(), funs: vec![], main };
            if matches!(Ref::run(&one).1, Some(None)) {
                batch.push(show(e.clone()));
                if batch.len() < 60 && k + 1 < es.len() { continue; }
            } else {
                out.push(Case { key: format!("exprs/known={known}/{}", e.print(true)), prog: one });
                if k + 1 < es.len() { continue; }
            }
            let mut main = pre.clone();
            main.append(&mut batch);
            out.push(Case { key: format!("exprs/known={known}/batch to {k}"), prog: Prog { decls: String::new(), funs: vec![], main } });
        }
    }
    out
}
