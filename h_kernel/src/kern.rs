//! P15: the proof kernel.
use logicaffeine_kernel::prelude::StandardLibrary;
use logicaffeine_kernel::{double_check, infer_type, is_subtype, normalize, Context, DoubleCheck, Term, Universe};
use mc::{guard, par_each, pick, Check};
use std::collections::HashMap;

pub fn g(n: &str) -> Term {
    Term::Global(n.into())
}
pub fn v(n: &str) -> Term {
    Term::Var(n.into())
}
pub fn app(f: Term, a: Term) -> Term {
    Term::App(Box::new(f), Box::new(a))
}
pub fn apps(f: Term, a: &[Term]) -> Term {
    a.iter().cloned().fold(f, app)
}
pub fn lam(x: &str, t: Term, b: Term) -> Term {
    Term::Lambda { param: x.into(), param_type: Box::new(t), body: Box::new(b) }
}
pub fn pi(x: &str, t: Term, b: Term) -> Term {
    Term::Pi { param: x.into(), param_type: Box::new(t), body_type: Box::new(b) }
}
pub fn mat(d: Term, m: Term, cases: Vec<Term>) -> Term {
    Term::Match { discriminant: Box::new(d), motive: Box::new(m), cases }
}
pub fn fix(f: &str, b: Term) -> Term {
    Term::Fix { name: f.into(), body: Box::new(b) }
}
pub fn prop() -> Term {
    Term::Sort(Universe::Prop)
}

pub fn let_(x: &str, t: Term, val: Term, b: Term) -> Term {
    Term::Let { name: x.into(), ty: Box::new(t), value: Box::new(val), body: Box::new(b) }
}
fn nat() -> Term {
    g("Nat")
}
fn eq(a: Term, b: Term) -> Term {
    apps(g("Eq"), &[nat(), a, b])
}
fn refl(a: Term) -> Term {
    apps(g("refl"), &[nat(), a])
}
fn library() -> Context {
    let mut ctx = Context::new();
    StandardLibrary::register(&mut ctx);
    ctx
}

/// The value of a closed type read as a statement about the naturals: true, false, or not of this
/// kind. Quantifiers range over 0..4, which decides statements made of equations.
#[derive(Clone)]
enum Val {
    N(u32),
    /// A proof or something else without a value.
    Other,
}

fn num(t: &Term, env: &[(String, Val)]) -> Option<u32> {
    match t {
        Term::Var(x) => match env.iter().rev().find(|(n, _)| n == x)?.1 {
            Val::N(n) => Some(n),
            Val::Other => None,
        },
        Term::Global(n) if n == "Zero" => Some(0),
        Term::App(f, a) if **f == g("Succ") => Some(num(a, env)? + 1),
        _ => None,
    }
}

fn truth(t: &Term, env: &mut Vec<(String, Val)>) -> Option<bool> {
    match t {
        Term::Global(n) if n == "False" => Some(false),
        Term::Global(n) if n == "True" => Some(true),
        Term::Pi { param, param_type, body_type } => {
            let range: Vec<Val> = if **param_type == nat() {
                (0..4).map(Val::N).collect()
            } else if truth(param_type, env)? {
                vec![Val::Other]
            } else {
                // The body still has to be a statement.
                return Some(true);
            };
            let mut all = true;
            for x in range {
                env.push((param.clone(), x));
                let r = truth(body_type, env);
                env.pop();
                all &= r?;
            }
            Some(all)
        }
        Term::App(f, b) => {
            let Term::App(f, a) = &**f else { return None };
            let Term::App(e, ty) = &**f else { return None };
            if **e != g("Eq") || **ty != nat() {
                return None;
            }
            Some(num(a, env)? == num(b, env)?)
        }
        _ => None,
    }
}

thread_local! {
    static MARK: Option<std::fs::File> = std::env::args().nth(2).and_then(|d| std::fs::File::create(format!("{d}/{:?}", std::thread::current().id())).ok());
}

/// Leaves word of what this thread is about to check, for the case that the checker takes the process down.
fn mark(what: &str) {
    use std::os::unix::fs::FileExt;
    MARK.with(|f| {
        if let Some(f) = f {
            let _ = f.write_all_at(format!("{what}\n").as_bytes(), 0);
        }
    });
}

/// Every closed term that is accepted goes through here.
fn judge(c: &Check, ctx: &Context, key: &dyn Fn() -> String, t: &Term, tally: &mut HashMap<String, u64>) {
    c.state(1);
    mark(&t.to_string());
    let ty = match guard(|| infer_type(ctx, t)) {
        Err(e) => return c.violation(&key(), &format!("the checker crashes on {t}: {e}")),
        Ok(Err(_)) => {
            *tally.entry("rejected".into()).or_default() += 1;
            return;
        }
        Ok(Ok(ty)) => ty,
    };
    *tally.entry("accepted".into()).or_default() += 1;
    c.nontrivial(&format!("{t}"));
    let norm = normalize(ctx, &ty);
    c.trans(1);
    match truth(&norm, &mut Vec::new()) {
        Some(false) => return c.violation(&key(), &format!("accepted as a proof of something false\n{t}\n: {ty}")),
        Some(true) => *tally.entry("proofs of true statements".into()).or_default() += 1,
        None => {}
    }
    match infer_type(ctx, &ty).map(|s| normalize(ctx, &s)) {
        Ok(Term::Sort(_)) => {}
        other => return c.violation(&key(), &format!("the type given is not a type\n{t}\n: {ty}\n: {other:?}")),
    }
    if format!("{t}").contains(":_)") {
        *tally.entry("with a type left to be filled in".into()).or_default() += 1;
        return;
    }
    let n = normalize(ctx, t);
    c.trans(1);
    c.trace(1);
    match infer_type(ctx, &n) {
        Ok(nt) if is_subtype(ctx, &nt, &ty) => {}
        other => return c.violation(&key(), &format!("evaluation changes the type\n{t}\n: {ty}\nevaluates to {n}\n: {}", other.map(|t| t.to_string()).unwrap_or_else(|e| format!("{e:?}")))),
    }
    match double_check(ctx, t) {
        DoubleCheck::Agreed => {}
        DoubleCheck::MainOnlyReCheckerIncomplete(_) => *tally.entry("second checker declines".into()).or_default() += 1,
        DoubleCheck::Disagree(e) => c.violation(&key(), &format!("the two checkers disagree\n{t}\n{e}")),
    }
}

fn merge(c: &Check, fam: &str, tally: HashMap<String, u64>) {
    for (k, n) in tally {
        c.outcome_n(&format!("{fam}: {k}"), n);
    }
}

/// Few names, so that every way of shadowing and capturing occurs.
fn names(c: &Check) {
    let (x, y) = (|| v("x"), || v("y"));
    let types = [nat(), eq(x(), y()), eq(x(), x()), eq(x(), g("Zero")), pi("x", nat(), eq(x(), y())), pi("y", nat(), eq(x(), y())), pi("y", nat(), eq(y(), y()))];
    let mut base = vec![x(), y(), refl(x()), refl(y()), lam("x", nat(), refl(x())), lam("y", nat(), refl(x())), lam("x", nat(), y()), lam("y", nat(), x()), lam("x", nat(), x())];
    for f in [x(), y()] {
        for a in [x(), y(), g("Zero")] {
            base.push(app(f.clone(), a));
        }
    }
    let mut bodies = base.clone();
    for b in &base {
        for t in &types {
            // Used where a given type is expected, through a binder of either name.
            for n in ["x", "y", "k"] {
                bodies.push(app(lam(n, t.clone(), v(n)), b.clone()));
            }
            for n in ["x", "y"] {
                bodies.push(let_(n, t.clone(), b.clone(), v(n)));
                bodies.push(let_(n, t.clone(), b.clone(), refl(x())));
                bodies.push(app(lam(n, t.clone(), lam("y", nat(), v(n))), b.clone()));
                bodies.push(app(lam(n, t.clone(), lam("x", nat(), v(n))), b.clone()));
            }
            // A binder whose type is left to be filled in.
            bodies.push(app(lam("k", t.clone(), v("k")), lam("x", g("_"), b.clone())));
            bodies.push(app(lam("k", t.clone(), v("k")), lam("y", g("_"), b.clone())));
        }
    }
    let mut teles: Vec<Vec<(&str, &Term)>> = vec![vec![]];
    let mut last = teles.clone();
    for _ in 0..pick(3, 4) {
        let mut next = Vec::new();
        for t in &last {
            for n in ["x", "y"] {
                for ty in &types {
                    let mut u = t.clone();
                    u.push((n, ty));
                    next.push(u);
                }
            }
        }
        // Telescopes that are not themselves types lead nowhere.
        let ctx = library();
        next.retain(|t| {
            let t = t.iter().rev().fold(prop(), |b, (n, ty)| pi(n, (*ty).clone(), b));
            mark(&t.to_string());
            infer_type(&ctx, &t).is_ok()
        });
        last = next.clone();
        teles.extend(next);
    }
    c.note("telescopes", teles.len() as u64);
    par_each(&teles, |tele| {
        let ctx = library();
        let mut tally = HashMap::new();
        for b in &bodies {
            let t = tele.iter().rev().fold(b.clone(), |b, (n, ty)| lam(n, (*ty).clone(), b));
            judge(c, &ctx, &|| format!("names/{t}"), &t, &mut tally);
        }
        merge(c, "names", tally);
    });
}

/// How a declared type takes arguments.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Shape {
    Plain,
    Index,
    Param,
}

#[derive(Clone)]
struct Field {
    name: &'static str,
    ty: Term,
    /// A proposition, whatever the sort of the declared type.
    prop: bool,
    /// Too large for a type of the lowest universe.
    large: bool,
    /// The declared type stands where it may not.
    negative: bool,
    /// The declared type itself, or a function into it.
    me: bool,
}

fn fields(shape: Shape) -> Vec<Field> {
    let me = mine(shape, &g("Zero"));
    let f = |name, ty: Term| Field { name, ty, prop: false, large: false, negative: false, me: false };
    let mut out = vec![
        f("Nat", nat()),
        Field { me: true, ..f("I", me.clone()) },
        Field { large: true, ..f("Prop", prop()) },
        Field { me: true, ..f("Nat->I", pi("_", nat(), me.clone())) },
        Field { negative: true, ..f("I->I", pi("_", me.clone(), me.clone())) },
        Field { negative: true, prop: true, ..f("I->False", pi("_", me.clone(), g("False"))) },
        Field { negative: true, prop: true, ..f("(I->False)->False", pi("_", pi("_", me.clone(), g("False")), g("False"))) },
        Field { prop: true, ..f("P->P", pi("P", prop(), pi("_", v("P"), v("P")))) },
        Field { prop: true, ..f("all P", pi("P", prop(), v("P"))) },
        Field { prop: true, ..f("True", g("True")) },
        Field { negative: true, ..f("(I->Nat)->I", pi("_", pi("_", me.clone(), nat()), me.clone())) },
        f("Nat->Nat", pi("_", nat(), nat())),
    ];
    match shape {
        Shape::Param => out.push(f("A", v("A"))),
        Shape::Index => {
            out.push(Field { me: true, ..f("I 1", mine(shape, &app(g("Succ"), g("Zero")))) });
            out.push(Field { prop: true, ..f("0=1", eq(g("Zero"), app(g("Succ"), g("Zero")))) });
        }
        Shape::Plain => {}
    }
    out
}

/// The declared type inside its own declaration.
fn mine(shape: Shape, index: &Term) -> Term {
    match shape {
        Shape::Plain => g("I"),
        Shape::Index => app(g("I"), index.clone()),
        Shape::Param => app(g("I"), v("A")),
    }
}

struct Decl {
    shape: Shape,
    is_prop: bool,
    ctors: Vec<(Vec<Field>, bool)>,
}

impl Decl {
    fn text(&self) -> String {
        let cs: Vec<String> = self.ctors.iter().map(|(f, shown)| format!("{}{}", f.iter().map(|f| f.name).collect::<Vec<_>>().join(","), if *shown { " at its first field" } else { "" })).collect();
        format!("{:?} {} [{}]", self.shape, if self.is_prop { "Prop" } else { "Type" }, cs.join(" | "))
    }
    /// The type at which the declared type is used.
    fn used(&self) -> Term {
        match self.shape {
            Shape::Plain => g("I"),
            Shape::Index => app(g("I"), g("Zero")),
            Shape::Param => app(g("I"), nat()),
        }
    }
    fn at(&self, t: &Term) -> Term {
        if self.shape == Shape::Param {
            subst(t, "A", &nat())
        } else {
            t.clone()
        }
    }
    fn ctor_type(&self, fs: &[Field], shown: bool) -> Term {
        let res = mine(self.shape, &if shown { v("a0") } else { g("Zero") });
        let body = fs.iter().enumerate().rev().fold(res, |b, (i, f)| pi(&format!("a{i}"), f.ty.clone(), b));
        if self.shape == Shape::Param {
            pi("A", Term::Sort(Universe::Type(0)), body)
        } else {
            body
        }
    }
    /// Whether large elimination is sound: the proof decides the value.
    fn subsingleton(&self) -> bool {
        match &self.ctors[..] {
            [] => true,
            [(fs, shown)] => fs.iter().enumerate().all(|(i, f)| f.prop || (f.me && self.is_prop) || (*shown && i == 0)),
            _ => false,
        }
    }
}

fn subst(t: &Term, x: &str, r: &Term) -> Term {
    match t {
        Term::Var(y) if y == x => r.clone(),
        Term::App(f, a) => app(subst(f, x, r), subst(a, x, r)),
        Term::Pi { param, param_type, body_type } => pi(param, subst(param_type, x, r), subst(body_type, x, r)),
        Term::Lambda { param, param_type, body } => lam(param, subst(param_type, x, r), subst(body, x, r)),
        _ => t.clone(),
    }
}

/// Closed values of the declared type at its use, the smallest first.
fn inhabitants(d: &Decl) -> Vec<Term> {
    let used = d.used();
    let mut all: Vec<Term> = Vec::new();
    for _ in 0..3 {
        let known = all.last().cloned();
        for (k, (fs, shown)) in d.ctors.iter().enumerate() {
            let mut t = g(&format!("C{k}"));
            if d.shape == Shape::Param {
                t = app(t, nat());
            }
            let mut ok = true;
            for (i, f) in fs.iter().enumerate() {
                let x = match f.name {
                    "Nat" | "A" => Some(g("Zero")),
                    "I" => known.clone(),
                    "Prop" => Some(g("True")),
                    "Nat->I" => known.clone().map(|x| lam("_", nat(), x)),
                    "I->I" => Some(lam("q", used.clone(), v("q"))),
                    "(I->False)->False" => known.clone().map(|x| lam("k", pi("_", used.clone(), g("False")), app(v("k"), x))),
                    "P->P" => Some(lam("P", prop(), lam("p", v("P"), v("p")))),
                    "True" => Some(g("I'")),
                    "(I->Nat)->I" => known.clone().map(|x| lam("_", pi("_", used.clone(), nat()), x)),
                    "Nat->Nat" => Some(lam("n", nat(), v("n"))),
                    _ => None,
                };
                let _ = (i, shown);
                match x {
                    Some(x) => t = app(t, x),
                    None => ok = false,
                }
            }
            if ok && !all.contains(&t) {
                all.push(t);
            }
        }
    }
    all
}

fn declare(ctx: &mut Context, d: &Decl) -> Result<(), (usize, String)> {
    let sort = if d.is_prop { prop() } else { Term::Sort(Universe::Type(0)) };
    match d.shape {
        Shape::Plain => ctx.add_inductive("I", sort),
        Shape::Index => ctx.add_indexed_inductive("I", pi("n", nat(), sort), 0),
        Shape::Param => ctx.add_indexed_inductive("I", pi("A", Term::Sort(Universe::Type(0)), sort), 1),
    }
    for (k, (fs, shown)) in d.ctors.iter().enumerate() {
        ctx.add_constructor_checked(&format!("C{k}"), "I", d.ctor_type(fs, *shown)).map_err(|e| (k, format!("{e:?}")))?;
    }
    Ok(())
}

fn declarations(c: &Check) {
    let mut decls = Vec::new();
    for shape in [Shape::Plain, Shape::Index, Shape::Param] {
        let fs = fields(shape);
        let mut tuples: Vec<Vec<Field>> = vec![vec![]];
        for a in &fs {
            tuples.push(vec![a.clone()]);
        }
        let ones = tuples.len();
        for a in &fs {
            for b in &fs {
                tuples.push(vec![a.clone(), b.clone()]);
            }
        }
        for is_prop in [true, false] {
            let mut ctors: Vec<(Vec<Field>, bool)> = tuples.iter().map(|t| (t.clone(), false)).collect();
            if shape == Shape::Index {
                ctors.extend(tuples.iter().filter(|t| t.first().is_some_and(|f| f.name == "Nat")).map(|t| (t.clone(), true)));
            }
            decls.push(Decl { shape, is_prop, ctors: vec![] });
            for x in &ctors {
                decls.push(Decl { shape, is_prop, ctors: vec![x.clone()] });
            }
            let second = pick(ones, ctors.len());
            for x in &ctors[..second] {
                for y in &ctors[..ones] {
                    decls.push(Decl { shape, is_prop, ctors: vec![x.clone(), y.clone()] });
                }
            }
        }
    }
    c.note("declarations", decls.len() as u64);
    par_each(&decls, |d| {
        // `I` is the proof of `True` in the library, so the declared type takes its name from here.
        let mut ctx = Context::new();
        ctx.add_inductive("Nat", Term::Sort(Universe::Type(0)));
        ctx.add_constructor("Zero", "Nat", nat());
        ctx.add_constructor("Succ", "Nat", pi("_", nat(), nat()));
        ctx.add_inductive("False", prop());
        ctx.add_inductive("True", prop());
        ctx.add_constructor("I'", "True", g("True"));
        ctx.add_indexed_inductive("Eq", pi("A", Term::Sort(Universe::Type(0)), pi("x", v("A"), pi("y", v("A"), prop()))), 2);
        ctx.add_constructor("refl", "Eq", pi("A", Term::Sort(Universe::Type(0)), pi("x", v("A"), apps(g("Eq"), &[v("A"), v("x"), v("x")]))));
        let mut tally = HashMap::new();
        c.state(1);
        c.trans(1);
        let bad = d.ctors.iter().any(|(fs, _)| fs.iter().any(|f| f.negative));
        let big = !d.is_prop && d.ctors.iter().any(|(fs, _)| fs.iter().any(|f| f.large));
        match declare(&mut ctx, d) {
            Ok(()) if bad => return c.violation(&format!("declared/{}", d.text()), "accepted, though the type occurs to the left of an arrow"),
            Ok(()) if big => return c.violation(&format!("declared/{}", d.text()), "accepted, though a field is too large for the type's universe"),
            Ok(()) => *tally.entry("declarations accepted".to_string()).or_default() += 1,
            Err((_, e)) => {
                *tally.entry("declarations rejected".to_string()).or_default() += 1;
                if !bad && !big {
                    *tally.entry(format!("rejected though harmless: {}", &e[..e.len().min(50)])).or_default() += 1;
                }
                return merge(c, "declarations", tally);
            }
        }
        mark(&d.text());
        eliminate(c, &ctx, d, &mut tally);
        mark(&d.text());
        recurse(c, &ctx, d, &mut tally);
        stops(c, &ctx, d, &mut tally);
        merge(c, "declarations", tally);
    });
}

/// Cases that bind the fields under the given names and go on with `body`.
fn cases(d: &Decl, names: [&str; 2], body: &Term) -> Vec<Term> {
    d.ctors.iter().map(|(fs, _)| fs.iter().enumerate().rev().fold(body.clone(), |b, (i, f)| lam(names[i], d.at(&f.ty), b))).collect()
}

fn motive(d: &Decl, body: Term) -> Term {
    match d.shape {
        Shape::Index => lam("n", nat(), lam("_", app(g("I"), v("n")), body)),
        _ => lam("_", d.used(), body),
    }
}

fn eliminate(c: &Check, ctx: &Context, d: &Decl, tally: &mut HashMap<String, u64>) {
    for (into, large, body) in [("Nat", true, g("Zero")), ("Prop", true, g("True")), ("True", false, g("I'")), ("False->False", false, lam("w", g("False"), v("w")))] {
        let ty = match into {
            "Nat" => nat(),
            "Prop" => prop(),
            "True" => g("True"),
            _ => pi("_", g("False"), g("False")),
        };
        let t = lam("t", d.used(), mat(v("t"), motive(d, ty), cases(d, ["a", "b"], &body)));
        c.trans(1);
        match infer_type(ctx, &t) {
            Ok(_) if large && d.is_prop && !d.subsingleton() => c.violation(&format!("elimination/{}/{into}", d.text()), "a proof is taken apart into data though its proofs differ"),
            Ok(_) => *tally.entry("eliminations accepted".into()).or_default() += 1,
            Err(_) => *tally.entry("eliminations rejected".into()).or_default() += 1,
        }
        judge(c, ctx, &|| format!("elimination/{}/{into}", d.text()), &t, tally);
    }
}

fn recurse(c: &Check, ctx: &Context, d: &Decl, tally: &mut HashMap<String, u64>) {
    let values = inhabitants(d);
    let inh = values.first().cloned();
    let used = d.used();
    // The recursive argument, in terms of what is in scope.
    let args: Vec<Term> = vec![
        v("t"),
        v("a"),
        v("b"),
        v("z"),
        app(v("a"), g("Zero")),
        app(v("b"), g("Zero")),
        app(v("a"), v("t")),
        apps(v("a"), &[used.clone(), v("t")]),
        apps(v("b"), &[used.clone(), v("t")]),
        apps(v("a"), &[used.clone(), v("b")]),
    ];
    let extras: [&[Term]; 3] = [&[], &[d.used()], &[nat()]];
    for (k, extra) in extras.iter().enumerate() {
        let index = d.shape == Shape::Index;
        let fnum = extra.iter().rev().fold(g("False"), |b, t| pi("_", t.clone(), b));
        for names in [["a", "b"], ["t", "b"], ["f", "b"], ["a", "a"], ["b", "a"]] {
            for arg in &args {
                let seconds: Vec<Term> = if extra.is_empty() { vec![] } else { vec![v("z"), v("t"), v("a"), g("Zero")] };
                let calls: Vec<Term> = if extra.is_empty() {
                    vec![call(index, "f", arg)]
                } else {
                    seconds.iter().map(|s| app(call(index, "f", arg), s.clone())).collect()
                };
                for call in calls {
                    let wrapped = [
                        call.clone(),
                        let_("q", used.clone(), arg.clone(), replace_arg(&call, arg, "q")),
                        app(lam("q", used.clone(), replace_arg(&call, arg, "q")), arg.clone()),
                        app(lam("t", used.clone(), mat(v("t"), motive(d, g("False")), cases(d, ["b", "a"], &call))), arg.clone()),
                        mat(arg.clone(), motive(d, g("False")), cases(d, ["b", "a"], &call)),
                        app(lam("g", pi("_", used.clone(), fnum.clone()), replace_head(&call)), v("f")),
                        // The name of a field bound again, to the whole value.
                        let_("a", used.clone(), v("t"), call.clone()),
                        let_("b", used.clone(), v("t"), call.clone()),
                        app(lam("a", used.clone(), call.clone()), v("t")),
                        app(lam("b", used.clone(), call.clone()), v("t")),
                    ];
                    for (w, body) in wrapped.into_iter().enumerate() {
                        if w > 0 && (names != ["a", "b"] || index) {
                            continue;
                        }
                        let body = extra.iter().rev().fold(body, |b, t| lam("z", t.clone(), b));
                        let m = mat(v("t"), motive(d, fnum.clone()), cases(d, names, &body));
                        let inner = if index { lam("i", nat(), lam("t", app(g("I"), v("i")), m)) } else { lam("t", used.clone(), m) };
                        for mutual in [false, true] {
                            let f = if mutual {
                                let other = rename_head(&inner, "f", "h");
                                let first = rename_head(&inner, "f", "h");
                                let second = rename_head(&other, "h", "f");
                                Term::MutualFix { defs: vec![("f".into(), first), ("h".into(), second)], index: 0 }
                            } else {
                                fix("f", inner.clone())
                            };
                            c.state(1);
                            c.trans(1);
                            if infer_type(ctx, &f).is_err() {
                                *tally.entry("recursions rejected".into()).or_default() += 1;
                                continue;
                            }
                            *tally.entry("recursions accepted".into()).or_default() += 1;
                            if let Some(x) = &inh {
                                let mut t = if index { apps(f.clone(), &[g("Zero"), x.clone()]) } else { app(f.clone(), x.clone()) };
                                for e in extra.iter() {
                                    t = app(t, if *e == nat() { g("Zero") } else { x.clone() });
                                }
                                c.trace(1);
                                if let Ok(ty) = infer_type(ctx, &t) {
                                    c.violation(&format!("recursion/{}/{k}/{f}", d.text()), &format!("{t}\n: {ty}"));
                                } else {
                                    *tally.entry("recursions without a use".into()).or_default() += 1;
                                }
                            }
                        }
                    }
                }
            }
        }
    }
}

/// Recursions that stop at one constructor and go on at the other: what is accepted has to stop.
fn stops(c: &Check, ctx: &Context, d: &Decl, tally: &mut HashMap<String, u64>) {
    if d.ctors.len() != 2 || d.shape == Shape::Index {
        return;
    }
    let used = d.used();
    let values = inhabitants(d);
    let mut args: Vec<Term> = vec![v("t"), v("a"), v("b"), v("z"), app(v("a"), g("Zero")), app(v("b"), g("Zero")), apps(v("a"), &[used.clone(), v("t")])];
    args.extend((0..2).filter(|k| d.ctors[*k].0.is_empty()).map(|k| if d.shape == Shape::Param { app(g(&format!("C{k}")), nat()) } else { g(&format!("C{k}")) }));
    for two in [false, true] {
        let extra: Vec<Term> = if two { vec![used.clone()] } else { vec![] };
        let result = extra.iter().rev().fold(g("True"), |b, t| pi("_", t.clone(), b));
        for arg in &args {
            for second in if two { &args[..] } else { &args[..1] } {
                let mut go = app(v("f"), arg.clone());
                if two {
                    go = app(go, second.clone());
                }
                for (stop, go) in (0..2).flat_map(|k| bound_again(d, &go).into_iter().map(move |g| (k, g))) {
                    let body = |b: Term| extra.iter().rev().fold(b, |b, t| lam("z", t.clone(), b));
                    let mut cs = cases(d, ["a", "b"], &body(go.clone()));
                    cs[stop] = cases(d, ["a", "b"], &body(g("I'")))[stop].clone();
                    let f = fix("f", lam("t", used.clone(), mat(v("t"), motive(d, result.clone()), cs)));
                    c.state(1);
                    c.trans(1);
                    if infer_type(ctx, &f).is_err() {
                        *tally.entry("recursions rejected".into()).or_default() += 1;
                        continue;
                    }
                    *tally.entry("recursions accepted".into()).or_default() += 1;
                    for x in &values {
                        for y in if two { &values[..] } else { &values[..1] } {
                            let mut t = app(f.clone(), x.clone());
                            if two {
                                t = app(t, y.clone());
                            }
                            c.trace(1);
                            match run_closed(d, &t, &mut 500) {
                                Some(r) if r == g("I'") => *tally.entry("recursions that stop".into()).or_default() += 1,
                                Some(r) => c.violation(&format!("stops/{}/{t}", d.text()), &format!("ends at {r}")),
                                None => c.violation(&format!("stops/{}/{t}", d.text()), "accepted, but does not end"),
                            }
                        }
                    }
                }
            }
        }
    }
}

/// A call as it is, and under binders that give the name of a field, of the argument or of the
/// function to the whole value or to something else.
fn bound_again(d: &Decl, go: &Term) -> Vec<Term> {
    let used = d.used();
    let mut out = vec![go.clone()];
    for name in ["a", "b", "t"] {
        for value in ["t", "a", "b"] {
            if name != value {
                out.push(let_(name, used.clone(), v(value), go.clone()));
                out.push(app(lam(name, used.clone(), go.clone()), v(value)));
            }
        }
    }
    for seen in ["t", "a", "b"] {
        out.push(mat(v(seen), motive(d, g("True")), cases(d, ["b", "a"], go)));
        out.push(mat(v(seen), motive(d, g("True")), cases(d, ["t", "a"], go)));
    }
    out
}

/// Evaluates a closed term to its head form, at most `fuel` steps.
fn run_closed(d: &Decl, t: &Term, fuel: &mut u32) -> Option<Term> {
    let mut head = t.clone();
    let mut stack: Vec<Term> = Vec::new();
    loop {
        if *fuel == 0 {
            return None;
        }
        match head {
            Term::App(f, a) => {
                stack.push(*a);
                head = *f;
            }
            Term::Lambda { param, body, .. } if !stack.is_empty() => {
                *fuel -= 1;
                head = put(&body, &param, &stack.pop().unwrap());
            }
            Term::Fix { ref name, ref body } => {
                *fuel -= 1;
                head = put(body, name, &head);
            }
            Term::Let { name, value, body, .. } => {
                *fuel -= 1;
                head = put(&body, &name, &value);
            }
            Term::Match { discriminant, cases, .. } => {
                let mut at = run_closed(d, &discriminant, fuel)?;
                let mut args = Vec::new();
                while let Term::App(f, a) = at {
                    args.push(*a);
                    at = *f;
                }
                if d.shape == Shape::Param {
                    args.pop();
                }
                let k = if at == g("C0") { 0 } else { 1 };
                stack.extend(args);
                head = cases[k].clone();
            }
            _ => break,
        }
    }
    Some(stack.into_iter().rev().fold(head, app))
}

/// Replaces a variable by a closed term.
fn put(t: &Term, x: &str, r: &Term) -> Term {
    match t {
        Term::Var(y) if y == x => r.clone(),
        Term::App(f, a) => app(put(f, x, r), put(a, x, r)),
        Term::Lambda { param, param_type, body } if param != x => lam(param, (**param_type).clone(), put(body, x, r)),
        Term::Fix { name, body } if name != x => fix(name, put(body, x, r)),
        Term::Let { name, ty, value, body } => let_(name, (**ty).clone(), put(value, x, r), if name == x { (**body).clone() } else { put(body, x, r) }),
        Term::Match { discriminant, motive, cases } => mat(put(discriminant, x, r), (**motive).clone(), cases.iter().map(|c| put(c, x, r)).collect()),
        _ => t.clone(),
    }
}

fn call(index: bool, f: &str, arg: &Term) -> Term {
    if index {
        apps(v(f), &[g("Zero"), arg.clone()])
    } else {
        app(v(f), arg.clone())
    }
}

fn replace_arg(t: &Term, arg: &Term, name: &str) -> Term {
    if t == arg {
        return v(name);
    }
    match t {
        Term::App(f, a) => app(replace_arg(f, arg, name), if **a == *arg { v(name) } else { (**a).clone() }),
        _ => t.clone(),
    }
}

fn replace_head(t: &Term) -> Term {
    match t {
        Term::App(f, a) => app(replace_head(f), (**a).clone()),
        Term::Var(_) => v("g"),
        _ => t.clone(),
    }
}

fn rename_head(t: &Term, from: &str, to: &str) -> Term {
    match t {
        Term::Var(x) if x == from => v(to),
        Term::App(f, a) => app(rename_head(f, from, to), rename_head(a, from, to)),
        Term::Lambda { param, param_type, body } => lam(param, (**param_type).clone(), if param == from { (**body).clone() } else { rename_head(body, from, to) }),
        Term::Match { discriminant, motive, cases } => mat((**discriminant).clone(), (**motive).clone(), cases.iter().map(|c| rename_head(c, from, to)).collect()),
        Term::Let { name, ty, value, body } => let_(name, (**ty).clone(), (**value).clone(), rename_head(body, from, to)),
        _ => t.clone(),
    }
}

/// Universe levels against all small valuations of their variables.
fn levels(c: &Check) {
    let base = vec![Universe::Prop, Universe::Type(0), Universe::Type(1), Universe::Var("u".into()), Universe::Var("v".into())];
    let mut all = base.clone();
    for round in 0..2 {
        let cur = if round == 0 { all.clone() } else { all.iter().take(30).cloned().collect() };
        let mut next = Vec::new();
        for a in &cur {
            next.push(Universe::Succ(Box::new(a.clone())));
            for b in &cur {
                next.push(Universe::Max(Box::new(a.clone()), Box::new(b.clone())));
                next.push(Universe::IMax(Box::new(a.clone()), Box::new(b.clone())));
            }
        }
        for n in next {
            if !all.contains(&n) {
                all.push(n);
            }
        }
    }
    fn value(u: &Universe, e: &[u32; 2]) -> Option<u32> {
        Some(match u {
            Universe::SProp => return None,
            Universe::Prop => 0,
            Universe::Type(n) => n + 1,
            Universe::Var(x) => e[(x == "v") as usize],
            Universe::Succ(a) => value(a, e)? + 1,
            Universe::Max(a, b) => value(a, e)?.max(value(b, e)?),
            Universe::IMax(a, b) => {
                let b = value(b, e)?;
                if b == 0 {
                    0
                } else {
                    value(a, e)?.max(b)
                }
            }
        })
    }
    let envs: Vec<[u32; 2]> = (0..5).flat_map(|a| (0..5).map(move |b| [a, b])).collect();
    let _ = &envs;
    c.note("levels", all.len() as u64);
    par_each(&all, |a| {
        let va: Vec<Option<u32>> = envs.iter().map(|e| value(a, e)).collect();
        let (mut yes, mut no, mut missed) = (0, 0, 0);
        for b in &all {
            c.trans(1);
            let le = envs.iter().zip(&va).all(|(e, x)| *x <= value(b, e));
            if a.is_subtype_of(b) {
                yes += 1;
                if !le {
                    c.violation(&format!("levels/{a:?} <= {b:?}"), "accepted, but not so for all values of the variables");
                }
            } else {
                no += 1;
                missed += le as u64;
            }
        }
        c.state(1);
        c.outcome_n("levels: ordered", yes);
        c.outcome_n("levels: not ordered", no);
        c.outcome_n("levels: ordered but not recognised", missed);
    });
}

pub fn run() {
    let c = Check::new("P15", "model_checking");
    c.rule("states are terms, declarations and levels given to the checker; traces are accepted terms evaluated and checked again, or recursions applied to a value");
    names(&c);
    levels(&c);
    declarations(&c);
    c.finish()
}
