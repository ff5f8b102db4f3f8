//! A small abstract syntax of the language, its printer to source text, and a
//! reference evaluator written independently of the code under test.
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Add, Sub, Mul, Div, Mod, And, Or, Xor, Shl, Shr,
    Lt, Le, Gt, Ge, Eq, Ne, LAnd, LOr,
}
pub const ARITH: &[Op] = &[Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Mod];
pub const BITS: &[Op] = &[Op::And, Op::Or, Op::Xor, Op::Shl, Op::Shr];
pub const CMP: &[Op] = &[Op::Lt, Op::Le, Op::Gt, Op::Ge, Op::Eq, Op::Ne];

impl Op {
    pub fn text(self) -> &'static str {
        match self {
            Op::Add => "+", Op::Sub => "-", Op::Mul => "*", Op::Div => "/", Op::Mod => "%",
            Op::And => "&", Op::Or => "|", Op::Xor => "^",
            Op::Shl => "shifted left by", Op::Shr => "shifted right by",
            Op::Lt => "<", Op::Le => "<=", Op::Gt => ">", Op::Ge => ">=", Op::Eq => "==", Op::Ne => "!=",
            Op::LAnd => "and", Op::LOr => "or",
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum E {
    I(i64),
    F(f64),
    B(bool),
    T(String),
    V(String),
    Bin(Op, Box<E>, Box<E>),
    Not(Box<E>),
    Len(Box<E>),
    /// `item index of collection`
    Item(Box<E>, Box<E>),
    Slice(Box<E>, Box<E>, Box<E>),
    Has(Box<E>, Box<E>),
    Call(String, Vec<E>),
    List(Vec<E>),
    NewSeq,
    NewMap,
    NewSet,
    /// Record construction `a new R with f e ...`
    New(String, Vec<(String, E)>),
    Field(Box<E>, String),
    CopyOf(Box<E>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum S {
    Let(String, E),
    LetMut(String, E),
    Set(String, E),
    SetItem(String, E, E),
    SetField(String, String, E),
    Push(E, String),
    Pop(String, Option<String>),
    AddTo(E, String),
    RemoveFrom(E, String),
    If(E, Vec<S>, Vec<S>),
    While(E, Vec<S>),
    For(String, E, E, Vec<S>),
    Each(String, E, Vec<S>),
    Break,
    Return(Option<E>),
    Show(E),
    CallS(String, Vec<E>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Fun {
    pub name: String,
    pub params: Vec<(String, String)>,
    pub ret: Option<String>,
    pub body: Vec<S>,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Prog {
    /// Text placed first: record and variant declarations.
    pub decls: String,
    pub funs: Vec<Fun>,
    pub main: Vec<S>,
}

pub fn i(n: i64) -> E { E::I(n) }
pub fn v(n: &str) -> E { E::V(n.into()) }
pub fn bin(o: Op, a: E, b: E) -> E { E::Bin(o, Box::new(a), Box::new(b)) }
pub fn item(ix: E, c: E) -> E { E::Item(Box::new(ix), Box::new(c)) }
pub fn len(c: E) -> E { E::Len(Box::new(c)) }
pub fn set(n: &str, e: E) -> S { S::Set(n.into(), e) }
pub fn letm(n: &str, e: E) -> S { S::LetMut(n.into(), e) }
pub fn call(f: &str, a: Vec<E>) -> E { E::Call(f.into(), a) }
pub fn show(e: E) -> S { S::Show(e) }

impl E {
    pub fn print(&self, top: bool) -> String {
        match self {
            E::I(n) if *n >= 0 => n.to_string(),
            E::I(i64::MIN) => "(0 - 9223372036854775807 - 1)".into(),
            E::I(n) => format!("(0 - {})", n.unsigned_abs()),
            E::F(f) => {
                let s = format!("{:?}", f.abs());
                if f.is_sign_negative() { format!("(0.0 - {s})") } else { s }
            }
            E::B(b) => b.to_string(),
            E::T(t) => format!("{t:?}"),
            E::V(n) => n.clone(),
            E::Bin(o, a, b) => {
                let s = format!("{} {} {}", a.print(false), o.text(), b.print(false));
                if top { s } else { format!("({s})") }
            }
            E::Not(a) => format!("(not {})", a.print(false)),
            E::Len(a) => format!("(length of {})", a.print(false)),
            E::Item(ix, c) => format!("(item {} of {})", ix.print(false), c.print(false)),
            E::Slice(a, b, c) => format!("(items {} through {} of {})", a.print(false), b.print(false), c.print(false)),
            E::Has(c, x) => format!("({} contains {})", c.print(false), x.print(false)),
            E::Call(f, a) => format!("{f}({})", a.iter().map(|x| x.print(true)).collect::<Vec<_>>().join(", ")),
            E::List(a) => format!("[{}]", a.iter().map(|x| x.print(true)).collect::<Vec<_>>().join(", ")),
            E::NewSeq => "a new Seq of Int".into(),
            E::NewMap => "a new Map of Int to Int".into(),
            E::NewSet => "a new Set of Int".into(),
            E::New(r, fs) => {
                let f = fs.iter().map(|(n, e)| format!("{n} {}", e.print(false))).collect::<Vec<_>>().join(" and ");
                format!("a new {r} with {f}")
            }
            E::Field(e, f) => format!("{}'s {f}", e.print(false)),
            E::CopyOf(e) => format!("copy of {}", e.print(false)),
        }
    }
}

fn block(b: &[S], d: usize, out: &mut String) {
    for s in b {
        s.print(d, out);
    }
}

impl S {
    pub fn print(&self, d: usize, out: &mut String) {
        let pad = "    ".repeat(d);
        let line = match self {
            S::Let(n, e) => format!("Let {n} be {}.", e.print(true)),
            S::LetMut(n, e) => format!("Let mutable {n} be {}.", e.print(true)),
            S::Set(n, e) => format!("Set {n} to {}.", e.print(true)),
            S::SetItem(c, ix, e) => format!("Set item {} of {c} to {}.", ix.print(false), e.print(true)),
            S::SetField(c, f, e) => format!("Set {c}'s {f} to {}.", e.print(true)),
            S::Push(e, c) => format!("Push {} to {c}.", e.print(false)),
            S::Pop(c, None) => format!("Pop from {c}."),
            S::Pop(c, Some(n)) => format!("Pop from {c} into {n}."),
            S::AddTo(e, c) => format!("Add {} to {c}.", e.print(false)),
            S::RemoveFrom(e, c) => format!("Remove {} from {c}.", e.print(false)),
            S::If(c, a, b) => {
                out.push_str(&format!("{pad}If {}:\n", c.print(true)));
                block(a, d + 1, out);
                if !b.is_empty() {
                    out.push_str(&format!("{pad}Otherwise:\n"));
                    block(b, d + 1, out);
                }
                return;
            }
            S::While(c, b) => {
                out.push_str(&format!("{pad}While {}:\n", c.print(true)));
                return block(b, d + 1, out);
            }
            S::For(n, a, z, b) => {
                out.push_str(&format!("{pad}Repeat for {n} from {} to {}:\n", a.print(false), z.print(false)));
                return block(b, d + 1, out);
            }
            S::Each(n, c, b) => {
                out.push_str(&format!("{pad}Repeat for {n} in {}:\n", c.print(false)));
                return block(b, d + 1, out);
            }
            S::Break => "Break.".into(),
            S::Return(None) => "Return.".into(),
            S::Return(Some(e)) => format!("Return {}.", e.print(true)),
            S::Show(e) => format!("Show {}.", e.print(true)),
            S::CallS(f, a) => format!("{f}({}).", a.iter().map(|x| x.print(true)).collect::<Vec<_>>().join(", ")),
        };
        out.push_str(&pad);
        out.push_str(&line);
        out.push('\n');
    }
}

impl Prog {
    pub fn print(&self) -> String {
        let mut o = self.decls.clone();
        for f in &self.funs {
            let ps = f.params.iter().map(|(n, t)| format!("{n}: {t}")).collect::<Vec<_>>().join(", ");
            let r = f.ret.as_ref().map(|r| format!(" -> {r}")).unwrap_or_default();
            o.push_str(&format!("## To {} ({ps}){r}:\n", f.name));
            block(&f.body, 1, &mut o);
            o.push('\n');
        }
        o.push_str("## Main\n");
        block(&self.main, 0, &mut o);
        o
    }
}

// ---------------------------------------------------------------- reference

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    I(i128),
    F(f64),
    B(bool),
    T(String),
    Seq(Vec<Val>),
    /// Insertion-ordered.
    Map(Vec<(Val, Val)>),
    Set(Vec<Val>),
    Rec(String, BTreeMap<String, Val>),
    Nothing,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Stop {
    /// The program must stop with an error here.
    Error(String),
    /// Outside what the reference describes (numbers beyond its range, …).
    NoOpinion,
    Break,
    Return(Val),
}

pub struct Ref<'p> {
    prog: &'p Prog,
    pub out: Vec<String>,
    fuel: u64,
    depth: u32,
}

type R<T> = Result<T, Stop>;

fn err<T>(s: &str) -> R<T> { Err(Stop::Error(s.into())) }

const LIM: i128 = 1 << 120;

fn int(x: Option<i128>) -> R<Val> {
    match x {
        Some(x) if x.abs() < LIM => Ok(Val::I(x)),
        _ => Err(Stop::NoOpinion),
    }
}

fn small(x: i128) -> R<i64> {
    i64::try_from(x).map_err(|_| Stop::NoOpinion)
}

pub fn truthy(v: &Val) -> R<bool> {
    Ok(match v {
        Val::B(b) => *b,
        Val::I(n) => *n != 0,
        Val::F(f) => *f != 0.0,
        Val::T(t) => !t.is_empty(),
        Val::Seq(s) => !s.is_empty(),
        Val::Map(s) => !s.is_empty(),
        Val::Set(s) => !s.is_empty(),
        Val::Nothing => false,
        _ => return Err(Stop::NoOpinion),
    })
}

pub fn display(v: &Val) -> R<String> {
    Ok(match v {
        Val::I(n) => n.to_string(),
        Val::B(b) => b.to_string(),
        Val::T(t) => t.clone(),
        Val::F(f) => {
            // Whole numbers keep one decimal below the switch to the exponent form.
            if f.is_finite() && f.abs() < 1e15 {
                format!("{f:?}").strip_suffix(".0").map(|s| s.to_string()).unwrap_or(format!("{f}"))
            } else {
                return Err(Stop::NoOpinion);
            }
        }
        Val::Seq(s) => format!("[{}]", s.iter().map(display).collect::<R<Vec<_>>>()?.join(", ")),
        Val::Map(m) => {
            let mut parts = vec![];
            for (k, x) in m {
                parts.push(format!("{}: {}", display(k)?, display(x)?));
            }
            format!("{{{}}}", parts.join(", "))
        }
        Val::Set(s) => format!("{{{}}}", s.iter().map(display).collect::<R<Vec<_>>>()?.join(", ")),
        _ => return Err(Stop::NoOpinion),
    })
}

fn same(a: &Val, b: &Val) -> R<bool> {
    Ok(match (a, b) {
        (Val::I(x), Val::I(y)) => x == y,
        (Val::F(x), Val::F(y)) => x == y,
        (Val::B(x), Val::B(y)) => x == y,
        (Val::T(x), Val::T(y)) => x == y,
        (Val::Seq(x), Val::Seq(y)) => {
            if x.len() != y.len() {
                return Ok(false);
            }
            for (p, q) in x.iter().zip(y) {
                if !same(p, q)? {
                    return Ok(false);
                }
            }
            true
        }
        _ => return Err(Stop::NoOpinion),
    })
}

pub fn apply(o: Op, a: &Val, b: &Val) -> R<Val> {
    use Op::*;
    match (o, a, b) {
        (Eq, _, _) => return Ok(Val::B(same(a, b)?)),
        (Ne, _, _) => return Ok(Val::B(!same(a, b)?)),
        _ => {}
    }
    match (a, b) {
        (Val::I(x), Val::I(y)) => {
            let (x, y) = (*x, *y);
            match o {
                Add => int(x.checked_add(y)),
                Sub => int(x.checked_sub(y)),
                Mul => int(x.checked_mul(y)),
                Div if y == 0 => err("Division by zero"),
                Mod if y == 0 => err("Modulo by zero"),
                Div => int(x.checked_div(y)),
                Mod => int(x.checked_rem(y)),
                And => Ok(Val::I((small(x)? & small(y)?) as i128)),
                Or => Ok(Val::I((small(x)? | small(y)?) as i128)),
                Xor => Ok(Val::I((small(x)? ^ small(y)?) as i128)),
                Shl => Ok(Val::I(small(x)?.wrapping_shl(small(y)? as u32) as i128)),
                Shr => Ok(Val::I(small(x)?.wrapping_shr(small(y)? as u32) as i128)),
                Lt => Ok(Val::B(x < y)),
                Le => Ok(Val::B(x <= y)),
                Gt => Ok(Val::B(x > y)),
                Ge => Ok(Val::B(x >= y)),
                _ => Err(Stop::NoOpinion),
            }
        }
        (Val::F(x), Val::F(y)) => match o {
            Add => Ok(Val::F(x + y)),
            Sub => Ok(Val::F(x - y)),
            Mul => Ok(Val::F(x * y)),
            Div if *y != 0.0 => Ok(Val::F(x / y)),
            Lt => Ok(Val::B(x < y)),
            Le => Ok(Val::B(x <= y)),
            Gt => Ok(Val::B(x > y)),
            Ge => Ok(Val::B(x >= y)),
            _ => Err(Stop::NoOpinion),
        },
        (Val::I(x), Val::F(_)) if x.abs() < 1 << 53 => apply(o, &Val::F(*x as f64), b),
        (Val::F(_), Val::I(y)) if y.abs() < 1 << 53 => apply(o, a, &Val::F(*y as f64)),
        (Val::T(x), Val::T(y)) if o == Add => Ok(Val::T(format!("{x}{y}"))),
        _ => Err(Stop::NoOpinion),
    }
}

impl<'p> Ref<'p> {
    /// Output lines and the error, if any; `None` when the reference has no opinion.
    pub fn run(prog: &'p Prog) -> (Vec<String>, Option<Option<String>>) {
        let mut r = Ref { prog, out: vec![], fuel: 2_000_000, depth: 0 };
        let mut env = vec![vec![]];
        let res = r.block(&prog.main, &mut env);
        let e = match res {
            Ok(()) => Some(None),
            Err(Stop::Error(e)) => Some(Some(e)),
            Err(Stop::Return(_)) => Some(None),
            Err(_) => None,
        };
        (r.out, e)
    }

    fn get<'a>(&self, env: &'a [Vec<(String, Val)>], n: &str) -> R<&'a Val> {
        for sc in env.iter().rev() {
            for (k, x) in sc.iter().rev() {
                if k == n {
                    return Ok(x);
                }
            }
        }
        Err(Stop::NoOpinion)
    }
    fn slot<'a>(&self, env: &'a mut [Vec<(String, Val)>], n: &str) -> R<&'a mut Val> {
        for sc in env.iter_mut().rev() {
            for (k, x) in sc.iter_mut().rev() {
                if k == n {
                    return Ok(x);
                }
            }
        }
        Err(Stop::NoOpinion)
    }

    fn index(&self, ix: &Val, n: usize) -> R<usize> {
        match ix {
            Val::I(k) if *k >= 1 && *k <= n as i128 => Ok(*k as usize - 1),
            Val::I(k) => err(&format!("Index {k} out of bounds")),
            _ => Err(Stop::NoOpinion),
        }
    }

    fn expr(&mut self, e: &E, env: &mut Vec<Vec<(String, Val)>>) -> R<Val> {
        if self.fuel == 0 {
            return Err(Stop::NoOpinion);
        }
        self.fuel -= 1;
        Ok(match e {
            E::I(n) => Val::I(*n as i128),
            E::F(f) => Val::F(*f),
            E::B(b) => Val::B(*b),
            E::T(t) => Val::T(t.clone()),
            E::V(n) => self.get(env, n)?.clone(),
            E::Bin(Op::LAnd, a, b) => {
                let x = self.expr(a, env)?;
                if !truthy(&x)? { Val::B(false) } else { let y = self.expr(b, env)?; Val::B(truthy(&y)?) }
            }
            E::Bin(Op::LOr, a, b) => {
                let x = self.expr(a, env)?;
                if truthy(&x)? { Val::B(true) } else { let y = self.expr(b, env)?; Val::B(truthy(&y)?) }
            }
            E::Bin(o, a, b) => {
                let x = self.expr(a, env)?;
                let y = self.expr(b, env)?;
                apply(*o, &x, &y)?
            }
            E::Not(a) => { let x = self.expr(a, env)?; Val::B(!truthy(&x)?) }
            E::Len(a) => match self.expr(a, env)? {
                Val::Seq(s) | Val::Set(s) => Val::I(s.len() as i128),
                Val::Map(s) => Val::I(s.len() as i128),
                Val::T(t) => Val::I(t.len() as i128),
                _ => return Err(Stop::NoOpinion),
            },
            E::Item(ix, c) => {
                let c = self.expr(c, env)?;
                let ix = self.expr(ix, env)?;
                match c {
                    Val::Seq(s) => { let k = self.index(&ix, s.len())?; s[k].clone() }
                    Val::Map(m) => {
                        for (k, x) in &m {
                            if same(k, &ix)? {
                                return Ok(x.clone());
                            }
                        }
                        return err("Key not found in map");
                    }
                    _ => return Err(Stop::NoOpinion),
                }
            }
            E::Slice(..) => return Err(Stop::NoOpinion),
            E::Has(c, x) => {
                let c = self.expr(c, env)?;
                let x = self.expr(x, env)?;
                match c {
                    Val::Seq(s) | Val::Set(s) => {
                        let mut f = false;
                        for y in &s { f |= same(y, &x)?; }
                        Val::B(f)
                    }
                    Val::Map(m) => {
                        let mut f = false;
                        for (y, _) in &m { f |= same(y, &x)?; }
                        Val::B(f)
                    }
                    _ => return Err(Stop::NoOpinion),
                }
            }
            E::Call(f, args) => {
                let mut a = vec![];
                for x in args { a.push(self.expr(x, env)?); }
                self.call(f, a)?
            }
            E::List(a) => {
                let mut r = vec![];
                for x in a { r.push(self.expr(x, env)?); }
                Val::Seq(r)
            }
            E::NewSeq => Val::Seq(vec![]),
            E::NewMap => Val::Map(vec![]),
            E::NewSet => Val::Set(vec![]),
            E::New(r, fs) => {
                let mut m = BTreeMap::new();
                for (n, e) in fs { let x = self.expr(e, env)?; m.insert(n.clone(), x); }
                Val::Rec(r.clone(), m)
            }
            E::Field(e, f) => match self.expr(e, env)? {
                Val::Rec(_, m) => m.get(f).cloned().ok_or(Stop::NoOpinion)?,
                _ => return Err(Stop::NoOpinion),
            },
            E::CopyOf(e) => self.expr(e, env)?,
        })
    }

    fn call(&mut self, f: &str, args: Vec<Val>) -> R<Val> {
        let p = self.prog;
        let fun = p.funs.iter().find(|x| x.name == f).ok_or(Stop::NoOpinion)?;
        if self.depth > 200 {
            return Err(Stop::NoOpinion);
        }
        self.depth += 1;
        let sc = fun.params.iter().map(|(n, _)| n.clone()).zip(args).collect::<Vec<_>>();
        let mut env = vec![sc];
        let r = self.block(&fun.body, &mut env);
        self.depth -= 1;
        match r {
            Ok(()) => Ok(Val::Nothing),
            Err(Stop::Return(x)) => Ok(x),
            Err(e) => Err(e),
        }
    }

    fn block(&mut self, b: &[S], env: &mut Vec<Vec<(String, Val)>>) -> R<()> {
        env.push(vec![]);
        let r = self.stmts(b, env);
        env.pop();
        r
    }

    fn stmts(&mut self, b: &[S], env: &mut Vec<Vec<(String, Val)>>) -> R<()> {
        for s in b {
            self.stmt(s, env)?;
        }
        Ok(())
    }

    fn stmt(&mut self, s: &S, env: &mut Vec<Vec<(String, Val)>>) -> R<()> {
        if self.fuel == 0 {
            return Err(Stop::NoOpinion);
        }
        self.fuel -= 1;
        match s {
            S::Let(n, e) | S::LetMut(n, e) => {
                let x = self.expr(e, env)?;
                env.last_mut().unwrap().push((n.clone(), x));
            }
            S::Set(n, e) => {
                let x = self.expr(e, env)?;
                *self.slot(env, n)? = x;
            }
            S::SetItem(c, ix, e) => {
                let ixv = self.expr(ix, env)?;
                let x = self.expr(e, env)?;
                let n = match self.get(env, c)? { Val::Seq(s) => Some(s.len()), Val::Map(_) => None, _ => return Err(Stop::NoOpinion) };
                if let Some(n) = n {
                    let k = self.index(&ixv, n)?;
                    if let Val::Seq(s) = self.slot(env, c)? { s[k] = x; }
                } else if let Val::Map(m) = self.slot(env, c)? {
                    for (k, y) in m.iter_mut() {
                        if same(k, &ixv)? { *y = x; return Ok(()); }
                    }
                    m.push((ixv, x));
                }
            }
            S::SetField(c, f, e) => {
                let x = self.expr(e, env)?;
                match self.slot(env, c)? { Val::Rec(_, m) => { m.insert(f.clone(), x); } _ => return Err(Stop::NoOpinion) }
            }
            S::Push(e, c) => {
                let x = self.expr(e, env)?;
                match self.slot(env, c)? { Val::Seq(s) => s.push(x), _ => return Err(Stop::NoOpinion) }
            }
            S::Pop(c, into) => {
                let x = match self.slot(env, c)? { Val::Seq(s) => s.pop(), _ => return Err(Stop::NoOpinion) };
                let Some(x) = x else { return Err(Stop::NoOpinion) };
                if let Some(n) = into { env.last_mut().unwrap().push((n.clone(), x)); }
            }
            S::AddTo(e, c) => {
                let x = self.expr(e, env)?;
                match self.slot(env, c)? {
                    Val::Set(s) => { for y in s.iter() { if same(y, &x)? { return Ok(()); } } s.push(x) }
                    _ => return Err(Stop::NoOpinion),
                }
            }
            S::RemoveFrom(e, c) => {
                let x = self.expr(e, env)?;
                match self.slot(env, c)? {
                    Val::Set(s) => { let mut k = None; for (j, y) in s.iter().enumerate() { if same(y, &x)? { k = Some(j); } } if let Some(k) = k { s.remove(k); } }
                    _ => return Err(Stop::NoOpinion),
                }
            }
            S::If(c, a, b) => {
                let x = self.expr(c, env)?;
                if truthy(&x)? { self.block(a, env)? } else { self.block(b, env)? }
            }
            S::While(c, b) => loop {
                let x = self.expr(c, env)?;
                if !truthy(&x)? { break; }
                match self.block(b, env) { Err(Stop::Break) => break, r => r? }
            },
            S::For(n, a, z, b) => {
                let (Val::I(a), Val::I(z)) = (self.expr(a, env)?, self.expr(z, env)?) else { return Err(Stop::NoOpinion) };
                let mut k = a;
                while k <= z {
                    env.push(vec![(n.clone(), Val::I(k))]);
                    let r = self.block(b, env);
                    env.pop();
                    match r { Err(Stop::Break) => break, r => r? }
                    k += 1;
                }
            }
            S::Each(n, c, b) => {
                let xs = match self.expr(c, env)? { Val::Seq(s) => s, _ => return Err(Stop::NoOpinion) };
                for x in xs {
                    env.push(vec![(n.clone(), x)]);
                    let r = self.block(b, env);
                    env.pop();
                    match r { Err(Stop::Break) => break, r => r? }
                }
            }
            S::Break => return Err(Stop::Break),
            S::Return(e) => {
                let x = match e { Some(e) => self.expr(e, env)?, None => Val::Nothing };
                return Err(Stop::Return(x));
            }
            S::Show(e) => {
                let x = self.expr(e, env)?;
                let t = display(&x)?;
                self.out.push(t);
            }
            S::CallS(f, args) => {
                let mut a = vec![];
                for x in args { a.push(self.expr(x, env)?); }
                self.call(f, a)?;
            }
        }
        Ok(())
    }
}
