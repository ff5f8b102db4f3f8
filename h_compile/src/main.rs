mod engines;
mod gen;
mod lang;
mod shapes;
mod worlds;
use engines::Engine;
use gen::Case;
use mc::Check;
use std::time::Duration;
use worlds::TextCase;

fn norm(s: &str) -> Vec<String> {
    s.lines().map(|l| l.trim_end().to_string()).filter(|l| !l.is_empty()).collect()
}

/// Runs one program on the engines and compares. Result: lines, `V key\tdetail` for a
/// difference, `O name` for an outcome class.
fn run_case(c: &Case, engines: &[Engine]) -> String {
    let src = c.prog.print();
    let (rout, rerr) = lang::Ref::run(&c.prog);
    let mut res: Vec<(String, Vec<String>, Option<String>)> = vec![];
    match &rerr {
        Some(e) => res.push(("reference".into(), rout.clone(), e.clone())),
        None => {}
    }
    for e in engines {
        let (o, er) = match mc::guard(|| engines::run(*e, &src)) {
            Ok(x) => x,
            Err(p) => (String::new(), Some(format!("PANIC {p}"))),
        };
        res.push((format!("{e:?}"), norm(&o), er));
    }
    let mut out = String::new();
    let first = &res[0];
    for r in &res[1..] {
        let same_err = if first.0 == "reference" { first.2.is_some() == r.2.is_some() } else { first.2 == r.2 };
        let panic = r.2.as_deref().is_some_and(|e| e.starts_with("PANIC"));
        if r.1 != first.1 || !same_err || panic {
            let at = r.1.iter().zip(&first.1).position(|(x, y)| x != y).unwrap_or(r.1.len().min(first.1.len()));
            out.push_str(&format!(
                "V\t{}/{}\t{} differs from {} at output line {at}: {:?} vs {:?}; errors {:?} vs {:?}\n",
                c.key, r.0, r.0, first.0, r.1.get(at), first.1.get(at), r.2, first.2
            ));
        }
    }
    if let Some(f) = res.get(1) {
        // Engines must agree on the text of the error too.
        for r in &res[2..] {
            if first.0 == "reference" && f.2 != r.2 && f.2.is_some() == r.2.is_some() {
                out.push_str(&format!("V\t{}/{}/errortext\t{} reports {:?}, {} reports {:?}\n", c.key, r.0, r.0, r.2, f.0, f.2));
            }
        }
    }
    out.push_str(match &rerr { Some(None) => "O\treference: completes\n", Some(Some(_)) => "O\treference: stops with an error\n", None => "O\treference: no opinion\n" });
    out
}

/// One enumerated program, with the reference evaluator's opinion if it has one.
struct Item {
    key: String,
    src: String,
    expect: Option<(Vec<String>, bool)>,
}
impl From<TextCase> for Item {
    fn from(c: TextCase) -> Item {
        Item { key: c.key, src: c.src, expect: None }
    }
}
fn refd(cs: Vec<Case>) -> impl Iterator<Item = Item> {
    cs.into_iter().map(|c| {
        let (out, err) = lang::Ref::run(&c.prog);
        Item { key: c.key, src: c.prog.print(), expect: err.map(|e| (out, e.is_some())) }
    })
}

type Outcome = (Vec<String>, Option<String>);

/// Runs every program on every engine in worker processes and compares what is observed:
/// output lines and the error, if the program stops with one.
fn compare(c: &Check, family: &str, items: &[Item], engines: &[Engine]) {
    let mut crashed = 0;
    mc::isolated(
        items.len(),
        Duration::from_secs(120),
        &|k| {
            let it = &items[k];
            let mut groups: Vec<(Outcome, Vec<String>)> = vec![];
            for e in engines {
                let r = match mc::guard(|| engines::run(*e, &it.src)) {
                    Ok((o, e)) => (norm(&o), e),
                    Err(p) => (vec![], Some(format!("PANIC {p}"))),
                };
                match groups.iter_mut().find(|g| g.0 == r) {
                    Some(g) => g.1.push(format!("{e:?}")),
                    None => groups.push((r, vec![format!("{e:?}")])),
                }
            }
            let mut s = format!("R\t{}\n", engines.len());
            let mut bad = groups.len() > 1 || groups.iter().any(|g| g.0 .1.as_deref().is_some_and(|e| e.starts_with("PANIC")));
            if let Some((out, err)) = &it.expect {
                bad |= groups.iter().any(|g| g.0 .0 != *out || g.0 .1.is_some() != *err);
            }
            if bad {
                let mut d = String::new();
                if let Some((out, err)) = &it.expect {
                    d.push_str(&format!("expected: {out:?} {}\n", if *err { "then an error" } else { "and no error" }));
                }
                for (o, es) in &groups {
                    d.push_str(&format!("{}: {:?} error {:?}\n", es.join(" "), o.0, o.1));
                }
                s.push_str(&format!("V\t{}\n", d.replace('\\', "\\\\").replace('\n', "\\n")));
            }
            if shapes::SHAPES.iter().any(|s| s.name == family) {
                // Which rewrites the program exercises.
                for k in mc::guard(|| logicaffeine_compile::compile::optimizations_fired_vm(&it.src)).unwrap_or_default() {
                    s.push_str(&format!("F\t{k}\n"));
                }
            }
            let o = &groups[0].0;
            s.push_str(&format!("O\t{}\n", match &o.1 { None => "completes".to_string(), Some(e) => format!("stops: {}", class(e)) }));
            s.push_str(&format!("H\t{}\n", mc::hash64(o)));
            s
        },
        &mut |k, r| {
            let it = &items[k];
            c.state(1);
            match r {
                Err(e) => {
                    crashed += 1;
                    c.violation(&it.key, &format!("an engine does not survive the program: {e}\n\n{}", it.src));
                }
                Ok(s) => {
                    for l in s.lines() {
                        match l.split_once('\t') {
                            Some(("R", n)) => c.trans(n.parse().unwrap()),
                            Some(("V", d)) => c.violation(&it.key, &format!("{}\n{}", d.replace("\\n", "\n").replace("\\\\", "\\"), it.src)),
                            Some(("F", k)) => c.outcome(&format!("rewrite exercised: {k}")),
                            Some(("O", o)) => c.outcome(&format!("{family}: {o}")),
                            Some(("H", h)) => c.nontrivial(&h.parse::<u64>().unwrap()),
                            _ => {}
                        }
                    }
                    let others = engines.len() as u64 - 1 + it.expect.is_some() as u64;
                    c.trace(others);
                }
            }
            if k == items.len() / 2 {
                c.sample(mc::json!({"family": family, "key": it.key, "program": it.src}));
            }
        },
    );
    c.note(&format!("programs in {family}"), items.len());
}

fn class(e: &str) -> String {
    let e = e.lines().next().unwrap_or("");
    e.chars().filter(|c| !c.is_ascii_digit()).take(40).collect()
}

fn items(cs: Vec<TextCase>) -> Vec<Item> {
    cs.into_iter().map(Item::from).collect()
}

fn worlds_at(lens: &[usize], ctxs: &[usize], ns: &[i64]) -> Vec<Item> {
    worlds::WORLDS.iter().flat_map(|w| worlds::cases(w, lens, ctxs, ns)).map(Item::from).collect()
}

/// Both interpreters against each other and, for the core language, the reference evaluator.
fn p07() -> ! {
    let c = Check::new("P07", "model_checking");
    let e = &[Engine::Tree, Engine::Vm];
    compare(&c, "operators on boundary values", &refd(gen::values()).collect::<Vec<_>>(), e);
    let all: Vec<usize> = (0..gen::CONTEXTS).collect();
    compare(&c, "core statements", &refd(gen::bodies(1, &all, &[0, 1, 2, 3, 5])).collect::<Vec<_>>(), e);
    compare(&c, "core statements in pairs", &refd(gen::bodies(2, &all, &[3])).collect::<Vec<_>>(), e);
    compare(&c, "data worlds", &worlds_at(&[1, 2], &[0, 1, 2, 3], &[3]), e);
    compare(&c, "reads around writes", &worlds::moves(&[0, 1], &[3], false).into_iter().map(Item::from).collect::<Vec<_>>(), e);
    compare(&c, "names bound twice", &items(shapes::rebound()), e);
    compare(&c, "collections under two names", &items(shapes::shared()), e);
    let apart = shapes::values_apart().into_iter().map(|(t, out)| Item { key: t.key, src: t.src, expect: Some((out, false)) });
    compare(&c, "values apart", &apart.collect::<Vec<_>>(), e);
    if mc::tier() == mc::Tier::Thorough {
        compare(&c, "data worlds, three statements", &worlds_at(&[3], &[0], &[3]), e);
    }
    c.finish()
}

/// Every optimiser level against no optimisation.
fn p08() -> ! {
    let c = Check::new("P08", "model_checking");
    let e = &[Engine::T0, Engine::T1, Engine::T2, Engine::T3];
    let moves = |f: bool| items(worlds::moves(mc::pick(&[0, 1, 3], &[0, 1, 2, 3]), &[3], f));
    compare(&c, "reads around writes", &moves(false), e);
    for s in shapes::SHAPES {
        compare(&c, s.name, &shapes::cases(s).into_iter().map(Item::from).collect::<Vec<_>>(), &[Engine::Tree, Engine::T1, Engine::T2, Engine::T3]);
    }
    let e3 = &[Engine::Tree, Engine::T1, Engine::T2, Engine::T3];
    compare(&c, "names bound twice", &items(shapes::rebound()), e3);
    compare(&c, "expressions", &refd(gen::exprs()).collect::<Vec<_>>(), e);
    compare(&c, "data worlds", &worlds_at(&[1, 2], mc::pick(&[3], &[0, 1, 2, 3]), &[3]), e);
    let all: Vec<usize> = (0..gen::CONTEXTS).collect();
    compare(&c, "core statements", &refd(gen::bodies(1, &all, &[0, 2, 5])).collect::<Vec<_>>(), e);
    if mc::tier() == mc::Tier::Thorough {
        compare(&c, "reads around writes, all triples", &moves(true), e);
    }
    c.finish()
}

/// Native code against bytecode, in loops and functions that run often enough to be compiled.
fn p09() -> ! {
    let c = Check::new("P09", "model_checking");
    let e = &[Engine::T0, Engine::Jit, Engine::JitT3];
    let all: Vec<usize> = (1..gen::CONTEXTS).collect();
    compare(&c, "core statements", &refd(gen::bodies(1, &all, &[130, 230])).collect::<Vec<_>>(), e);
    compare(&c, "core statements in pairs", &refd(gen::bodies(2, &[1, 3, 5], &[130])).collect::<Vec<_>>(), e);
    compare(&c, "rare events", &items(worlds::rare(mc::pick(&[1], &[1, 2, 3]), &[130], true)), e);
    if mc::tier() == mc::Tier::Quick {
        compare(&c, "rare events", &items(worlds::rare(&[2, 3], &[130], false)), e);
    }
    compare(&c, "inner loops meeting other bounds", &items(shapes::inner_loops()), e);
    compare(&c, "reads around writes", &items(worlds::moves(mc::pick(&[1], &[1, 2, 3]), &[130], false)), e);
    for w in worlds::WORLDS.iter().filter(|w| worlds::HOT.contains(&w.name)) {
        compare(&c, &format!("{} world", w.name), &worlds::cases(w, &[1, 2], &[1, 3], &[130]).into_iter().map(Item::from).collect::<Vec<_>>(), e);
    }
    c.finish()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "P07" => p07(),
        "P08" => p08(),
        "P09" => p09(),
        "show" => {
            let src = std::fs::read_to_string(&a[2]).unwrap();
            std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
                for e in engines::ALL {
                    let o = engines::run(*e, &src);
                    println!("{:?} -> {:?}", e, o);
                }
            }).unwrap().join().unwrap();
        }
        "passes" => {
            let src = std::fs::read_to_string(&a[2]).unwrap();
            let base = engines::run(Engine::Tree, &src);
            for o in logicaffeine_language::optimization::REGISTRY {
                let s = format!("## No {}\n{}", o.keyword, src);
                let r = engines::run(Engine::T3, &s);
                if norm(&r.0) == norm(&base.0) && r.1 == base.1 { println!("ok without {}", o.keyword); }
                else if let Some(e) = r.1 { if base.1.is_none() { println!("{}: {e}", o.keyword); } }
            }
        }
        "world" => {
            let mut cases = vec![];
            let lens: Vec<usize> = a[3].split(',').map(|x| x.parse().unwrap()).collect();
            let ctxs: Vec<usize> = a[4].split(',').map(|x| x.parse().unwrap()).collect();
            let ns: Vec<i64> = a[5].split(',').map(|x| x.parse().unwrap()).collect();
            for w in worlds::WORLDS { if a[2] == "all" || a[2] == w.name { cases.extend(worlds::cases(w, &lens, &ctxs, &ns)); } }
            if a[2] == "rare" { cases = worlds::rare(&ctxs, &ns, lens[0] > 2); }
            for w in shapes::SHAPES { if a[2] == "shapes" || a[2] == w.name { cases.extend(shapes::cases(w)); } }
            if a[2] == "moves" { cases = worlds::moves(&ctxs, &ns, lens[0] > 2); }
            let t = std::time::Instant::now();
            let (mut bad, mut shown) = (0, 0);
            let mut fired = std::collections::BTreeMap::new();
            let mut errs = std::collections::BTreeMap::<String, (u64, String)>::new();
            mc::isolated(cases.len(), Duration::from_secs(30), &|k| {
                let mut groups: Vec<((Vec<String>, Option<String>), Vec<Engine>)> = vec![];
                for e in engines::ALL {
                    let r = match mc::guard(|| engines::run(*e, &cases[k].src)) { Ok((o, e)) => (norm(&o), e), Err(p) => (vec![], Some(format!("PANIC {p}"))) };
                    match groups.iter_mut().find(|g| g.0 == r) { Some(g) => g.1.push(*e), None => groups.push((r, vec![*e])) }
                }
                let mut s = String::new();
                if groups.len() > 1 { s.push_str(&format!("V\t{:?}\n", groups)); }
                for f in mc::guard(|| logicaffeine_compile::compile::optimizations_fired_vm(&cases[k].src)).unwrap_or_default() { s.push_str(&format!("F\t{f}\n")); }
                if let Some(e) = &groups[0].0.1 { s.push_str(&format!("E\t{}\n", e.replace('\n', " "))); }
                s
            }, &mut |k, r| match r {
                Err(e) => { bad += 1; println!("CRASH {} {e}\n{}", cases[k].key, cases[k].src); }
                Ok(s) => for l in s.lines() {
                    if let Some(x) = l.strip_prefix("V\t") { bad += 1; shown += 1; if shown <= 400 { println!("{} {x}", cases[k].key); } if std::env::var("FULL").is_ok() && shown < 8 { println!("{}", cases[k].src); } }
                    if let Some(x) = l.strip_prefix("F\t") { *fired.entry(x.to_string()).or_insert(0u64) += 1; }
                    if let Some(x) = l.strip_prefix("E\t") { let e = errs.entry(x.chars().take(90).collect()).or_insert((0, cases[k].key.clone())); e.0 += 1; }
                }
            });
            for (e, (n, k)) in &errs { println!("  error x{n}: {e} [{k}]"); }
            println!("{} cases {bad} bad in {:?} {fired:?}", cases.len(), t.elapsed());
        }
        "try" => {
            let cases = match a[2].as_str() {
                "values" => gen::values(),
                "exprs" => gen::exprs(),
                "b1" => gen::bodies(1, &(0..gen::CONTEXTS).collect::<Vec<_>>(), &[0, 1, 2, 3, 5]),
                "b2" => gen::bodies(2, &(0..gen::CONTEXTS).collect::<Vec<_>>(), &[3]),
                "j1" => gen::bodies(1, &(0..gen::CONTEXTS).collect::<Vec<_>>(), &[130, 230]),
                "j2" => gen::bodies(2, &(1..gen::CONTEXTS).collect::<Vec<_>>(), &[130]),
                _ => panic!(),
            };
            let t = std::time::Instant::now();
            println!("{} cases", cases.len());
            let mut shown = 0;
            let mut bad = 0;
            let mut outc = std::collections::BTreeMap::new();
            mc::isolated(cases.len(), Duration::from_secs(30), &|k| run_case(&cases[k], engines::ALL), &mut |k, r| {
                match r {
                    Err(e) => { bad += 1; println!("CRASH {} {e}", cases[k].key); }
                    Ok(s) => for l in s.lines() {
                        if let Some(x) = l.strip_prefix("V\t") {
                            bad += 1;
                            shown += 1;
                            println!("{x}"); if std::env::var("FULL").is_ok() && shown <= 12 { println!("{}", cases[k].prog.print()); }
                        } else { *outc.entry(l.to_string()).or_insert(0u64) += 1; }
                    }
                }
            });
            println!("{bad} bad; {outc:?} in {:?}", t.elapsed());
        }
        _ => {}
    }
}
