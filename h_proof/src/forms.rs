//! Bounded spaces of clause sets, and the brute-force truth about each.
use logicaffeine_proof::cdcl::Lit;
use logicaffeine_proof::families;

pub struct Form {
    pub key: String,
    pub n: usize,
    pub clauses: Vec<Vec<Lit>>,
}

pub fn lit(v: usize, pos: bool) -> Lit {
    Lit::new(v as u32, pos)
}

pub fn holds(clauses: &[Vec<Lit>], m: &[bool]) -> bool {
    clauses.iter().all(|c| c.iter().any(|l| m.get(l.var() as usize).copied() == Some(l.is_positive())))
}

pub fn assignment(n: usize, bits: usize) -> Vec<bool> {
    (0..n).map(|i| bits >> i & 1 == 1).collect()
}

/// Every satisfying assignment, as bit patterns.
pub fn models(n: usize, clauses: &[Vec<Lit>]) -> Vec<usize> {
    let masks: Vec<(usize, usize)> = clauses
        .iter()
        .map(|c| {
            let mut m = (0, 0);
            for l in c {
                let b = 1usize << l.var();
                if l.is_positive() {
                    m.0 |= b
                } else {
                    m.1 |= b
                }
            }
            m
        })
        .collect();
    (0..1usize << n).filter(|x| masks.iter().all(|(p, q)| x & p != 0 || !x & q != 0)).collect()
}

/// Every clause over `n` variables that mentions each at most once, by width.
pub fn all_clauses(n: usize, widths: std::ops::RangeInclusive<usize>) -> Vec<Vec<Lit>> {
    let mut out = Vec::new();
    for code in 0..3usize.pow(n as u32) {
        let mut c = Vec::new();
        let mut x = code;
        for v in 0..n {
            match x % 3 {
                1 => c.push(lit(v, true)),
                2 => c.push(lit(v, false)),
                _ => {}
            }
            x /= 3;
        }
        if widths.contains(&c.len()) {
            out.push(c)
        }
    }
    out
}

/// Every set of at most `k` clauses out of `pool`.
pub fn subsets(name: &str, n: usize, pool: &[Vec<Lit>], k: usize, out: &mut Vec<Form>) {
    fn go(name: &str, n: usize, pool: &[Vec<Lit>], from: usize, left: usize, cur: &mut Vec<usize>, out: &mut Vec<Form>) {
        let ids: Vec<String> = cur.iter().map(|i| i.to_string()).collect();
        out.push(Form { key: format!("{name}/{}", ids.join(".")), n, clauses: cur.iter().map(|i| pool[*i].clone()).collect() });
        if left == 0 {
            return;
        }
        for i in from..pool.len() {
            cur.push(i);
            go(name, n, pool, i + 1, left - 1, cur, out);
            cur.pop();
        }
    }
    go(name, n, pool, 0, k, &mut Vec::new(), out)
}

/// Every sequence of `k` clauses whose literals may repeat or contradict each other, empty clauses included.
pub fn raw(n: usize, width: usize, k: usize, out: &mut Vec<Form>) {
    let lits: Vec<Lit> = (0..n).flat_map(|v| [lit(v, true), lit(v, false)]).collect();
    let mut pool: Vec<Vec<Lit>> = Vec::new();
    for w in 0..=width {
        mc::words(lits.len(), w, &mut |x| pool.push(x.iter().map(|i| lits[*i]).collect()));
    }
    for len in 0..=k {
        mc::words(pool.len(), len, &mut |x| {
            let ids: Vec<String> = x.iter().map(|i| i.to_string()).collect();
            out.push(Form { key: format!("raw{n}/{}", ids.join(".")), n, clauses: x.iter().map(|i| pool[*i].clone()).collect() })
        });
    }
}

fn at_most_one(g: &[usize], out: &mut Vec<Vec<Lit>>) {
    for i in 0..g.len() {
        for j in 0..i {
            out.push(vec![lit(g[j], false), lit(g[i], false)])
        }
    }
}

fn xor(g: &[usize], rhs: bool, out: &mut Vec<Vec<Lit>>) {
    for bits in 0..1usize << g.len() {
        if (bits.count_ones() % 2 == 1) != rhs {
            out.push(g.iter().enumerate().map(|(i, v)| lit(*v, bits >> i & 1 == 0)).collect())
        }
    }
}

/// The structured formulas the specialised deciders recognise, at their smallest sizes.
pub fn bases() -> Vec<(String, usize, Vec<Vec<Lit>>)> {
    let mut out: Vec<(String, usize, Vec<Vec<Lit>>)> = Vec::new();
    let mut f = |name: &str, c: logicaffeine_proof::dimacs::DimacsCnf| out.push((name.to_string(), c.num_vars, c.clauses));
    f("php2", families::weak_php(3, 2).0);
    f("php3", families::weak_php(4, 3).0);
    f("php-sat", families::weak_php(3, 3).0);
    f("fphp2", families::functional_php(2).0);
    f("ophp2", families::onto_php(2).0);
    f("one3", families::parity_exactly_one(3).0);
    f("clique", families::clique_coloring(4, 3).0);
    f("order3", families::ordering_principle(3).0);
    f("order4", families::ordering_principle(4).0);
    f("count3", families::mod_counting(3, 2).0);
    f("count5", families::mod_counting(5, 2).0);
    f("count4.3", families::mod_counting(4, 3).0);
    f("ramsey", families::ramsey(3, 3, 4).0);
    f("pebble", families::pebbling_pyramid(2).0);
    drop(f);
    // Parity constraints around a cycle, one of them odd.
    for (name, edges) in [("tseitin3", vec![(0, 1), (1, 2), (0, 2)]), ("tseitin4", vec![(0, 1), (1, 2), (2, 3), (0, 3), (0, 2), (1, 3)])] {
        let nodes = 1 + edges.iter().map(|e: &(usize, usize)| e.0.max(e.1)).max().unwrap();
        let mut c = Vec::new();
        for v in 0..nodes {
            let g: Vec<usize> = (0..edges.len()).filter(|e| edges[*e].0 == v || edges[*e].1 == v).collect();
            xor(&g, v == 0, &mut c);
        }
        out.push((name.into(), edges.len(), c));
    }
    // A chain of three-variable parities which sum to a contradiction.
    let mut c = Vec::new();
    xor(&[0, 1, 2], true, &mut c);
    xor(&[2, 3, 4], true, &mut c);
    xor(&[0, 1, 3], false, &mut c);
    xor(&[4], false, &mut c);
    out.push(("chain".into(), 5, c));
    // One of three values per cell and differences modulo three around a cycle.
    for (name, shift) in [("mod3", 1), ("mod3-sat", 0)] {
        let mut c = Vec::new();
        let x = |i: usize, a: usize| i * 3 + a % 3;
        for i in 0..3 {
            c.push((0..3).map(|a| lit(x(i, a), true)).collect());
            at_most_one(&[x(i, 0), x(i, 1), x(i, 2)], &mut c);
        }
        for (i, j, d) in [(0, 1, 0), (1, 2, 0), (0, 2, shift)] {
            for a in 0..3 {
                for b in 0..3 {
                    if (a + d) % 3 != b {
                        c.push(vec![lit(x(i, a), false), lit(x(j, b), false)])
                    }
                }
            }
        }
        out.push((name.into(), 9, c));
    }
    // At most one of four true, at least two.
    let mut c = Vec::new();
    at_most_one(&[0, 1, 2, 3], &mut c);
    for skip in 0..4 {
        c.push((0..4).filter(|v| *v != skip).map(|v| lit(v, true)).collect())
    }
    out.push(("two-of-one".into(), 4, c));
    // Colouring a triangle and a four-clique with three colours.
    for k in [3, 4] {
        let mut c = Vec::new();
        for v in 0..k {
            c.push((0..3).map(|a| lit(v * 3 + a, true)).collect());
            for w in 0..v {
                for a in 0..3 {
                    c.push(vec![lit(v * 3 + a, false), lit(w * 3 + a, false)])
                }
            }
        }
        out.push((format!("colour{k}"), k * 3, c));
    }
    // Two disjoint copies of a small core, and of a satisfiable one.
    for (name, core) in [("twin-unsat", true), ("twin-sat", false)] {
        let mut c = Vec::new();
        for o in [0, 3] {
            c.push(vec![lit(o, true), lit(o + 1, true), lit(o + 2, true)]);
            at_most_one(&[o, o + 1, o + 2], &mut c);
            if core && o == 3 {
                for v in 0..3 {
                    c.push(vec![lit(o + v, false), lit(o + (v + 1) % 3, true)])
                }
            }
        }
        out.push((name.into(), 6, c));
    }
    // Horn rules and two-literal implications with a contradiction at the end.
    out.push((
        "horn".into(),
        4,
        vec![
            vec![lit(0, true)],
            vec![lit(0, false), lit(1, true)],
            vec![lit(0, false), lit(1, false), lit(2, true)],
            vec![lit(2, false), lit(1, false), lit(3, true)],
            vec![lit(3, false), lit(0, false)],
        ],
    ));
    let mut c = Vec::new();
    for (a, b) in [(0, 1), (1, 2), (2, 3)] {
        c.push(vec![lit(a, false), lit(b, true)]);
    }
    c.push(vec![lit(3, false), lit(0, false)]);
    c.push(vec![lit(0, true), lit(3, true)]);
    c.push(vec![lit(0, true), lit(1, true)]);
    out.push(("two".into(), 4, c));
    out
}

/// The base and every formula `edits` small edits away: a clause or literal left out, a literal negated or
/// moved to the next variable, a unit added.
pub fn neighbours(name: &str, n: usize, base: &[Vec<Lit>], edits: usize, cap: usize, out: &mut Vec<Form>) {
    let mut seen = std::collections::HashSet::new();
    let mut level: Vec<Vec<Vec<Lit>>> = vec![base.to_vec()];
    seen.insert(base.to_vec());
    let mut id = 0;
    for round in 0..=edits {
        let mut next = Vec::new();
        for f in &level {
            out.push(Form { key: format!("{name}/{id}"), n, clauses: f.clone() });
            id += 1;
            if round == edits {
                continue;
            }
            let mut add = |g: Vec<Vec<Lit>>| {
                if seen.len() < cap && seen.insert(g.clone()) {
                    next.push(g)
                }
            };
            for i in 0..f.len() {
                let mut g = f.clone();
                g.remove(i);
                add(g);
                for j in 0..f[i].len() {
                    let mut g = f.clone();
                    g[i].remove(j);
                    add(g);
                    let mut g = f.clone();
                    g[i][j] = g[i][j].negated();
                    add(g);
                    let mut g = f.clone();
                    g[i][j] = lit((g[i][j].var() as usize + 1) % n, g[i][j].is_positive());
                    add(g);
                }
            }
            for v in 0..n {
                for p in [true, false] {
                    let mut g = f.clone();
                    g.push(vec![lit(v, p)]);
                    add(g);
                }
            }
        }
        level = next;
    }
}

pub fn show(f: &Form) -> String {
    let cs: Vec<String> = f
        .clauses
        .iter()
        .map(|c| c.iter().map(|l| format!("{}{}", if l.is_positive() { "" } else { "-" }, l.var() + 1)).collect::<Vec<_>>().join(" "))
        .collect();
    format!("{} variables, clauses: {}", f.n, cs.join(" | "))
}
