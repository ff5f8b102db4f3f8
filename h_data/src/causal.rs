//! Bounded exhaustive checks of the causality bookkeeping used by every replicated type.
use logicaffeine_data::crdt::{Dot, DeltaBuffer, DotContext, VClock};
use mc::Check;
use std::collections::BTreeSet;

fn clock(v: &[u64]) -> VClock {
    let mut c = VClock::new();
    for (r, n) in v.iter().enumerate() {
        for _ in 0..*n {
            c.increment(r as u64 + 1);
        }
    }
    c
}
fn le(a: &[u64], b: &[u64]) -> bool {
    a.iter().zip(b).all(|(x, y)| x <= y)
}

/// Every pair of clocks over three replicas with counts 0..=m.
pub fn clocks(c: &Check, m: u64) {
    let mut all = vec![];
    for a in 0..=m {
        for b in 0..=m {
            for d in 0..=m {
                all.push(vec![a, b, d]);
            }
        }
    }
    for x in &all {
        for y in &all {
            let (cx, cy) = (clock(x), clock(y));
            let mut mg = cx.clone();
            mg.merge_vclock(&cy);
            let max: Vec<u64> = x.iter().zip(y).map(|(a, b)| *a.max(b)).collect();
            let ok = cx.dominates(&cy) == le(y, x)
                && cx.concurrent(&cy) == (!le(x, y) && !le(y, x))
                && (1..=3).all(|r| mg.get(r) == max[r as usize - 1])
                && (0..=3).all(|r| cx.get(r + 1) == *x.get(r as usize).unwrap_or(&0));
            if !ok {
                c.violation(&format!("clock:{x:?}:{y:?}"), &format!("clock comparison or merge wrong for {x:?} and {y:?}"));
            }
            c.state(1);
            c.trans(4);
            c.trace(1);
        }
    }
}

/// Every sequence of dots (two replicas, counters 1..=k) of length <= n received in any
/// order, against a plain set; and the merge of every pair of short ones.
pub fn contexts(c: &Check, k: u64, n: usize, pair_n: usize) {
    let dots: Vec<Dot> = (1..=2).flat_map(|r| (1..=k).map(move |i| Dot::new(r, i))).collect();
    let agree = |ctx: &DotContext, set: &BTreeSet<(u64, u64)>| -> bool {
        let seen = dots.iter().all(|d| ctx.has_seen(d) == set.contains(&(d.replica, d.counter)));
        let prefix = (1..=2u64).all(|r| {
            let mut p = 0;
            while set.contains(&(r, p + 1)) {
                p += 1;
            }
            ctx.version().get(r) == p && ctx.clock().get(r) == p
        });
        seen && prefix
    };
    let build = |s: &[usize]| {
        let mut ctx = DotContext::new();
        let mut set = BTreeSet::new();
        for &i in s {
            ctx.add(dots[i]);
            set.insert((dots[i].replica, dots[i].counter));
        }
        (ctx, set)
    };
    mc::words(dots.len(), n, &mut |s| {
        let (mut ctx, mut set) = build(s);
        let mut ok = agree(&ctx, &set);
        // A fresh local event after a contiguous history.
        if (1..=k).all(|i| !set.contains(&(1, i + 1)) || set.contains(&(1, i))) {
            let d = ctx.next(1);
            let want = set.iter().filter(|x| x.0 == 1).map(|x| x.1).max().unwrap_or(0) + 1;
            set.insert((1, want));
            ok &= d.replica == 1 && d.counter == want && agree(&ctx, &set);
        }
        if !ok {
            c.violation(&format!("context:{s:?}"), &format!("receiving {:?} in this order", s.iter().map(|i| dots[*i]).collect::<Vec<_>>()));
        }
        c.state(1);
        c.trans(s.len() as u64 + 1);
        c.trace(1);
    });
    let mut short = vec![];
    mc::words(dots.len(), pair_n, &mut |s| {
        if s.windows(2).all(|w| w[0] < w[1]) {
            short.push(s.to_vec())
        }
    });
    for a in &short {
        for b in &short {
            let (mut ca, mut sa) = build(a);
            let (cb, sb) = build(b);
            ca.merge(&cb);
            sa.extend(sb);
            if !agree(&ca, &sa) {
                c.violation(&format!("context-merge:{a:?}:{b:?}"), &format!("merging {a:?} with {b:?}"));
            }
            c.state(1);
            c.trans(1);
            c.trace(1);
        }
    }
}

/// Every run of up to `n` updates by three writers pushed into a bounded buffer, against
/// every peer version: either the peer gets exactly what it lacks, in order, or is told that
/// it needs a full transfer - which is allowed only when something was evicted.
pub fn buffer(c: &Check, n: usize, cap: usize) {
    for mode in 0..2 {
        mc::words(3, n, &mut |writers| {
            for size in 1..=cap {
                let mut buf: DeltaBuffer<usize> = DeltaBuffer::new(size);
                let mut cur = vec![0u64; 3];
                let mut pushed: Vec<Vec<u64>> = vec![];
                for (i, w) in writers.iter().enumerate() {
                    cur[*w] += 1;
                    // Either the version of the whole store, or of the one writer.
                    let v = if mode == 0 { cur.clone() } else { (0..3).map(|r| if r == *w { cur[r] } else { 0 }).collect() };
                    buf.push(clock(&v), i);
                    pushed.push(v);
                }
                let evicted = pushed.len().saturating_sub(size);
                let mut floor = vec![0u64; 3];
                for v in &pushed[..evicted] {
                    for r in 0..3 {
                        floor[r] = floor[r].max(v[r]);
                    }
                }
                for a in 0..=cur[0] {
                    for b in 0..=cur[1] {
                        for d in 0..=cur[2] {
                            let peer = vec![a, b, d];
                            let want: Vec<usize> = (0..pushed.len()).filter(|i| !le(&pushed[*i], &peer)).collect();
                            let got = buf.deltas_since(&clock(&peer));
                            let ok = match &got {
                                Some(l) => *l == want,
                                None => evicted > 0 && (le(&peer, &floor) || want.iter().any(|i| *i < evicted) || !le(&floor, &peer)),
                            };
                            if !ok || buf.can_serve(&clock(&peer)) != got.is_some() || buf.len() != pushed.len() - evicted {
                                c.violation(
                                    &format!("buffer:{mode}:{writers:?}:{size}:{peer:?}"),
                                    &format!("writers {writers:?} capacity {size} versions {pushed:?}: a peer at {peer:?} lacks {want:?} but was offered {got:?}"),
                                );
                            }
                            c.state(1);
                            c.trans(1);
                            c.trace(1);
                            c.outcome(if got.is_some() { "peer served from the buffer" } else { "peer sent to full transfer" });
                        }
                    }
                }
            }
        });
    }
}
