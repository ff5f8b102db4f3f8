mod canon;
mod causal;
mod crdt;
use crdt::*;
use mc::{pick, Check};

fn p01() {
    let c = Check::new("P01", "model_checking");
    c.rule("all interleavings of local updates and state exchanges up to the stated number of actions");
    let b = |r, a, l| Bounds { replicas: r, actions: a, local: l, deltas: false, laws: false, cap: 3_000_000 };
    explore::<GC>(&c, &b(3, pick(6, 7), 4));
    explore::<PN>(&c, &b(3, pick(6, 7), 4));
    explore::<LWW>(&c, &b(3, pick(6, 7), 4));
    explore::<MV>(&c, &b(3, pick(7, 8), 5));
    explore::<AW1>(&c, &b(3, pick(7, 8), 5));
    explore::<AW>(&c, &b(2, pick(7, 9), 6));
    explore::<OM>(&c, &b(2, pick(7, 8), 5));
    explore::<SeqR>(&c, &b(2, pick(6, 7), 5));
    explore::<SeqY>(&c, &b(2, pick(6, 7), 5));
    explore::<SeqR>(&c, &b(3, pick(5, 6), 4));
    explore::<SeqY>(&c, &b(3, pick(5, 6), 4));
    explore::<RW>(&c, &b(2, pick(6, 7), 5));
    explore::<RW>(&c, &b(3, 4, 4));
    c.finish()
}

fn p02() {
    let c = Check::new("P02", "model_checking");
    let b = |r, a, l| Bounds { replicas: r, actions: a, local: l, deltas: true, laws: true, cap: 3_000_000 };
    explore::<PN>(&c, &b(3, pick(6, 7), 4));
    explore::<MV>(&c, &b(3, pick(6, 7), 4));
    explore::<AW1>(&c, &b(3, pick(6, 7), 4));
    explore::<AW>(&c, &b(2, pick(6, 8), 5));
    explore::<SeqR>(&c, &b(2, pick(6, 7), 5));
    explore::<SeqY>(&c, &b(2, pick(6, 7), 5));
    explore::<SeqR>(&c, &b(3, pick(5, 6), 3));
    let laws = |r, a, l| Bounds { replicas: r, actions: a, local: l, deltas: false, laws: true, cap: 3_000_000 };
    explore::<OM>(&c, &laws(2, pick(6, 8), 5));
    explore::<RW>(&c, &laws(2, 4, 4));
    causal::clocks(&c, pick(3, 5));
    causal::contexts(&c, 4, pick(5, 6), pick(4, 5));
    causal::buffer(&c, pick(5, 7), 4);
    c.finish()
}

fn main() {
    match std::env::args().nth(1).as_deref() {
        Some("P01") => p01(),
        Some("P02") => p02(),
        x => {
            eprintln!("unknown check {x:?}");
            std::process::exit(2)
        }
    }
}
