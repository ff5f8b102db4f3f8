//! P05: journaled values survive crashes, faults and concurrent compaction.
use async_trait::async_trait;
use logicaffeine_data::crdt::{GCounter, ORSet};
use logicaffeine_system::distributed::Distributed;
use logicaffeine_system::fs::{DirEntry, Vfs, VfsError, VfsResult};
use logicaffeine_system::storage::Persistent;
use mc::{pick, Check};
use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

// ------------------------------------------------------------------ the disk

/// What happens at the next change of the disk.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    None,
    /// The process dies with only this many bytes of the change applied.
    Crash(usize),
    /// The operation fails with only this many bytes applied.
    Error(usize),
}

#[derive(Default)]
struct Disk {
    files: BTreeMap<String, Vec<u8>>,
    /// Faults by number of change.
    faults: BTreeMap<u64, Fault>,
    changes: u64,
    dead: bool,
    yields: u64,
    /// The last change: path, content before, bytes offered, whether an append.
    last: Option<(String, Option<Vec<u8>>, Vec<u8>, bool)>,
}

#[derive(Clone, Default)]
struct MemVfs {
    d: Arc<Mutex<Disk>>,
    /// Suspend once before every operation.
    yielding: bool,
}

struct YieldOnce(bool);
impl Future for YieldOnce {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            return Poll::Ready(());
        }
        self.0 = true;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}

fn io(s: &str) -> VfsError {
    VfsError::IoError(std::io::Error::new(std::io::ErrorKind::Other, s.to_string()))
}

impl MemVfs {
    fn of(files: &BTreeMap<String, Vec<u8>>, yielding: bool) -> Self {
        MemVfs { d: Arc::new(Mutex::new(Disk { files: files.clone(), ..Default::default() })), yielding }
    }
    async fn pause(&self) {
        if self.yielding {
            self.d.lock().unwrap().yields += 1;
            YieldOnce(false).await;
        }
    }
    fn files(&self) -> BTreeMap<String, Vec<u8>> {
        self.d.lock().unwrap().files.clone()
    }
    /// Puts bytes in place; replacing is atomic, appending may be cut short.
    fn put(&self, path: &str, bytes: &[u8], append: bool) -> VfsResult<()> {
        let mut d = self.d.lock().unwrap();
        if d.dead {
            return Err(io("machine is off"));
        }
        let n = d.changes;
        d.changes += 1;
        let before = d.files.get(path).cloned();
        d.last = Some((path.to_string(), before, bytes.to_vec(), append));
        let f = d.faults.get(&n).copied().unwrap_or(Fault::None);
        let kept = match f {
            Fault::None => bytes.len(),
            Fault::Crash(k) | Fault::Error(k) => k.min(bytes.len()),
        };
        if append {
            d.files.entry(path.to_string()).or_default().extend_from_slice(&bytes[..kept]);
        } else if kept == bytes.len() {
            d.files.insert(path.to_string(), bytes.to_vec());
        }
        match f {
            Fault::None => Ok(()),
            Fault::Error(_) => Err(io("no space left")),
            Fault::Crash(_) => {
                d.dead = true;
                Err(io("machine is off"))
            }
        }
    }
}

#[async_trait]
impl Vfs for MemVfs {
    async fn read(&self, path: &str) -> VfsResult<Vec<u8>> {
        self.pause().await;
        self.d.lock().unwrap().files.get(path).cloned().ok_or_else(|| VfsError::NotFound(path.into()))
    }
    async fn read_to_string(&self, path: &str) -> VfsResult<String> {
        String::from_utf8(self.read(path).await?).map_err(|_| io("not text"))
    }
    async fn write(&self, path: &str, contents: &[u8]) -> VfsResult<()> {
        self.pause().await;
        self.put(path, contents, false)
    }
    async fn append(&self, path: &str, contents: &[u8]) -> VfsResult<()> {
        self.pause().await;
        self.put(path, contents, true)
    }
    async fn exists(&self, path: &str) -> VfsResult<bool> {
        self.pause().await;
        Ok(self.d.lock().unwrap().files.contains_key(path))
    }
    async fn remove(&self, path: &str) -> VfsResult<()> {
        self.pause().await;
        let mut d = self.d.lock().unwrap();
        if d.dead {
            return Err(io("machine is off"));
        }
        d.files.remove(path).map(|_| ()).ok_or_else(|| VfsError::NotFound(path.into()))
    }
    async fn create_dir_all(&self, _path: &str) -> VfsResult<()> {
        Ok(())
    }
    async fn rename(&self, from: &str, to: &str) -> VfsResult<()> {
        self.pause().await;
        let moved = {
            let mut d = self.d.lock().unwrap();
            if d.dead {
                return Err(io("machine is off"));
            }
            d.files.remove(from).ok_or_else(|| VfsError::NotFound(from.into()))?
        };
        // A rename is one change of the target.
        match self.put(to, &moved, false) {
            Ok(()) => Ok(()),
            Err(e) => {
                let mut d = self.d.lock().unwrap();
                if d.files.get(to) != Some(&moved) {
                    d.files.insert(from.to_string(), moved);
                }
                Err(e)
            }
        }
    }
    async fn list_dir(&self, _path: &str) -> VfsResult<Vec<DirEntry>> {
        Ok(vec![])
    }
}

// ------------------------------------------------------------------ the stores

const PATH: &str = "value.journal";
type Fut<'a, R> = Pin<Box<dyn Future<Output = R> + 'a>>;

pub trait Value: logicaffeine_data::crdt::Merge + serde::Serialize + serde::de::DeserializeOwned + Clone + Default + Send + 'static {
    type Seen: Clone + PartialEq + Ord + std::fmt::Debug + Send;
    fn seen(&self) -> Self::Seen;
}
impl Value for GCounter {
    type Seen = u64;
    fn seen(&self) -> u64 {
        self.value()
    }
}
impl Value for ORSet<u8> {
    type Seen = BTreeSet<u8>;
    fn seen(&self) -> BTreeSet<u8> {
        self.iter().copied().collect()
    }
}

pub enum Store<T: Value> {
    P(Persistent<T>),
    D(Distributed<T>),
}
impl<T: Value> Store<T> {
    pub async fn mount(kind: u8, vfs: Arc<dyn Vfs + Send + Sync>) -> VfsResult<Self> {
        Ok(if kind == 0 { Store::P(Persistent::mount(vfs, PATH).await?) } else { Store::D(Distributed::mount(vfs, PATH, None).await?) })
    }
    pub async fn mutate(&self, f: impl FnOnce(&mut T) + Send) -> VfsResult<()> {
        match self {
            Store::P(s) => s.mutate(f).await,
            Store::D(s) => s.mutate(f).await,
        }
    }
    pub async fn compact(&self) -> VfsResult<()> {
        match self {
            Store::P(s) => s.compact().await,
            Store::D(s) => s.compact().await,
        }
    }
    pub async fn get(&self) -> T {
        match self {
            Store::P(s) => s.get().await,
            Store::D(s) => s.get().await,
        }
    }
}
pub const KINDS: [&str; 2] = ["local", "shared"];

/// The shared kind asks one global for its identity; taking turns keeps that from being a bottleneck.
fn mount_now<T: Value>(kind: u8, vfs: Arc<dyn Vfs + Send + Sync>) -> VfsResult<Store<T>> {
    static TURN: Mutex<()> = Mutex::new(());
    let _turn = if kind == 1 { Some(TURN.lock().unwrap()) } else { None };
    block(Store::mount(kind, vfs))
}

/// Runs a future to its end on this thread.
pub fn block<R>(f: impl Future<Output = R>) -> R {
    let mut f = std::pin::pin!(f);
    let mut cx = Context::from_waker(Waker::noop());
    let mut spins = 0u64;
    loop {
        if let Poll::Ready(r) = f.as_mut().poll(&mut cx) {
            return r;
        }
        spins += 1;
        std::hint::spin_loop();
        if spins > 5000 {
            std::thread::yield_now();
        }
        assert!(spins < 50_000_000, "an operation on the store never ends");
    }
}

// ---------------------------------------------------- histories with faults

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Add(u8),
    Remove(u8),
    Compact,
    Remount,
}

fn apply(op: Op, s: &mut BTreeSet<u8>) {
    match op {
        Op::Add(x) => {
            s.insert(x);
        }
        Op::Remove(x) => {
            s.remove(&x);
        }
        _ => {}
    }
}

struct Counters {
    states: AtomicU64,
    trans: AtomicU64,
    traces: AtomicU64,
}

/// Runs the history with the faults, then always restarts, edits once more and restarts.
/// Returns the sizes of the changes made (to place faults).
fn history(kind: u8, ops: &[Op], faults: &BTreeMap<u64, Fault>, n: &Counters) -> Result<Vec<usize>, String> {
    let vfs = MemVfs::default();
    vfs.d.lock().unwrap().faults = faults.clone();
    // Every value the contents may have: one unless an operation failed.
    let mut may: BTreeSet<BTreeSet<u8>> = BTreeSet::from([BTreeSet::new()]);
    let mut sizes = vec![];
    let mount = |vfs: &MemVfs, may: &mut BTreeSet<BTreeSet<u8>>, at: &str| -> Result<Store<ORSet<u8>>, String> {
        vfs.d.lock().unwrap().dead = false;
        let mut left = 8;
        let s = loop {
            match mount_now::<ORSet<u8>>(kind, Arc::new(vfs.clone())) {
                Ok(s) => break s,
                // Opening may itself meet the fault; the next attempt must do.
                Err(e) => {
                    left -= 1;
                    if left == 0 || !matches!(e, VfsError::IoError(_)) {
                        return Err(format!("{at}: the journal cannot be opened: {e}"));
                    }
                    vfs.d.lock().unwrap().dead = false;
                }
            }
        };
        let v = block(s.get()).seen();
        n.states.fetch_add(1, Ordering::Relaxed);
        if !may.contains(&v) {
            return Err(format!("{at}: shows {v:?}, must be one of {may:?}"));
        }
        *may = BTreeSet::from([v]);
        Ok(s)
    };
    let mut s = mount(&vfs, &mut may, "first open")?;
    let all: Vec<Op> = ops.iter().copied().chain([Op::Remount, Op::Add(9), Op::Remount]).collect();
    for (i, op) in all.iter().enumerate() {
        n.trans.fetch_add(1, Ordering::Relaxed);
        let at = format!("after {:?}", &all[..=i]);
        let r = match *op {
            Op::Add(x) => block(s.mutate(move |t| {
                if !t.contains(&x) {
                    t.add(x)
                }
            })),
            Op::Remove(x) => block(s.mutate(move |t| t.remove(&x))),
            Op::Compact => block(s.compact()),
            Op::Remount => {
                s = mount(&vfs, &mut may, &at)?;
                continue;
            }
        };
        if let Some((_, _, b, _)) = vfs.d.lock().unwrap().last.take() {
            sizes.push(b.len());
        }
        let dead = vfs.d.lock().unwrap().dead;
        match r {
            Ok(()) => {
                may = may
                    .iter()
                    .map(|m| {
                        let mut m = m.clone();
                        apply(*op, &mut m);
                        m
                    })
                    .collect();
            }
            Err(_) => {
                // Not acknowledged: may or may not have taken effect.
                let with: Vec<_> = may
                    .iter()
                    .map(|m| {
                        let mut m = m.clone();
                        apply(*op, &mut m);
                        m
                    })
                    .collect();
                may.extend(with);
                if dead {
                    s = mount(&vfs, &mut may, &at)?;
                    continue;
                }
            }
        }
        let v = block(s.get()).seen();
        if !may.contains(&v) {
            return Err(format!("{at}: memory shows {v:?}, must be one of {may:?}"));
        }
    }
    n.traces.fetch_add(1, Ordering::Relaxed);
    Ok(sizes)
}

/// Places in an entry where the format changes.
fn corners(size: usize) -> [usize; 8] {
    [0, 1, 7, 8, 9, size / 2, size - 1, size]
}

fn histories(c: &Check, n: &Counters) {
    let alphabet = [Op::Add(1), Op::Add(2), Op::Remove(1), Op::Compact, Op::Remount];
    let len = pick(4, 5);
    let mut all: Vec<Vec<Op>> = vec![];
    mc::words(alphabet.len(), len, &mut |w| all.push(w.iter().map(|i| alphabet[*i]).collect()));
    let report = |kind: u8, ops: &[Op], faults: &BTreeMap<u64, Fault>, e: String| {
        c.violation(&format!("{} journal: {ops:?} with {faults:?}", KINDS[kind as usize]), &e);
    };
    mc::par_each(&all, |ops| {
        for kind in 0..2u8 {
            if c.violation_count() > 20 {
                return;
            }
            let none = BTreeMap::new();
            let sizes = match history(kind, ops, &none, n) {
                Ok(s) => s,
                Err(e) => {
                    report(kind, ops, &none, e);
                    continue;
                }
            };
            c.outcome(&format!("changes {}", sizes.len()));
            for (i, size) in sizes.iter().enumerate() {
                for k in 0..=*size {
                    for f in [Fault::Crash(k), Fault::Error(k)] {
                        let one = BTreeMap::from([(i as u64, f)]);
                        match history(kind, ops, &one, n) {
                            Err(e) => {
                                report(kind, ops, &one, e);
                                break;
                            }
                            Ok(after) => {
                                if ops.len() == len && c.want_sample() {
                                    c.sample(format!("{} {ops:?} with {one:?}", KINDS[kind as usize]));
                                }
                                if ops.len() > len - 1 || !corners(*size).contains(&k) {
                                    continue;
                                }
                                // A second fault, at the places where the format changes.
                                for (j, size2) in after.iter().enumerate().skip(i + 1) {
                                    for k2 in corners(*size2) {
                                        for f2 in [Fault::Crash(k2), Fault::Error(k2)] {
                                            let two = BTreeMap::from([(i as u64, f), (j as u64, f2)]);
                                            if let Err(e) = history(kind, ops, &two, n) {
                                                report(kind, ops, &two, e);
                                                return;
                                            }
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    });
}

// ------------------------------------------------------- concurrent operations

#[derive(Clone, Copy, Debug, PartialEq)]
enum Act {
    Inc,
    Compact,
    /// Two increments, one after the other, by one caller.
    IncInc,
    CompactInc,
}

fn start<'a>(s: &'a Store<GCounter>, a: Act, bit: u32, acked: &'a AtomicU64, begun: &'a AtomicU64) -> Fut<'a, ()> {
    let inc = move |bit: u32| async move {
        begun.fetch_or(1 << bit, Ordering::Relaxed);
        if s.mutate(move |t| t.increment(1 << bit)).await.is_ok() {
            acked.fetch_or(1 << bit, Ordering::Relaxed);
        }
    };
    Box::pin(async move {
        match a {
            Act::Inc => inc(bit).await,
            Act::Compact => {
                let _ = s.compact().await;
            }
            Act::IncInc => {
                inc(bit).await;
                inc(bit + 1).await;
            }
            Act::CompactInc => {
                let _ = s.compact().await;
                inc(bit).await;
            }
        }
    })
}

/// After a crash with these files: everything acknowledged is there, nothing that was not begun,
/// and the journal goes on working.
fn recover(kind: u8, files: &BTreeMap<String, Vec<u8>>, acked: u64, begun: u64, n: &Counters) -> Result<(), String> {
    let vfs = MemVfs::of(files, false);
    let mut must = acked;
    let mut may = begun;
    for round in 0..3u32 {
        let s = mount_now::<GCounter>(kind, Arc::new(vfs.clone())).map_err(|e| format!("restart {round}: the journal cannot be opened: {e}"))?;
        let v = block(s.get()).value();
        n.states.fetch_add(1, Ordering::Relaxed);
        if v & must != must || v & !may != 0 {
            return Err(format!("restart {round}: updates {v:b} survive; acknowledged {must:b}, begun {may:b}"));
        }
        let bit = 1u64 << (40 + round);
        block(s.mutate(move |t| t.increment(bit))).map_err(|e| format!("restart {round}: {e}"))?;
        must = v | bit;
        may = must;
    }
    Ok(())
}

/// All interleavings of the actions, with a crash after every step.
fn interleave(c: &Check, kind: u8, prior: u32, acts: &[Act], n: &Counters) {
    let mut stack: Vec<Vec<usize>> = vec![vec![]];
    let mut done: BTreeSet<Vec<usize>> = BTreeSet::new();
    while let Some(prefix) = stack.pop() {
        if c.violation_count() > 20 {
            return;
        }
        // Set up.
        let vfs = MemVfs::default();
        {
            let s = mount_now::<GCounter>(kind, Arc::new(vfs.clone())).unwrap();
            for b in 0..prior {
                block(s.mutate(move |t| t.increment(1 << b))).unwrap();
            }
        }
        let base = (1u64 << prior) - 1;
        let vfs = MemVfs { d: vfs.d.clone(), yielding: true };
        let s = mount_now::<GCounter>(kind, Arc::new(vfs.clone())).unwrap();
        let (acked, begun) = (AtomicU64::new(base), AtomicU64::new(base));
        let mut tasks: Vec<Option<Fut<()>>> = acts.iter().enumerate().map(|(i, a)| Some(start(&s, *a, prior + 2 * i as u32, &acked, &begun))).collect();
        let mut stuck = vec![false; tasks.len()];
        let mut cx = Context::from_waker(Waker::noop());
        let mut trace: Vec<usize> = vec![];
        let mut at = 0;
        loop {
            let enabled: Vec<usize> = (0..tasks.len()).filter(|i| tasks[*i].is_some() && !stuck[*i]).collect();
            if enabled.is_empty() {
                if tasks.iter().any(|t| t.is_some()) {
                    c.violation(&format!("{} journal: prior {prior} {acts:?} schedule {trace:?}", KINDS[kind as usize]), "the operations wait for each other forever");
                }
                break;
            }
            let i = if at < prefix.len() {
                prefix[at]
            } else {
                // Branch: the others are other prefixes.
                for other in &enabled[1..] {
                    let mut p = trace.clone();
                    p.push(*other);
                    stack.push(p);
                }
                enabled[0]
            };
            at += 1;
            trace.push(i);
            let (y0, c0) = {
                let mut d = vfs.d.lock().unwrap();
                d.last = None;
                (d.yields, d.changes)
            };
            let before = vfs.files();
            let acked_before = acked.load(Ordering::Relaxed);
            let ready = match tasks[i].as_mut().unwrap().as_mut().poll(&mut cx) {
                Poll::Ready(()) => true,
                Poll::Pending => false,
            };
            n.trans.fetch_add(1, Ordering::Relaxed);
            if ready {
                tasks[i] = None;
            }
            let (y1, c1, last) = {
                let d = vfs.d.lock().unwrap();
                (d.yields, d.changes, d.last.clone())
            };
            if !ready && y0 == y1 && c0 == c1 {
                stuck[i] = true;
            } else {
                stuck.iter_mut().for_each(|s| *s = false);
            }
            if at < prefix.len() {
                continue;
            }
            // A crash now, and a crash within the step.
            let mut fail = |files: &BTreeMap<String, Vec<u8>>, acked: u64, how: &str| {
                if let Err(e) = recover(kind, files, acked, begun.load(Ordering::Relaxed), n) {
                    c.violation(&format!("{} journal: prior {prior} {acts:?} schedule {trace:?} crash {how}", KINDS[kind as usize]), &e);
                }
            };
            fail(&vfs.files(), acked.load(Ordering::Relaxed), "after the step");
            if let (true, Some((path, was, bytes, true))) = (c1 > c0, last) {
                for k in [1, 4, 8, 9, bytes.len() - 1] {
                    let mut f = before.clone();
                    let mut content = was.clone().unwrap_or_default();
                    content.extend_from_slice(&bytes[..k]);
                    f.insert(path.clone(), content);
                    fail(&f, acked_before, &format!("{k} bytes into it"));
                }
            }
        }
        if tasks.iter().all(|t| t.is_none()) {
            n.traces.fetch_add(1, Ordering::Relaxed);
            if acked.load(Ordering::Relaxed) != begun.load(Ordering::Relaxed) {
                c.violation(&format!("{} journal: prior {prior} {acts:?} schedule {trace:?}", KINDS[kind as usize]), "an operation failed without a fault");
            }
        }
        done.insert(trace);
    }
    c.outcome(&format!("interleavings {}", done.len().next_power_of_two()));
}

/// Messages from other machines, interleaved with local edits and compaction held at its write.
fn remote(c: &Check, rt: &tokio::runtime::Runtime, n: &Counters) {
    #[derive(Clone, Copy, Debug, PartialEq)]
    enum R {
        Local,
        Message,
        Compact,
        Restart,
    }
    let alphabet = [R::Local, R::Message, R::Compact, R::Restart];
    let mut all = vec![];
    mc::words(4, pick(3, 4), &mut |w| all.push(w.iter().map(|i| alphabet[*i]).collect::<Vec<_>>()));
    for (t, ops) in all.iter().enumerate() {
        if c.violation_count() > 20 {
            return;
        }
        let vfs = MemVfs::default();
        let topic = format!("topic-{t}");
        let r: Result<(), String> = rt.block_on(async {
            let settle = || async {
                for _ in 0..40 {
                    tokio::task::yield_now().await;
                }
            };
            let mut generation = 0;
            let mut s = Distributed::<GCounter>::mount(Arc::new(vfs.clone()), PATH, Some(format!("{topic}-{generation}"))).await.map_err(|e| e.to_string())?;
            settle().await;
            let mut want = 0u64;
            for (i, op) in ops.iter().chain([&R::Restart]).enumerate() {
                let bit = 1u64 << i;
                n.trans.fetch_add(1, Ordering::Relaxed);
                match op {
                    R::Local => {
                        s.mutate(move |t| t.increment(bit)).await.map_err(|e| e.to_string())?;
                        want |= bit;
                    }
                    R::Message => {
                        let mut m = GCounter::with_replica_id(1000 + i as u64);
                        m.increment(bit);
                        logicaffeine_system::network::gossip::on_message(&format!("{topic}-{generation}"), bincode::serialize(&m).unwrap()).await;
                        settle().await;
                        want |= bit;
                    }
                    R::Compact => s.compact().await.map_err(|e| e.to_string())?,
                    R::Restart => {
                        generation += 1;
                        // The old process is gone: its disk is copied.
                        let files = vfs.files();
                        vfs.d.lock().unwrap().files = files;
                        s = Distributed::<GCounter>::mount(Arc::new(vfs.clone()), PATH, Some(format!("{topic}-{generation}"))).await.map_err(|e| e.to_string())?;
                        settle().await;
                    }
                }
                let v = s.get().await.value();
                n.states.fetch_add(1, Ordering::Relaxed);
                if v != want {
                    return Err(format!("after {:?} shows {v:b}, want {want:b}", &ops[..i.min(ops.len())]));
                }
            }
            Ok(())
        });
        match r {
            Ok(()) => {
                n.traces.fetch_add(1, Ordering::Relaxed);
            }
            Err(e) => c.violation(&format!("shared journal with messages: {ops:?}"), &e),
        }
    }
}

pub fn run() -> ! {
    let c = Check::new("P05", "model_checking");
    c.assume("replacing a file is atomic and an append that is cut short leaves a prefix of its bytes (the file layer's own promise, checked by P06)");
    let n = Counters { states: AtomicU64::new(0), trans: AtomicU64::new(0), traces: AtomicU64::new(0) };
    // The shared journal asks the network layer for its identity once.
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    rt.block_on(async {
        let _ = logicaffeine_system::network::gossip::local_peer_id().await;
    });
    histories(&c, &n);
    let h = n.traces.load(Ordering::Relaxed);
    c.note("histories with faults", h);
    let acts = [Act::Inc, Act::Compact, Act::IncInc, Act::CompactInc];
    let mut cases = vec![];
    for kind in 0..2u8 {
        for prior in 0..=1u32 {
            for a in 0..4 {
                for b in a..4 {
                    cases.push((kind, prior, vec![acts[a], acts[b]]));
                    for d in b..pick(2, 4) {
                        cases.push((kind, prior, vec![acts[a], acts[b], acts[d]]));
                    }
                }
            }
        }
    }
    mc::par_each(&cases, |(k, p, a)| interleave(&c, *k, *p, a, &n));
    c.note("interleavings", n.traces.load(Ordering::Relaxed) - h);
    remote(&c, &rt, &n);
    c.state(n.states.load(Ordering::Relaxed));
    c.trans(n.trans.load(Ordering::Relaxed));
    c.trace(n.traces.load(Ordering::Relaxed));
    c.finish()
}
