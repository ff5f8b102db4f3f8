mod model;
use logicaffeine_runtime::*;
use mc::{pick, Check};
use model::*;
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::rc::Rc;
use std::sync::{Arc, Mutex};

// ------------------------------------------------------------ scripted tasks

#[derive(Clone, Debug, PartialEq)]
struct Polled {
    task: usize,
    /// What the task was resumed with.
    got: V,
    arm: Option<usize>,
    /// Index of the operation it asks for now; None when it exits.
    op: Option<usize>,
}
type Log = Rc<RefCell<Vec<Polled>>>;

fn v_of(p: &RtPayload) -> V {
    match p {
        RtPayload::Int(i) => V::Int(*i),
        RtPayload::Bool(b) => V::Bool(*b),
        RtPayload::Nothing => V::Nothing,
        other => panic!("unexpected payload {other:?}"),
    }
}

fn val(task: usize, pc: usize) -> i64 {
    (task * 100 + pc) as i64
}

struct Script {
    me: usize,
    ops: Vec<Op>,
    pc: usize,
    chans: Vec<ChanId>,
    tasks: Rc<RefCell<Vec<TaskId>>>,
    log: Log,
    prio: u8,
}
fn request<'t>(op: &Op, me: usize, pc: usize, chans: &[ChanId], tasks: &[TaskId]) -> TaskStep<'t> {
    match op {
        Op::Yield => TaskStep::Yield,
        Op::Send(c) => TaskStep::Send(chans[*c], RtPayload::Int(val(me, pc))),
        Op::TrySend(c) => TaskStep::TrySend(chans[*c], RtPayload::Int(val(me, pc))),
        Op::Recv(c) => TaskStep::Recv(chans[*c]),
        Op::TryRecv(c) => TaskStep::TryRecv(chans[*c]),
        Op::Close(c) => TaskStep::Close(chans[*c]),
        Op::Sleep(d) => TaskStep::Sleep(*d),
        Op::Select(arms) => TaskStep::Select(
            arms.iter()
                .map(|a| match a {
                    Arm::Recv(c) => SelectArm::Recv(chans[*c]),
                    Arm::After(d) => SelectArm::Timeout(*d),
                })
                .collect(),
        ),
        Op::Await(t) => TaskStep::Await(tasks[*t]),
        Op::Abort(t) => TaskStep::Abort(tasks[*t]),
    }
}
impl<'t> Task<'t> for Script {
    fn poll(&mut self, ctx: &mut TaskCtx) -> TaskStep<'t> {
        let op = if self.pc < self.ops.len() { Some(self.pc) } else { None };
        self.log.borrow_mut().push(Polled { task: self.me, got: v_of(&ctx.resumed_with), arm: ctx.selected_arm, op });
        match op {
            None => TaskStep::Exit(RtPayload::Int(val(self.me, 99))),
            Some(i) => {
                self.pc += 1;
                request(&self.ops[i], self.me, i, &self.chans, &self.tasks.borrow())
            }
        }
    }
    fn priority(&self) -> u8 {
        self.prio
    }
}

#[derive(Clone, Debug)]
struct Prog {
    caps: Vec<Option<usize>>,
    scripts: Vec<Vec<Op>>,
    prio: Vec<u8>,
}

fn show(p: &Prog) -> String {
    format!("capacities {:?} scripts {:?} priorities {:?}", p.caps, p.scripts, p.prio)
}

fn setup<'t>(s: &mut Scheduler<'t>, p: &Prog, log: &Log) -> (Vec<ChanId>, Vec<TaskId>) {
    let chans: Vec<ChanId> = p.caps.iter().map(|c| s.new_chan(*c)).collect();
    let tasks = Rc::new(RefCell::new(vec![]));
    for (i, ops) in p.scripts.iter().enumerate() {
        let body = Box::new(Script { me: i, ops: ops.clone(), pc: 0, chans: chans.clone(), tasks: tasks.clone(), log: log.clone(), prio: p.prio[i] });
        let id = if i == 0 { s.spawn_main(body) } else { s.spawn(body) };
        tasks.borrow_mut().push(id);
    }
    let t = tasks.borrow().clone();
    (chans, t)
}

fn kind(k: TaskStateKind) -> Option<St> {
    Some(match k {
        TaskStateKind::Ready => St::Ready,
        TaskStateKind::BlockedRecv => St::Recv,
        TaskStateKind::BlockedSend => St::Send,
        TaskStateKind::BlockedSelect => St::Select,
        TaskStateKind::BlockedTimer => St::Timer,
        TaskStateKind::BlockedAwait => St::Await,
        TaskStateKind::Done => St::Done,
        TaskStateKind::BlockedIo => return None,
    })
}

fn matches(m: &M, s: &SchedSnapshot, chans: &[ChanId], tasks: &[TaskId]) -> bool {
    m.clock == s.clock
        && m.ready.iter().map(|g| g.len()).sum::<usize>() == s.ready_len
        && s.tasks.len() == tasks.len()
        && s.channels.len() == chans.len()
        && tasks.iter().enumerate().all(|(i, id)| {
            s.tasks.iter().any(|t| t.id == *id && kind(t.kind) == Some(m.tasks[i].st) && t.is_main == (i == 0))
        })
        && chans.iter().enumerate().all(|(i, id)| {
            s.channels.iter().any(|c| {
                let k = &m.chans[i];
                c.id == *id && c.depth == k.queue.len() && c.capacity == k.cap && c.blocked_senders == k.senders.len() && c.closed == k.closed
                    // Several arms of one select may name the channel, so presence is what counts.
                    && (c.blocked_receivers > 0) == !k.receivers.is_empty() && c.blocked_receivers >= k.receivers.len()
            })
        })
}

fn allowed(policy: SchedulePolicy, m: &M, p: &Prog, t: usize) -> bool {
    match policy {
        SchedulePolicy::Fifo | SchedulePolicy::RoundRobin => m.ready.first().map_or(false, |g| g.contains(&t)),
        SchedulePolicy::Lifo => m.ready.last().map_or(false, |g| g.contains(&t)),
        SchedulePolicy::Random => m.ready.iter().any(|g| g.contains(&t)),
        SchedulePolicy::Priority => {
            let best = m.ready.iter().flatten().map(|x| p.prio[*x]).max().unwrap_or(0);
            let g = m.ready.iter().find(|g| g.iter().any(|x| p.prio[*x] == best));
            p.prio[t] == best && g.map_or(false, |g| g.contains(&t))
        }
    }
}

struct Need {
    kind: ChoiceKind,
    options: usize,
}

struct Run {
    outcome: String,
    log: Vec<Polled>,
    polls: u64,
}

/// Runs the program along `trace`, in lockstep with the model.
/// Err(Ok(need)): the trace ended at a decision. Err(Err(text)): the run left the model.
fn run(p: &Prog, policy: SchedulePolicy, trace: &[ChoicePoint], seen: &mut BTreeSet<u64>) -> Result<Run, Result<Need, String>> {
    let log: Log = Rc::new(RefCell::new(vec![]));
    let cfg = SchedulerConfig::default().with_policy(policy);
    let mut s = Scheduler::new(cfg, Chooser::replay(SchedTrace { seed: SchedSeed(0), choices: trace.to_vec() }));
    let (chans, tasks) = setup(&mut s, p, &log);
    let mut ms = vec![M::new(&p.caps, p.scripts.len())];
    let mut polls = 0;
    loop {
        let before = log.borrow().len();
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.poll_once()));
        let res = match res {
            Ok(r) => r,
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
                return Err(match parse_need(&m) {
                    Some(n) => Ok(n),
                    None => Err(format!("panic: {m}")),
                });
            }
        };
        polls += 1;
        let l = log.borrow();
        if let Some(out) = res {
            let ok = ms.iter().any(|m| {
                !m.any_ready()
                    && m.timers.is_empty()
                    && match &out {
                        RunOutcome::Done(v) => m.tasks.iter().all(|t| t.st == St::Done) && m.tasks[0].result == Some(v_of(v)) || {
                            // The main task was aborted: nothing to report.
                            m.tasks.iter().all(|t| t.st == St::Done) && m.tasks[0].result == Some(V::Nothing) && *v == RtPayload::Nothing
                        },
                        RunOutcome::Deadlock => m.tasks.iter().any(|t| t.st != St::Done),
                        RunOutcome::WaitingForIo => false,
                    }
            });
            if !ok {
                return Err(Err(format!("ended with {out:?}, model {:?}", ms.first())));
            }
            return Ok(Run { outcome: match out { RunOutcome::Done(_) => "done".into(), o => format!("{o:?}") }, log: l.clone(), polls });
        }
        let next: Vec<M> = if l.len() > before {
            if l.len() != before + 1 {
                return Err(Err("one step polled several tasks".into()));
            }
            let e = &l[before];
            let mut n = vec![];
            for m in &ms {
                if m.tasks[e.task].st != St::Ready || m.tasks[e.task].resume != e.got || m.tasks[e.task].arm != e.arm || !allowed(policy, m, p, e.task) {
                    continue;
                }
                let mut m = m.clone();
                m.pop_ready(e.task);
                let op = e.op.map(|i| &p.scripts[e.task][i]);
                n.extend(m.step(e.task, op, val(e.task, e.op.unwrap_or(99))));
            }
            if n.is_empty() {
                return Err(Err(format!("task {} resumed with {:?} arm {:?}, model {:?}", e.task, e.got, e.arm, ms.first())));
            }
            n
        } else {
            let n: Vec<M> = ms.iter().filter(|m| !m.any_ready() && !m.timers.is_empty()).cloned().flat_map(|m| m.advance()).collect();
            if n.is_empty() {
                return Err(Err(format!("time passed without need, model {:?}", ms.first())));
            }
            n
        };
        let snap = s.snapshot();
        let mut kept: Vec<M> = next.iter().filter(|m| matches(m, &snap, &chans, &tasks)).cloned().collect();
        if kept.is_empty() {
            return Err(Err(format!("after {:?}: scheduler shows {snap:?}, model {:?}", l.last(), next.first())));
        }
        kept.dedup();
        for m in &kept {
            seen.insert(mc::hash64(&(p.scripts.clone(), p.caps.clone(), m)));
        }
        ms = kept;
        if polls > 200 {
            return Err(Err("no end after 200 steps".into()));
        }
    }
}

fn parse_need(m: &str) -> Option<Need> {
    if !m.contains("ran out") {
        return None;
    }
    let kind = [
        ("TaskPick", ChoiceKind::TaskPick),
        ("SelectWinner", ChoiceKind::SelectWinner),
        ("ChanWaiterWake", ChoiceKind::ChanWaiterWake),
        ("TimerTieBreak", ChoiceKind::TimerTieBreak),
        ("WorkerPlacement", ChoiceKind::WorkerPlacement),
    ]
    .into_iter()
    .find(|(n, _)| m.contains(n))?
    .1;
    let nums: Vec<usize> = m.split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect();
    Some(Need { kind, options: *nums.last()? })
}

struct Tally {
    states: u64,
    transitions: u64,
    schedules: u64,
    outcomes: std::collections::BTreeMap<String, u64>,
}

/// Every schedule of the program under the policy.
fn schedules(c: &Check, p: &Prog, policy: SchedulePolicy, t: &mut Tally) {
    let mut stack: Vec<Vec<ChoicePoint>> = vec![vec![]];
    let mut seen = BTreeSet::new();
    while let Some(tr) = stack.pop() {
        match run(p, policy, &tr, &mut seen) {
            Ok(r) => {
                t.schedules += 1;
                t.transitions += r.polls;
                *t.outcomes.entry(format!("{policy:?}: {}", r.outcome)).or_insert(0) += 1;
                if c.want_sample() && r.log.len() > 6 {
                    c.sample(format!("{policy:?} {} -> {}", show(p), r.outcome));
                }
            }
            Err(Ok(n)) => {
                for k in (0..n.options).rev() {
                    let mut x = tr.clone();
                    x.push(ChoicePoint { kind: n.kind, options: n.options, chosen: k });
                    stack.push(x);
                }
            }
            Err(Err(e)) => {
                let choices: Vec<usize> = tr.iter().map(|x| x.chosen).collect();
                c.violation(&format!("{policy:?}:{}:{choices:?}", show(p)), &format!("{policy:?} {}\nchoices {choices:?}\n{e}", show(p)));
                if c.violation_count() > 50 {
                    return;
                }
            }
        }
    }
    t.states += seen.len() as u64;
}

fn alphabet(tasks: usize, chans: usize, me: usize) -> Vec<Op> {
    let mut a = vec![Op::Yield];
    for c in 0..chans {
        a.extend([Op::Send(c), Op::TrySend(c), Op::Recv(c), Op::TryRecv(c), Op::Close(c)]);
    }
    a.push(Op::Sleep(1));
    a.push(Op::Sleep(2));
    a.push(Op::Select(vec![Arm::Recv(0), Arm::After(1)]));
    if chans > 1 {
        a.push(Op::Select(vec![Arm::Recv(1), Arm::Recv(0)]));
        a.push(Op::Select(vec![Arm::Recv(0), Arm::Recv(1), Arm::After(2), Arm::After(2)]));
    } else {
        a.push(Op::Select(vec![Arm::Recv(0), Arm::Recv(0)]));
        a.push(Op::Select(vec![Arm::After(1), Arm::Recv(0), Arm::After(1)]));
    }
    for t in 0..tasks {
        a.push(Op::Abort(t));
        if t != me {
            a.push(Op::Await(t));
        }
    }
    a
}

/// Calls `f` with every tuple of scripts of the given lengths.
fn programs(lens: &[usize], chans: usize, f: &(dyn Fn(Vec<Vec<Op>>) + Sync)) {
    let tasks = lens.len();
    let alpha: Vec<Vec<Op>> = (0..tasks).map(|t| alphabet(tasks, chans, t)).collect();
    let slots: Vec<usize> = lens.iter().enumerate().flat_map(|(t, n)| std::iter::repeat(t).take(*n)).collect();
    let total: usize = slots.iter().map(|t| alpha[*t].len()).product();
    mc::par_for(total, |mut n| {
        let mut scripts: Vec<Vec<Op>> = vec![vec![]; tasks];
        for t in &slots {
            let k = alpha[*t].len();
            scripts[*t].push(alpha[*t][n % k].clone());
            n /= k;
        }
        f(scripts);
    });
}

fn silence() {
    std::panic::set_hook(Box::new(|_| {}));
}

fn p03() {
    let c = Check::new("P03", "model_checking");
    silence();
    let tally = Mutex::new(Tally { states: 0, transitions: 0, schedules: 0, outcomes: Default::default() });
    let go = |lens: &[usize], caps: &[Vec<Option<usize>>], policies: &[SchedulePolicy]| {
        for cp in caps {
            for pol in policies {
                programs(lens, cp.len(), &|scripts| {
                    let n = scripts.len();
                    let p = Prog { caps: cp.clone(), prio: (0..n).map(|i| [1, 2, 1][i % 3]).collect(), scripts };
                    let mut t = Tally { states: 0, transitions: 0, schedules: 0, outcomes: Default::default() };
                    schedules(&c, &p, *pol, &mut t);
                    let mut g = tally.lock().unwrap();
                    g.states += t.states;
                    g.transitions += t.transitions;
                    g.schedules += t.schedules;
                    for (k, v) in t.outcomes {
                        *g.outcomes.entry(k).or_insert(0) += v;
                    }
                });
            }
        }
    };
    use SchedulePolicy::*;
    let one = [vec![Some(0)], vec![Some(1)], vec![None]];
    let all = [Fifo, Lifo, RoundRobin, Random, Priority];
    // Every program of up to 4 operations over one channel, every policy, every schedule.
    for lens in [[1, 1], [2, 1], [1, 2], [2, 2], [3, 1], [1, 3]] {
        go(&lens, &one, &all);
    }
    go(&[1, 1, 1], &one, &all);
    go(&[1, 1], &[vec![Some(0), Some(1)], vec![Some(1), Some(2)]], &all);
    go(&[2, 1], &[vec![Some(0), Some(1)]], &all);
    if mc::tier() == mc::Tier::Thorough {
        go(&[2, 1, 1], &one, &all);
        go(&[1, 1, 2], &one, &all);
        go(&[2, 2], &[vec![Some(0), Some(1)], vec![Some(1), Some(2)]], &all);
        go(&[3, 2], &[vec![Some(1)]], &[Fifo, Random]);
    }
    let chat = scenarios();
    for p in &chat {
        for pol in all {
            let mut t = Tally { states: 0, transitions: 0, schedules: 0, outcomes: Default::default() };
            schedules(&c, p, pol, &mut t);
            let mut g = tally.lock().unwrap();
            g.states += t.states;
            g.transitions += t.transitions;
            g.schedules += t.schedules;
            for (k, v) in t.outcomes {
                *g.outcomes.entry(k).or_insert(0) += v;
            }
        }
    }
    let g = tally.into_inner().unwrap();
    c.state(g.states);
    c.trans(g.transitions);
    c.trace(g.schedules);
    for (k, v) in g.outcomes {
        c.outcome_n(&k, v);
    }
    c.finish()
}

/// Longer programs of a few shapes, over channel capacities: pipelines, fan-in, fan-out,
/// timeouts racing messages, aborts of blocked tasks.
fn scenarios() -> Vec<Prog> {
    let mut v = vec![];
    for a in [Some(0), Some(1), Some(2)] {
        for b in [Some(0), Some(1)] {
            let s = |scripts: Vec<Vec<Op>>| Prog { caps: vec![a, b], prio: vec![2, 1, 1, 3][..scripts.len()].to_vec(), scripts };
            use Op::*;
            let r = Arm::Recv;
            // Pipeline of three.
            v.push(s(vec![vec![Recv(1), Recv(1)], vec![Send(0), Send(0), Close(0)], vec![Recv(0), Send(1), Recv(0), Send(1)]]));
            // Fan-in of two producers.
            v.push(s(vec![vec![Recv(0), Recv(0), Recv(0), TryRecv(0)], vec![Send(0), Send(0)], vec![Send(0)]]));
            // Fan-out to two consumers, one through a select.
            v.push(s(vec![vec![Send(0), Send(1), Close(0), Close(1)], vec![Select(vec![r(0), r(1)]), Recv(0)], vec![Recv(1)]]));
            // Timeout against a sleeping producer.
            v.push(s(vec![vec![Select(vec![r(0), Arm::After(2)]), TryRecv(0)], vec![Sleep(2), TrySend(0)], vec![Sleep(1), Yield]]));
            // Aborting a blocked sender and a blocked receiver, with an awaiter.
            v.push(s(vec![vec![Yield, Abort(1), Await(1), TryRecv(0)], vec![Send(0), Send(0), Send(0)], vec![Await(1), Recv(1)]]));
            v.push(s(vec![vec![Abort(2), Send(1), Await(1)], vec![Recv(1), Await(2)], vec![Select(vec![r(0), r(1), Arm::After(5)])]]));
        }
    }
    v
}

// ------------------------------------------------------ determinism and drivers

fn record(p: &Prog, policy: SchedulePolicy, seed: u64, slice: usize) -> Result<(String, Vec<Polled>, SchedTrace), String> {
    mc::guard(|| {
        let log: Log = Rc::new(RefCell::new(vec![]));
        let mut s = Scheduler::new(SchedulerConfig::default().with_policy(policy), Chooser::record(SchedSeed(seed)));
        setup(&mut s, p, &log);
        let out = if slice == 0 {
            s.run()
        } else {
            let mut n = 0;
            loop {
                if let Some(o) = s.run_slice(slice) {
                    break o;
                }
                n += 1;
                if n > 1000 {
                    panic!("no end");
                }
            }
        };
        let l = log.borrow().clone();
        (format!("{out:?}"), l, s.into_trace())
    })
}
fn replay(p: &Prog, policy: SchedulePolicy, tr: &SchedTrace) -> Result<(String, Vec<Polled>), String> {
    mc::guard(|| {
        let log: Log = Rc::new(RefCell::new(vec![]));
        let l2 = log.clone();
        let out = run_with_trace(SchedulerConfig::default().with_policy(policy), tr.clone(), |s| {
            setup(s, p, &l2);
        });
        let l = log.borrow().clone();
        (format!("{out:?}"), l)
    })
}

/// The body used by the work-stealing driver: the main task creates the channels, spawns the
/// other scripts, then runs its own; every slice reports a line of output. A child knows the
/// channels and the tasks spawned before it; the main task knows all.
struct WsBody {
    me: usize,
    pc: usize,
    prog: Arc<Prog>,
    chans: Vec<ChanId>,
    tasks: Vec<Option<TaskId>>,
    out: Vec<String>,
    /// Delay of each slice, to steer the order in which workers finish.
    delay_us: u64,
}
impl WsBody {
    fn main(prog: Arc<Prog>, delay_us: u64) -> Self {
        let n = prog.scripts.len();
        WsBody { me: 0, pc: 0, prog, chans: vec![], tasks: vec![None; n], out: vec![], delay_us }
    }
    fn child(prog: Arc<Prog>, me: usize, args: &[RtPayload], delay_us: u64) -> Self {
        let ids: Vec<u64> = args.iter().map(|a| match a { RtPayload::Int(i) => *i as u64, x => panic!("argument {x:?}") }).collect();
        let nc = prog.caps.len();
        let mut tasks = vec![None; prog.scripts.len()];
        for (k, id) in ids[nc..].iter().enumerate() {
            tasks[k + 1] = Some(TaskId(*id));
        }
        WsBody { me, pc: 0, chans: ids[..nc].iter().map(|i| ChanId(*i)).collect(), tasks, prog, out: vec![], delay_us }
    }
    fn step<'t>(&mut self, ctx: &mut TaskCtx) -> TaskStep<'t> {
        if self.delay_us > 0 {
            std::thread::sleep(std::time::Duration::from_micros(self.delay_us));
        }
        if let Some(ch) = ctx.new_chan {
            self.chans.push(ch);
        }
        if self.me == 0 {
            let mut known = self.tasks.iter().filter(|t| t.is_some()).count();
            if let Some(t) = ctx.spawned {
                self.tasks[known + 1] = Some(t);
                known += 1;
            }
            if self.chans.len() < self.prog.caps.len() {
                return TaskStep::NewChan(self.prog.caps[self.chans.len()]);
            }
            if known + 1 < self.prog.scripts.len() {
                let ids = self.chans.iter().map(|c| c.0).chain(self.tasks.iter().flatten().map(|t| t.0));
                return TaskStep::SpawnDesc { func: (known + 1) as u16, args: ids.map(|i| RtPayload::Int(i as i64)).collect(), want_handle: true };
            }
        }
        self.out.push(format!("t{} {:?} {:?}", self.me, v_of(&ctx.resumed_with), ctx.selected_arm));
        let i = self.pc;
        let op = match self.prog.scripts[self.me].get(i) {
            None => return TaskStep::Exit(RtPayload::Int(val(self.me, 99))),
            Some(op) => op.clone(),
        };
        self.pc += 1;
        match &op {
            // A task whose handle is not known cannot be named.
            Op::Await(t) | Op::Abort(t) if self.tasks[*t].is_none() => TaskStep::Yield,
            op => {
                let ids: Vec<TaskId> = self.tasks.iter().map(|t| t.unwrap_or(TaskId(u64::MAX))).collect();
                request(op, self.me, i, &self.chans, &ids)
            }
        }
    }
}
impl<'t> Task<'t> for WsBody {
    fn poll(&mut self, ctx: &mut TaskCtx) -> TaskStep<'t> {
        self.step(ctx)
    }
    fn take_output(&mut self) -> Vec<String> {
        std::mem::take(&mut self.out)
    }
}

/// The same body for the cooperative driver: prints at once, spawns children as bodies.
struct Printing(WsBody, Rc<RefCell<Vec<String>>>);
impl<'t> Task<'t> for Printing {
    fn poll(&mut self, ctx: &mut TaskCtx) -> TaskStep<'t> {
        let step = self.0.step(ctx);
        self.1.borrow_mut().append(&mut self.0.out);
        match step {
            TaskStep::SpawnDesc { func, args, .. } => TaskStep::Spawn(Box::new(Printing(WsBody::child(self.0.prog.clone(), func as usize, &args, 0), self.1.clone()))),
            s => s,
        }
    }
}

type Obs = (String, Vec<String>, Vec<ChoicePoint>);

fn cooperative(p: &Prog, policy: SchedulePolicy, seed: u64) -> Result<Obs, String> {
    mc::guard(|| {
        let out = Rc::new(RefCell::new(vec![]));
        let mut s = Scheduler::new(SchedulerConfig::default().with_policy(policy), Chooser::record(SchedSeed(seed)));
        s.spawn_main(Box::new(Printing(WsBody::main(Arc::new(p.clone()), 0), out.clone())));
        let o = s.run();
        let lines = out.borrow().clone();
        (format!("{o:?}"), lines, s.into_trace().choices)
    })
}
fn stealing(p: &Prog, policy: SchedulePolicy, seed: u64, workers: usize, delay: &[u64]) -> Result<Obs, String> {
    let (tx, rx) = std::sync::mpsc::channel();
    let (p, delay) = (Arc::new(p.clone()), delay.to_vec());
    std::thread::spawn(move || {
        let r = mc::guard(|| {
            let w = run_workstealing_seeded(
                SchedulerConfig::default().with_policy(policy).with_workers(workers),
                SchedSeed(seed),
                SpawnDesc { func: 0, args: vec![], priority: 0, is_main: true },
                |d: SpawnDesc| {
                    let me = d.func as usize;
                    Box::new(if me == 0 { WsBody::main(p.clone(), delay[0]) } else { WsBody::child(p.clone(), me, &d.args, delay[me]) }) as Box<dyn Task>
                },
            );
            (format!("{:?}", w.outcome), w.output, w.trace.choices)
        });
        let _ = tx.send(r);
    });
    // A run takes well under a second; one that has not ended by now never will.
    rx.recv_timeout(std::time::Duration::from_secs(30)).unwrap_or_else(|_| Err("did not end".into()))
}

fn p04() {
    let c = Check::new("P04", "model_checking");
    silence();
    use SchedulePolicy::*;
    let all = [Fifo, Lifo, RoundRobin, Random, Priority];
    let count = Mutex::new((0u64, 0u64, 0u64));
    let distinct: Mutex<BTreeSet<u64>> = Mutex::new(BTreeSet::new());
    // Recording, replaying and slicing, under every policy.
    let det = |p: &Prog| {
        let mut local = (0u64, 0u64, 0u64);
        for pol in all {
            for seed in 0..pick(3, 8) {
                let r = record(p, pol, seed, 0);
                let key = |w: &str| format!("{w}:{pol:?}:{seed}:{}", show(p));
                let (o, l, tr) = match r {
                    Ok(x) => x,
                    Err(e) => {
                        c.violation(&key("panic"), &format!("{} panicked: {e}", show(p)));
                        continue;
                    }
                };
                local.0 += 1;
                local.1 += l.len() as u64;
                distinct.lock().unwrap().insert(mc::hash64(&format!("{}{o}{l:?}", show(p))));
                for slice in [0, 1, 3] {
                    let again = record(p, pol, seed, slice);
                    local.2 += 1;
                    if again.as_ref().ok().map(|x| (&x.0, &x.1, &x.2.choices)) != Some((&o, &l, &tr.choices)) {
                        c.violation(&key("rerun"), &format!("{}\nrun with seed {seed} in slices of {slice} differs: {:?} vs {:?}", show(p), again.map(|x| x.1), l));
                    }
                }
                let rep = replay(p, pol, &tr);
                local.2 += 1;
                if rep.as_ref().ok() != Some(&(o.clone(), l.clone())) {
                    c.violation(&key("replay"), &format!("{}\nreplay of {:?} differs: {:?} vs {:?}", show(p), tr.choices, rep, (o, l)));
                }
            }
        }
        let mut g = count.lock().unwrap();
        g.0 += local.0;
        g.1 += local.1;
        g.2 += local.2;
    };
    let caps = [vec![Some(0)], vec![Some(1)]];
    for cp in &caps {
        for lens in [[1, 1], [2, 1], [1, 2]] {
            programs(&lens, 1, &|scripts| det(&Prog { caps: cp.clone(), prio: vec![1, 2], scripts }));
        }
    }
    if mc::tier() == mc::Tier::Thorough {
        programs(&[2, 2], 1, &|scripts| det(&Prog { caps: vec![Some(1)], prio: vec![1, 2], scripts }));
        programs(&[1, 1, 1], 1, &|scripts| det(&Prog { caps: vec![Some(1)], prio: vec![1, 2, 1], scripts }));
    }
    for p in scenarios() {
        det(&p);
    }
    let g = *count.lock().unwrap();
    c.outcome_n("recorded runs", g.0);
    c.outcome_n("re-runs, slicings and replays compared", g.2);

    // The work-stealing driver against the cooperative one.
    let ws_runs = std::sync::atomic::AtomicU64::new(0);
    let ws = |p: &Prog, workers: &[usize], delays: &[Vec<u64>]| {
        if c.violation_count() >= 20 {
            return;
        }
        let seed = 1;
        for pol in [Fifo, RoundRobin] {
            let want = cooperative(p, pol, seed);
            for w in workers {
                for d in delays {
                    let got = stealing(p, pol, seed, *w, d);
                    ws_runs.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    if got != want && c.violation_count() < 40 {
                        c.violation(
                            &format!("workers:{pol:?}:{w}:{d:?}:{}", show(p)),
                            &format!("{}\n{pol:?}, {w} workers, slice delays {d:?}\ncooperative {want:?}\nwork-stealing {got:?}", show(p)),
                        );
                    }
                }
            }
        }
    };
    let none = |n: usize| vec![vec![0u64; n]];
    programs(&[1, 1], 1, &|scripts| ws(&Prog { caps: vec![Some(1)], prio: vec![0, 0], scripts }, &[1, 2, 3], &none(2)));
    programs(&[2, 1], 1, &|scripts| ws(&Prog { caps: vec![Some(0)], prio: vec![0, 0], scripts }, &[2], &none(2)));
    programs(&[1, 1, 1], 1, &|scripts| ws(&Prog { caps: vec![Some(1)], prio: vec![0, 0, 0], scripts }, &[3], &none(3)));
    if mc::tier() == mc::Tier::Thorough {
        programs(&[1, 2], 1, &|scripts| ws(&Prog { caps: vec![Some(1)], prio: vec![0, 0], scripts }, &[1, 2, 3], &none(2)));
        programs(&[2, 2], 1, &|scripts| ws(&Prog { caps: vec![Some(1)], prio: vec![0, 0], scripts }, &[2], &none(2)));
    }
    // Every relative speed order of the tasks.
    let perms: Vec<Vec<u64>> = mc::permutations(3).into_iter().map(|p| p.into_iter().map(|x| x as u64 * 300).collect()).collect();
    let sc = scenarios();
    mc::par_each(&sc, |p| {
        let mut q = p.clone();
        q.prio = vec![0; p.scripts.len()];
        ws(&q, &[1, 2, 3, 4], &perms)
    });
    let n = ws_runs.into_inner();
    c.outcome_n("work-stealing runs compared", n);
    c.state(distinct.lock().unwrap().len() as u64);
    c.trans(g.1);
    c.trace(g.2 + n);
    c.assume("slice speeds steer the order in which workers report; the operating system's own scheduling is not controlled");
    c.finish()
}

fn main() {
    match std::env::args().nth(1).as_deref() {
        Some("P03") => p03(),
        Some("P04") => p04(),
        x => {
            eprintln!("unknown check {x:?}");
            std::process::exit(2)
        }
    }
}
