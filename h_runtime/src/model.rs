//! Reference model of the scheduler: channels, selects, timers, awaiting and aborting, with
//! the remaining freedom (which ready arm wins, order of simultaneous wake-ups) left open.
//! A run of the real scheduler is accepted if some resolution of that freedom explains it.
use std::collections::VecDeque;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Arm {
    Recv(usize),
    After(u64),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Yield,
    Send(usize),
    TrySend(usize),
    Recv(usize),
    TryRecv(usize),
    Close(usize),
    Sleep(u64),
    Select(Vec<Arm>),
    Await(usize),
    Abort(usize),
}

/// A value as the scripts see it.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum V {
    Nothing,
    Int(i64),
    Bool(bool),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum St {
    Ready,
    Recv,
    Send,
    Select,
    Timer,
    Await,
    Done,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Chan {
    pub cap: Option<usize>,
    pub queue: VecDeque<i64>,
    pub senders: VecDeque<(usize, i64)>,
    pub receivers: VecDeque<usize>,
    pub closed: bool,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct TaskM {
    pub st: St,
    pub resume: V,
    pub arm: Option<usize>,
    pub select: Vec<Arm>,
    pub result: Option<V>,
    pub awaiters: Vec<usize>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct M {
    pub tasks: Vec<TaskM>,
    pub chans: Vec<Chan>,
    pub timers: Vec<(u64, usize, Option<usize>)>,
    pub clock: u64,
    /// Ready tasks in order of becoming ready; one group per step.
    pub ready: Vec<Vec<usize>>,
}

impl M {
    pub fn new(caps: &[Option<usize>], tasks: usize) -> M {
        M {
            tasks: (0..tasks)
                .map(|_| TaskM { st: St::Ready, resume: V::Nothing, arm: None, select: vec![], result: None, awaiters: vec![] })
                .collect(),
            chans: caps
                .iter()
                .map(|c| Chan { cap: *c, queue: VecDeque::new(), senders: VecDeque::new(), receivers: VecDeque::new(), closed: false })
                .collect(),
            timers: vec![],
            clock: 0,
            ready: (0..tasks).map(|t| vec![t]).collect(),
        }
    }
    fn wake(&mut self, t: usize, v: V, arm: Option<usize>) {
        // Whatever the task was waiting for is over.
        for c in &mut self.chans {
            c.receivers.retain(|x| *x != t);
        }
        self.timers.retain(|x| x.1 != t);
        let k = &mut self.tasks[t];
        k.st = St::Ready;
        k.resume = v;
        k.arm = arm;
        k.select = vec![];
        self.ready.last_mut().unwrap().push(t);
    }
    fn give(&mut self, r: usize, c: usize, v: V) {
        let arm = self.tasks[r].select.iter().position(|a| *a == Arm::Recv(c));
        self.wake(r, v, arm);
    }
    fn room(&self, c: usize) -> bool {
        self.chans[c].cap.map_or(true, |n| self.chans[c].queue.len() < n)
    }
    /// Takes the next value of a channel, letting the longest-waiting sender in.
    fn take(&mut self, c: usize) -> Option<V> {
        if let Some(v) = self.chans[c].queue.pop_front() {
            if self.room(c) {
                if let Some((s, w)) = self.chans[c].senders.pop_front() {
                    self.chans[c].queue.push_back(w);
                    self.wake(s, V::Nothing, None);
                }
            }
            return Some(V::Int(v));
        }
        if let Some((s, w)) = self.chans[c].senders.pop_front() {
            self.wake(s, V::Nothing, None);
            return Some(V::Int(w));
        }
        if self.chans[c].closed {
            return Some(V::Nothing);
        }
        None
    }
    fn finish(&mut self, t: usize, v: V) {
        self.tasks[t].st = St::Done;
        self.tasks[t].result = Some(v);
        for w in std::mem::take(&mut self.tasks[t].awaiters) {
            self.wake(w, v, None);
        }
    }
    pub fn any_ready(&self) -> bool {
        self.ready.iter().any(|g| !g.is_empty())
    }
    /// Removes `t` from the ready groups for polling.
    pub fn pop_ready(&mut self, t: usize) {
        for g in &mut self.ready {
            g.retain(|x| *x != t);
        }
        self.ready.retain(|g| !g.is_empty());
    }

    /// The possible states after task `t` asks for `op` (None: it exits with `val`).
    pub fn step(mut self, t: usize, op: Option<&Op>, val: i64) -> Vec<M> {
        self.ready.push(vec![]);
        self.tasks[t].resume = V::Nothing;
        self.tasks[t].arm = None;
        match op {
            None => self.finish(t, V::Int(val)),
            Some(Op::Yield) => self.wake(t, V::Nothing, None),
            Some(Op::Send(c)) => {
                if let Some(r) = self.chans[*c].receivers.front().copied() {
                    self.give(r, *c, V::Int(val));
                    self.wake(t, V::Nothing, None);
                } else if self.room(*c) {
                    self.chans[*c].queue.push_back(val);
                    self.wake(t, V::Nothing, None);
                } else {
                    self.chans[*c].senders.push_back((t, val));
                    self.tasks[t].st = St::Send;
                }
            }
            Some(Op::TrySend(c)) => {
                if let Some(r) = self.chans[*c].receivers.front().copied() {
                    self.give(r, *c, V::Int(val));
                    self.wake(t, V::Bool(true), None);
                } else if self.room(*c) {
                    self.chans[*c].queue.push_back(val);
                    self.wake(t, V::Bool(true), None);
                } else {
                    self.wake(t, V::Bool(false), None);
                }
            }
            Some(Op::Recv(c)) => match self.take(*c) {
                Some(v) => self.wake(t, v, None),
                None => {
                    self.chans[*c].receivers.push_back(t);
                    self.tasks[t].st = St::Recv;
                }
            },
            Some(Op::TryRecv(c)) => {
                let v = self.take(*c).unwrap_or(V::Nothing);
                self.wake(t, v, None);
            }
            Some(Op::Close(c)) => {
                self.chans[*c].closed = true;
                while let Some(r) = self.chans[*c].receivers.front().copied() {
                    self.give(r, *c, V::Nothing);
                }
                self.wake(t, V::Nothing, None);
            }
            Some(Op::Sleep(d)) => {
                self.timers.push((self.clock + d, t, None));
                self.tasks[t].st = St::Timer;
            }
            Some(Op::Select(arms)) => {
                let can: Vec<(usize, usize)> = arms
                    .iter()
                    .enumerate()
                    .filter_map(|(i, a)| match a {
                        Arm::Recv(c) if !self.chans[*c].queue.is_empty() || !self.chans[*c].senders.is_empty() || self.chans[*c].closed => Some((i, *c)),
                        _ => None,
                    })
                    .collect();
                if !can.is_empty() {
                    return can
                        .into_iter()
                        .map(|(i, c)| {
                            let mut m = self.clone();
                            let v = m.take(c).unwrap();
                            m.wake(t, v, Some(i));
                            m.tidy();
                            m
                        })
                        .collect();
                }
                for (i, a) in arms.iter().enumerate() {
                    match a {
                        Arm::Recv(c) => {
                            if !self.chans[*c].receivers.contains(&t) {
                                self.chans[*c].receivers.push_back(t)
                            }
                        }
                        Arm::After(d) => self.timers.push((self.clock + d, t, Some(i))),
                    }
                }
                self.tasks[t].select = arms.clone();
                self.tasks[t].st = St::Select;
            }
            Some(Op::Await(x)) => match self.tasks[*x].result {
                Some(v) => self.wake(t, v, None),
                None => {
                    self.tasks[*x].awaiters.push(t);
                    self.tasks[t].st = St::Await;
                }
            },
            Some(Op::Abort(x)) => {
                if self.tasks[*x].st != St::Done {
                    self.pop_ready_keep(*x);
                    for c in &mut self.chans {
                        c.receivers.retain(|y| y != x);
                        c.senders.retain(|(y, _)| y != x);
                    }
                    self.timers.retain(|y| y.1 != *x);
                    for k in &mut self.tasks {
                        k.awaiters.retain(|y| y != x);
                    }
                    self.finish(*x, V::Nothing);
                }
                if *x != t {
                    self.wake(t, V::Nothing, None);
                }
            }
        }
        self.tidy();
        vec![self]
    }
    fn pop_ready_keep(&mut self, t: usize) {
        for g in &mut self.ready {
            g.retain(|x| *x != t);
        }
    }
    fn tidy(&mut self) {
        self.ready.retain(|g| !g.is_empty());
        for g in &mut self.ready {
            g.sort();
        }
    }

    /// Time moves to the next timer; everything due then happens, in some order.
    pub fn advance(mut self) -> Vec<M> {
        let at = self.timers.iter().map(|t| t.0).min().unwrap();
        self.clock = at;
        let due: Vec<(u64, usize, Option<usize>)> = self.timers.iter().filter(|t| t.0 == at).copied().collect();
        self.timers.retain(|t| t.0 != at);
        self.ready.push(vec![]);
        // Several timeouts of one select may be due together: any of them may win.
        let mut outs = vec![self];
        let mut tasks: Vec<usize> = due.iter().map(|d| d.1).collect();
        tasks.sort();
        tasks.dedup();
        for t in tasks {
            let arms: Vec<Option<usize>> = due.iter().filter(|d| d.1 == t).map(|d| d.2).collect();
            outs = outs
                .into_iter()
                .flat_map(|m| {
                    arms.iter().map(move |a| {
                        let mut n = m.clone();
                        n.wake(t, V::Nothing, *a);
                        n
                    }).collect::<Vec<_>>()
                })
                .collect();
        }
        for m in &mut outs {
            m.tidy();
        }
        outs
    }
}
