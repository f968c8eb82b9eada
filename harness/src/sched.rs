//! A cooperative scheduler over the instrumented atomics of numeric-utils: exactly one thread of a
//! run executes at a time, and control changes hands only right before an atomic operation.
//!
//! Records, per run, the history of operations (invocations and returns) and the log of atomic and
//! data accesses for the happens-before specification.

use crate::Rng;
use numeric_utils::verif::{observe, Event, Kind, Observer};
use std::cell::Cell;
use std::collections::{HashMap, HashSet};
use std::sync::atomic::Ordering;
use std::sync::{Condvar, Mutex, MutexGuard};

pub const MAX: usize = 8;

thread_local! {
    static TID: Cell<usize> = const { Cell::new(usize::MAX) };
}

/// How the next thread is chosen
#[derive(Clone, Debug)]
pub enum Policy {
    /// Preempt at the given global step numbers, switching to the given threads
    At(Vec<(usize, usize)>),
    /// Run thread `.0` for `.1` atomic steps, and so on; then whatever is left
    Script(Vec<(usize, usize)>),
    /// At each step switch to a random thread with probability `.1 / .2`
    Random(Rng, usize, usize),
    /// Random priorities, changed at the given number of random steps below `.2`
    Pct(Rng, usize, usize),
}

#[derive(Default)]
struct Memory {
    /// Published nodes: address, size, contents when last looked at
    nodes: Vec<(usize, Vec<u64>)>,
    atomics: HashSet<usize>,
    locs: HashMap<usize, usize>,
}

struct State {
    active: bool,
    cur: usize,
    n: usize,
    done: [bool; MAX],
    started: usize,
    steps: usize,
    run_len: usize,
    forced: bool,
    stuck: bool,
    policy: Policy,
    script_pos: usize,
    script_left: usize,
    prio: Vec<usize>,
    changes: Vec<usize>,
    spurious: Option<Rng>,
    switches: usize,
    hist: Vec<String>,
    hb: Vec<String>,
    record_hb: bool,
    mem: Memory,
    step_limit: usize,
    fair: usize,
    /// The threads are running; what happened before is ordered before all they do
    forked: bool,
    old_nodes: usize,
}

struct Sched {
    m: Mutex<Option<State>>,
    cv: [Condvar; MAX],
    main: Condvar,
}

static S: Sched = Sched {
    m: Mutex::new(None),
    cv: [const { Condvar::new() }; MAX],
    main: Condvar::new(),
};

/// Payload of the unwinding that ends a thread of a run that makes no progress
pub struct Stuck;

static OBSERVER: Observer = Observer { before, after, spurious };

fn lock() -> MutexGuard<'static, Option<State>> {
    S.m.lock().unwrap_or_else(|e| e.into_inner())
}

impl State {
    fn enabled(&self) -> Vec<usize> {
        (0..self.n).filter(|t| !self.done[*t]).collect()
    }

    /// The next enabled thread after `t`, round robin
    fn after(&self, t: usize) -> usize {
        (1..=self.n).map(|d| (t + d) % self.n).find(|t| !self.done[*t]).unwrap_or(t)
    }

    fn choose(&mut self, me: usize) -> usize {
        if self.forced || self.run_len > self.fair {
            self.forced = false;
            let t = self.after(me);
            if let Policy::Pct(..) = self.policy {
                // whoever makes no progress goes last
                let low = self.prio.iter().copied().min().unwrap_or(0);
                for p in self.prio.iter_mut() {
                    *p += 1;
                }
                self.prio[me] = low;
            }
            return t;
        }
        let step = self.steps;
        let en = self.enabled();
        match &mut self.policy {
            Policy::At(points) => match points.iter().find(|(s, _)| *s == step) {
                Some((_, t)) if !self.done[*t] => *t,
                _ => me,
            },
            Policy::Script(runs) => {
                while self.script_left == 0 && self.script_pos < runs.len() {
                    self.script_left = runs[self.script_pos].1;
                    self.script_pos += 1;
                }
                if self.script_left == 0 {
                    return me;
                }
                let t = runs[self.script_pos - 1].0;
                if self.done[t] {
                    self.script_left = 0;
                    return self.choose(me);
                }
                self.script_left -= 1;
                t
            }
            Policy::Random(rng, a, b) => {
                if rng.chance(*a, *b) {
                    en[rng.below(en.len())]
                } else {
                    me
                }
            }
            Policy::Pct(..) => {
                if self.changes.contains(&step) {
                    let low = self.prio.iter().copied().min().unwrap_or(0);
                    for p in self.prio.iter_mut() {
                        *p += 1;
                    }
                    self.prio[me] = low;
                }
                en.into_iter().max_by_key(|t| self.prio[*t]).unwrap()
            }
        }
    }

    fn tick(&mut self) {
        self.steps += 1;
        if self.steps > self.step_limit {
            self.stuck = true;
        }
    }

    fn loc(&mut self, addr: usize) -> usize {
        let n = self.mem.locs.len() + 1;
        *self.mem.locs.entry(addr).or_insert(n)
    }
    fn node(&self, addr: usize) -> usize {
        self.mem
            .nodes
            .iter()
            .position(|(a, w)| addr >= *a && addr < *a + w.len() * 8)
            .map_or(0, |i| i + 1)
    }

    /// Attribute every change of published memory since the last look to thread `t`
    fn diff(&mut self, t: usize) {
        let mut changed = Vec::new();
        for (addr, words) in self.mem.nodes.iter_mut() {
            for (i, w) in words.iter_mut().enumerate() {
                let a = *addr + i * 8;
                // SAFETY: nodes live until the end of the run; only one thread runs at a time
                let now = unsafe { (a as *const u64).read_volatile() };
                if now != *w {
                    *w = now;
                    if !self.mem.atomics.contains(&a) {
                        changed.push(a);
                    }
                }
            }
        }
        for a in changed {
            self.data(t, 'W', a);
        }
    }

    fn data(&mut self, t: usize, kind: char, addr: usize) {
        let node = self.node(addr);
        if node != 0 && self.record_hb && self.forked {
            let loc = self.loc(addr);
            let node = node.saturating_sub(self.old_nodes);
            self.hb.push(format!("[{t},\"{kind}\",{loc},{node}]"));
        }
    }

    fn atomic(&mut self, t: usize, e: Event) {
        if !self.mem.atomics.contains(&(e.addr & !7)) {
            self.mem.atomics.insert(e.addr & !7);
        }
        let node = self.node(e.addr).saturating_sub(self.old_nodes);
        if self.record_hb {
            let publishes = e.ty == 'p' && matches!(e.kind, Kind::Store | Kind::Rmw) && e.new != 0;
            if publishes && self.node(e.new) == 0 {
                let words = (0..e.size / 8).map(|i| unsafe { ((e.new + 8 * i) as *const u64).read_volatile() });
                self.mem.nodes.push((e.new, words.collect()));
                let n = self.mem.nodes.len().saturating_sub(self.old_nodes);
                if self.forked {
                    self.hb.push(format!("[{t},\"P\",{n}]"));
                }
            }
        }
        if self.record_hb && self.forked {
            let loc = self.loc(e.addr);
            let kind = match e.kind {
                Kind::Load => "L",
                Kind::Store => "S",
                Kind::Rmw => "X",
                Kind::Fail => "F",
            };
            let order = match e.order {
                Ordering::Relaxed => "rlx",
                Ordering::Acquire => "acq",
                Ordering::Release => "rel",
                Ordering::AcqRel => "ar",
                _ => "sc",
            };
            self.hb.push(format!("[{t},\"{kind}\",{loc},{node},\"{order}\"]"));
        }
        if e.kind == Kind::Fail {
            self.forced = true;
        }
    }
}

fn me() -> Option<usize> {
    let t = TID.with(|t| t.get());
    (t != usize::MAX).then_some(t)
}

fn wait(mut g: MutexGuard<'static, Option<State>>, t: usize) {
    loop {
        match &*g {
            Some(s) if s.stuck || s.cur == t => break,
            _ => g = S.cv[t].wait(g).unwrap_or_else(|e| e.into_inner()),
        }
    }
}

fn before() {
    let Some(t) = me() else { return };
    let mut g = lock();
    let Some(s) = g.as_mut().filter(|s| s.active) else { return };
    if s.record_hb {
        s.diff(t);
    }
    if t == MAX - 1 || std::thread::panicking() {
        // set-up and final inspection run alone; a dying thread just finishes
        return;
    }
    s.tick();
    if s.stuck {
        for c in &S.cv {
            c.notify_all();
        }
        drop(g);
        std::panic::panic_any(Stuck);
    }
    let next = s.choose(t);
    if next != t {
        s.cur = next;
        s.run_len = 0;
        s.switches += 1;
        S.cv[next].notify_one();
        wait(g, t);
        if lock().as_ref().is_some_and(|s| s.stuck) {
            std::panic::panic_any(Stuck);
        }
    } else {
        s.run_len += 1;
    }
}

fn after(e: Event) {
    let Some(t) = me() else { return };
    let mut g = lock();
    if let Some(s) = g.as_mut().filter(|s| s.active) {
        s.atomic(t, e);
    }
}

fn spurious() -> bool {
    let Some(t) = me() else { return false };
    let mut g = lock();
    match g.as_mut().filter(|s| s.active && t != MAX - 1) {
        Some(s) => s.spurious.as_mut().is_some_and(|r| r.chance(1, 4)),
        None => false,
    }
}

/// Note an event in the history of operations
pub fn hist(ev: String) {
    if let Some(s) = lock().as_mut() {
        if let Some(t) = me() {
            s.diff_if(t);
        }
        s.hist.push(ev);
    }
}

impl State {
    fn diff_if(&mut self, t: usize) {
        if self.record_hb && self.active {
            self.diff(t);
        }
    }
}

/// Note that the current thread reads (`'R'`) or destroys (`'W'`) the object at `addr`
pub fn touch(kind: char, addr: usize, size: usize) {
    let Some(t) = me() else { return };
    let mut g = lock();
    if let Some(s) = g.as_mut().filter(|s| s.active && s.record_hb) {
        s.diff(t);
        for i in 0..size / 8 {
            s.data(t, kind, addr + 8 * i);
        }
    }
}

pub struct Outcome {
    pub hist: Vec<String>,
    pub hb: Vec<String>,
    pub steps: usize,
    pub switches: usize,
    pub stuck: bool,
    pub panicked: Vec<bool>,
}

/// The driver's number in histories
pub const DRIVER: usize = MAX - 1;

/// Run `setup` alone, then `n` threads under `policy`, then `finish` alone
pub fn run<C: Sync>(
    n: usize,
    policy: Policy,
    spurious: Option<Rng>,
    record_hb: bool,
    limits: (usize, usize),
    setup: impl FnOnce() -> C,
    thread: impl Fn(&C, usize) + Sync,
    finish: impl FnOnce(&C),
    dispose: impl FnOnce(C),
) -> Outcome {
    assert!(n < MAX);
    observe(&OBSERVER);
    let (mut prio, mut changes) = (Vec::new(), Vec::new());
    if let Policy::Pct(rng, d, len) = &mut policy.clone() {
        prio = (0..n).map(|i| i + 1).collect();
        for i in (1..n).rev() {
            prio.swap(i, rng.below(i + 1));
        }
        changes = (0..*d).map(|_| rng.below((*len).max(1))).collect();
    }
    *lock() = Some(State {
        active: true,
        cur: usize::MAX,
        n,
        done: [false; MAX],
        started: 0,
        steps: 0,
        run_len: 0,
        forced: false,
        stuck: false,
        policy,
        script_pos: 0,
        script_left: 0,
        prio,
        changes,
        spurious,
        switches: 0,
        hist: Vec::new(),
        hb: Vec::new(),
        record_hb,
        mem: Memory::default(),
        step_limit: limits.0,
        fair: limits.1,
        forked: false,
        old_nodes: 0,
    });
    TID.with(|t| t.set(DRIVER));
    let ctx = setup();
    {
        let mut g = lock();
        let s = g.as_mut().unwrap();
        s.diff_if(DRIVER);
        s.forked = true;
        s.old_nodes = s.mem.nodes.len();
        s.mem.locs.clear();
    }
    let mut panicked = vec![false; n];
    std::thread::scope(|scope| {
        let hs: Vec<_> = (0..n)
            .map(|t| {
                let (ctx, thread) = (&ctx, &thread);
                scope.spawn(move || {
                    {
                        let mut g = lock();
                        g.as_mut().unwrap().started += 1;
                        S.main.notify_all();
                        wait(g, t);
                    }
                    TID.with(|c| c.set(t));
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| thread(ctx, t)));
                    let mut g = lock();
                    let s = g.as_mut().unwrap();
                    s.diff_if(t);
                    s.done[t] = true;
                    TID.with(|c| c.set(usize::MAX));
                    if s.cur == t {
                        let en = s.enabled();
                        let next = match (&mut s.policy, en.len()) {
                            (_, 0) => usize::MAX,
                            (Policy::Random(rng, ..), k) => en[rng.below(k)],
                            (Policy::Pct(..), _) => en.into_iter().max_by_key(|t| s.prio[*t]).unwrap(),
                            (Policy::Script(runs), _) => {
                                // what the script says comes next, if it can
                                let left = if s.script_left > 0 { s.script_pos - 1 } else { s.script_pos };
                                runs[left.min(runs.len())..].iter().map(|r| r.0).find(|t| !s.done[*t]).unwrap_or(en[0])
                            }
                            _ => s.after(t),
                        };
                        s.cur = next;
                        s.run_len = 0;
                        if next != usize::MAX {
                            S.cv[next].notify_one();
                        }
                    }
                    match r {
                        Ok(()) => false,
                        Err(p) => !p.is::<Stuck>(),
                    }
                })
            })
            .collect();
        {
            let mut g = lock();
            while g.as_ref().unwrap().started < n {
                g = S.main.wait(g).unwrap_or_else(|e| e.into_inner());
            }
            let s = g.as_mut().unwrap();
            let first = match &mut s.policy {
                Policy::At(p) => p.iter().find(|(s, _)| *s == 0).map_or(0, |p| p.1),
                Policy::Script(p) => p.first().map_or(0, |p| p.0),
                Policy::Random(r, ..) => r.below(n),
                Policy::Pct(..) => (0..n).max_by_key(|t| s.prio[*t]).unwrap_or(0),
            };
            if n > 0 {
                s.cur = first;
                S.cv[first].notify_one();
            }
        }
        for (t, h) in hs.into_iter().enumerate() {
            panicked[t] = h.join().unwrap_or(true);
        }
    });
    let stuck = lock().as_ref().unwrap().stuck;
    {
        let mut g = lock();
        let s = g.as_mut().unwrap();
        s.diff_if(DRIVER);
        s.forked = false;
    }
    if !stuck {
        finish(&ctx);
    }
    {
        let mut g = lock();
        let s = g.as_mut().unwrap();
        s.diff_if(DRIVER);
        s.active = false;
    }
    if stuck {
        std::mem::forget(ctx);
    } else {
        dispose(ctx);
    }
    TID.with(|t| t.set(usize::MAX));
    let s = lock().take().unwrap();
    Outcome { hist: s.hist, hb: s.hb, steps: s.steps, switches: s.switches, stuck, panicked }
}
