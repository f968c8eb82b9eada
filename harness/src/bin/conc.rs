//! The interner and its list under controlled schedules: C01, C02, C03, C04.
//!
//! Arguments: PROPERTY SEED SCALE OUTDIR TAG SHARD SHARDS. Programs are legal clients: a thread only
//! uses ids it holds references to.

use numeric_utils::intern::InternId;
use numeric_utils::{Interner, UnsyncLinked};
use numeric_verif_harness::sched::{self, hist, touch, Outcome, Policy, DRIVER};
use numeric_verif_harness::*;
use std::borrow::Borrow;
use std::collections::HashSet;
use std::hash::{DefaultHasher, Hash, Hasher};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

// ------------------------------------------------------------------ the interned type

static TAG: AtomicU64 = AtomicU64::new(1);

/// What is looked up
#[derive(PartialEq, Clone, Copy)]
struct Key(u64);

/// What is stored: accesses report to the scheduler
struct Val {
    key: Key,
    /// unique, so that replacing a value by an equal one still changes memory
    tag: u64,
}
const SIZE: usize = std::mem::size_of::<Val>();
impl Val {
    fn addr(&self) -> usize {
        self as *const Val as usize
    }
    fn read(&self) -> u64 {
        touch('R', self.addr(), SIZE);
        std::hint::black_box(self.tag);
        self.key.0
    }
}
impl From<Key> for Val {
    fn from(key: Key) -> Val {
        Val { key, tag: TAG.fetch_add(1, Ordering::Relaxed) | 1 << 40 }
    }
}
impl Borrow<Key> for Val {
    fn borrow(&self) -> &Key {
        touch('R', self.addr(), SIZE);
        &self.key
    }
}
impl Clone for Val {
    fn clone(&self) -> Val {
        touch('R', self.addr(), SIZE);
        Val::from(self.key)
    }
}
impl PartialEq for Val {
    fn eq(&self, o: &Val) -> bool {
        touch('R', self.addr(), SIZE);
        touch('R', o.addr(), SIZE);
        self.key == o.key
    }
}
impl Drop for Val {
    fn drop(&mut self) {
        touch('W', self.addr(), SIZE);
    }
}

// ------------------------------------------------------------------ interner programs

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    /// add value
    Add(u64),
    /// one more reference to the i-th id held
    Dup(usize),
    /// release the i-th id held
    Rel(usize),
    Get(usize),
    Count(usize),
    /// so many more references to the i-th id held, then as many fewer
    Many(usize, usize),
}

#[derive(Clone, Debug)]
struct Prog {
    cap: usize,
    /// values added (and held) by the driver first
    fill: u64,
    /// of those, which are released again before the threads start
    dead: Vec<u64>,
    /// references handed to the threads: (thread, value)
    hand: Vec<(usize, u64)>,
    threads: Vec<Vec<Op>>,
}

/// The i-th id held, its last looked-up reference if any
struct Held<'a> {
    id: usize,
    seen: Option<&'a Val>,
}

fn add(int: &Interner<Val>, t: usize, v: u64) -> usize {
    hist(format!("[\"i\",{t},\"add\",{v}]"));
    let id = int.add::<Key, Key>(Key(v)).into_usize();
    hist(format!("[\"r\",{t},{id}]"));
    id
}
fn call(t: usize, op: &str, id: usize, f: impl FnOnce() -> String) {
    hist(format!("[\"i\",{t},\"{op}\",{id}]"));
    let r = f();
    hist(format!("[\"r\",{t},{r}]"));
}
fn id(i: usize) -> InternId {
    InternId::from_usize(i)
}

fn thread<'a>(int: &'a Interner<Val>, t: usize, ops: &[Op], mut held: Vec<Held<'a>>) -> Vec<usize> {
    for op in ops {
        let n = held.len();
        match op {
            Op::Add(v) => {
                let i = add(int, t, *v);
                held.push(Held { id: i, seen: None });
            }
            _ if n == 0 => (),
            Op::Dup(k) => {
                let i = held[k % n].id;
                call(t, "dup", i, || {
                    int.incr(id(i));
                    "0".into()
                });
                held.push(Held { id: i, seen: None });
            }
            Op::Get(k) => {
                let h = &mut held[k % n];
                let i = h.id;
                let mut seen = None;
                call(t, "get", i, || {
                    seen = Some(int.get(id(i)));
                    seen.unwrap().read().to_string()
                });
                h.seen = seen;
            }
            Op::Count(k) => {
                let i = held[k % n].id;
                call(t, "cnt", i, || int.refcount(id(i)).to_string());
            }
            Op::Many(k, m) => {
                let i = held[k % n].id;
                let count = || call(t, "cnt", i, || int.refcount(id(i)).to_string());
                hist(format!("[\"i\",{t},\"dups\",[{i},{m}]]"));
                for _ in 0..*m {
                    int.incr(id(i));
                }
                hist(format!("[\"r\",{t},0]"));
                count();
                hist(format!("[\"i\",{t},\"rels\",[{i},{m}]]"));
                for _ in 0..*m {
                    int.decr(id(i));
                }
                hist(format!("[\"r\",{t},0]"));
                count();
            }
            Op::Rel(k) => {
                let h = held.remove(k % n);
                if let Some(r) = h.seen {
                    // a reference obtained earlier is still good while the id is held
                    call(t, "get", h.id, || r.read().to_string());
                }
                call(t, "rel", h.id, || {
                    int.decr(id(h.id));
                    "0".into()
                });
            }
        }
    }
    held.into_iter().map(|h| h.id).collect()
}

/// One run of a program; the history covers set-up, threads, and final inspection
fn run_interner(p: &Prog, policy: Policy, spur: Option<Rng>, hb: bool) -> Outcome {
    let left: Mutex<Vec<Vec<usize>>> = Mutex::new(vec![Vec::new(); p.threads.len()]);
    let handed: Mutex<Vec<Vec<usize>>> = Mutex::new(vec![Vec::new(); p.threads.len()]);
    let steps = if p.threads.len() == 1 { 20_000_000 } else { 400_000 };
    let own: Mutex<Vec<usize>> = Mutex::new(Vec::new());
    sched::run(
        p.threads.len(),
        policy,
        spur,
        hb,
        (steps, 600),
        || {
            let int: Interner<Val> =
                if p.cap == 0 { Interner::new() } else { Interner::with_capacity(p.cap) };
            let mut ids = Vec::new();
            for v in 1..=p.fill {
                ids.push(add(&int, DRIVER, v));
            }
            for v in &p.dead {
                let i = ids[*v as usize - 1];
                call(DRIVER, "rel", i, || {
                    int.decr(id(i));
                    "0".into()
                });
            }
            for (t, v) in &p.hand {
                handed.lock().unwrap()[*t].push(add(&int, DRIVER, *v));
            }
            for v in 1..=p.fill {
                if !p.dead.contains(&v) {
                    own.lock().unwrap().push(ids[v as usize - 1]);
                }
            }
            int
        },
        |int, t| {
            let h = std::mem::take(&mut handed.lock().unwrap()[t]);
            let held = h.into_iter().map(|id| Held { id, seen: None }).collect();
            let l = thread(int, t, &p.threads[t], held);
            left.lock().unwrap()[t] = l;
        },
        |int| {
            // everything still held resolves and is counted; then it is all released
            let mut all: Vec<usize> = left.lock().unwrap().iter().flatten().copied().collect();
            let mine = own.lock().unwrap();
            all.extend(mine.iter().rev().take(3));
            for i in &all {
                call(DRIVER, "get", *i, || int.get(id(*i)).key.0.to_string());
                call(DRIVER, "cnt", *i, || int.refcount(id(*i)).to_string());
            }
            for i in &all {
                call(DRIVER, "rel", *i, || {
                    int.decr(id(*i));
                    "0".into()
                });
            }
            let tget = |i: usize| match int.try_get(id(i)) {
                None => "[\"none\"]".to_string(),
                Some(v) => format!("[\"ok\",{}]", v.key.0),
            };
            for i in all.iter().chain(&[0, 31, 32, 33, 70, 100_000]) {
                call(DRIVER, "tget", *i, || tget(*i));
            }
            for i in all.iter().take(2) {
                // released at zero: nothing happens
                call(DRIVER, "rel", *i, || {
                    int.decr(id(*i));
                    "0".into()
                });
                call(DRIVER, "cnt", *i, || int.refcount(id(*i)).to_string());
            }
            for v in [1, 2, 77] {
                add(int, DRIVER, v);
            }
        },
        drop,
    )
}

// ------------------------------------------------------------------ list programs

#[derive(Clone, Copy, Debug)]
enum LOp {
    Push,
    Get(usize),
    Index(usize),
    Len,
    Empty,
    Iter,
}

static DROPS: Mutex<Vec<u64>> = Mutex::new(Vec::new());
static BASE: AtomicU64 = AtomicU64::new(0);

struct Elem {
    v: u64,
    tag: u64,
}
impl Elem {
    fn read(&self) -> u64 {
        touch('R', self as *const Elem as usize, std::mem::size_of::<Elem>());
        std::hint::black_box(self.tag);
        self.v
    }
}
impl Drop for Elem {
    fn drop(&mut self) {
        touch('W', self as *const Elem as usize, std::mem::size_of::<Elem>());
        DROPS.lock().unwrap().push(self.v);
    }
}

fn list_op(l: &UnsyncLinked<Elem>, t: usize, k: usize, op: LOp) {
    let v = (t as u64 + 1) * 100 + k as u64;
    let opt = |x: Option<u64>| x.map_or("[\"none\"]".to_string(), |v| format!("[\"ok\",{v}]"));
    match op {
        LOp::Push => {
            hist(format!("[\"i\",{t},\"push\",{v}]"));
            let p = l.push(Elem { v, tag: TAG.fetch_add(1, Ordering::Relaxed) });
            hist(format!("[\"r\",{t},{p}]"));
        }
        LOp::Get(i) => call(t, "lget", i, || opt(l.get(i).map(Elem::read))),
        LOp::Index(i) => call(t, "lget", i, || {
            opt(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| l[i].read()))
                .map_err(|e| {
                    if e.is::<sched::Stuck>() {
                        std::panic::resume_unwind(e)
                    }
                })
                .ok())
        }),
        LOp::Len => call(t, "len", 0, || l.len().to_string()),
        LOp::Empty => call(t, "empty", 0, || l.is_empty().j()),
        LOp::Iter => call(t, "iter", 0, || list(l.iter().map(|e| e.read().to_string()))),
    }
}

#[derive(Clone, Debug)]
struct LProg {
    initial: usize,
    threads: Vec<Vec<LOp>>,
}

fn run_list(p: &LProg, policy: Policy, spur: Option<Rng>, hb: bool) -> Outcome {
    DROPS.lock().unwrap().clear();
    BASE.store(0, Ordering::Relaxed);
    sched::run(
        p.threads.len(),
        policy,
        spur,
        hb,
        (400_000, 600),
        || {
            let l: UnsyncLinked<Elem> = UnsyncLinked::new();
            for k in 0..p.initial {
                list_op(&l, DRIVER, k, LOp::Push);
            }
            l
        },
        |l, t| {
            for (k, op) in p.threads[t].iter().enumerate() {
                list_op(l, t, k, *op);
            }
        },
        |l| {
            list_op(l, DRIVER, 90, LOp::Iter);
            list_op(l, DRIVER, 91, LOp::Len);
            for i in 0..l.len() + 2 {
                list_op(l, DRIVER, 92, if i % 2 == 0 { LOp::Get(i) } else { LOp::Index(i) });
            }
        },
        |l| {
            let before = DROPS.lock().unwrap().clone();
            drop(l);
            let after = DROPS.lock().unwrap().clone();
            let j = |v: &[u64]| list(v.iter().map(|x| x.to_string()));
            hist(format!("[\"i\",{DRIVER},\"drop\",[{},{}]]", j(&before), j(&after)));
            hist(format!("[\"r\",{DRIVER},0]"));
        },
    )
}

// ------------------------------------------------------------------ generation

fn gen_prog(rng: &mut Rng, long: bool) -> Prog {
    let nt = rng.range(2, 3);
    let nv = rng.range(1, 3) as u64;
    // a full first chunk (or nearly) makes adds grow the list
    let fill = *rng.pick(&[0u64, 0, 0, 1, 2, 3, 31, 32, 32, 33]);
    let mut dead: Vec<u64> = Vec::new();
    for _ in 0..rng.below(3) {
        if fill > 0 {
            let v = 1 + rng.below(fill as usize) as u64;
            if !dead.contains(&v) {
                dead.push(v);
            }
        }
    }
    let value = |rng: &mut Rng| match rng.below(4) {
        // equal to a value already there, alive or dead
        0 if fill > 0 => 1 + rng.below(fill as usize) as u64,
        1 if !dead.is_empty() => *rng.pick(&dead),
        _ => 50 + rng.below(nv as usize) as u64,
    };
    let mut hand = Vec::new();
    for t in 0..nt {
        for _ in 0..rng.below(3) {
            hand.push((t, value(rng)));
        }
    }
    let threads = (0..nt)
        .map(|_| {
            (0..rng.range(1, if long { 6 } else { 3 }))
                .map(|_| match rng.below(10) {
                    0..=3 => Op::Add(value(rng)),
                    4 => Op::Dup(rng.below(4)),
                    5..=7 => Op::Rel(rng.below(4)),
                    8 => Op::Get(rng.below(4)),
                    _ => Op::Count(rng.below(4)),
                })
                .collect()
        })
        .collect();
    let cap = *rng.pick(&[0, 0, 0, 1, 32, 33, 64]);
    Prog { cap, fill, dead, hand, threads }
}

fn gen_lprog(rng: &mut Rng, big: bool) -> LProg {
    // sometimes a long list, or a long history of a single thread
    let alone = big && rng.chance(1, 3);
    let initial = match big {
        true if alone && rng.chance(1, 3) => rng.range(250, 280),
        true => rng.range(3, 70),
        false => rng.below(3),
    };
    let nt = if alone { 1 } else { rng.range(2, 4) };
    LProg {
        initial,
        threads: (0..nt)
            .map(|_| {
                (0..if alone { 40 } else { rng.range(1, 4) })
                    .map(|_| match rng.below(10) {
                        0..=4 => LOp::Push,
                        5 => LOp::Get(rng.below(initial + 4)),
                        6 => LOp::Index(rng.below(initial + 4)),
                        7 => LOp::Len,
                        8 => LOp::Empty,
                        _ => LOp::Iter,
                    })
                    .collect()
            })
            .collect(),
    }
}

/// Schedules for one program: the plain ones, every single preemption, some double ones, random ones
fn schedules(rng: &mut Rng, n: usize, base: usize, budget: usize) -> Vec<Policy> {
    let mut out = Vec::new();
    for first in 0..n {
        out.push(Policy::At(vec![(0, first)]));
    }
    let singles: Vec<(usize, usize, usize)> = (0..n)
        .flat_map(|f| (1..=base).flat_map(move |s| (0..n).map(move |t| (f, s, t))))
        .collect();
    let take = (budget / 2).min(singles.len());
    if take == singles.len() {
        out.extend(singles.iter().map(|(f, s, t)| Policy::At(vec![(0, *f), (*s, *t)])));
    } else {
        for _ in 0..take {
            let (f, s, t) = *rng.pick(&singles);
            out.push(Policy::At(vec![(0, f), (s, t)]));
        }
    }
    while out.len() < budget {
        match rng.below(4) {
            0 => {
                let mut pts = vec![(0, rng.below(n))];
                let (a, d) = (rng.range(1, base.max(2)), rng.range(1, 12));
                pts.push((a, rng.below(n)));
                pts.push((a + d, rng.below(n)));
                out.push(Policy::At(pts));
            }
            1 => {
                let mut pts = vec![(0, rng.below(n))];
                for _ in 0..rng.range(2, 4) {
                    pts.push((rng.range(1, base.max(2)), rng.below(n)));
                }
                out.push(Policy::At(pts));
            }
            2 => out.push(Policy::Random(Rng::new(rng.next()), 1, *rng.pick(&[2, 3, 8, 20]))),
            _ => out.push(Policy::Pct(Rng::new(rng.next()), rng.range(1, 4), base + base / 2)),
        }
    }
    out
}

struct Out {
    s: Sink,
    seen: HashSet<u64>,
    runs: u64,
    bad: u64,
    steps: u64,
    switches: u64,
}

impl Out {
    /// Run, and keep the record unless the same was recorded before
    fn go(&mut self, kind: &str, what: &str, hb: bool, desc: String, f: impl FnOnce() -> Outcome) -> usize {
        self.s.begin(&desc);
        let o = f();
        self.runs += 1;
        self.steps += o.steps as u64;
        self.switches += o.switches as u64;
        let bad = o.stuck || o.panicked.iter().any(|p| *p);
        let mut ev = if hb { o.hb.clone() } else { o.hist.clone() };
        if bad {
            ev.push(if hb { "[0,\"bad\",0]" } else { "[\"bad\",0]" }.into());
            self.bad += 1;
        }
        let mut h = DefaultHasher::new();
        (kind, what, &ev).hash(&mut h);
        if self.seen.insert(h.finish()) {
            self.s.end(&format!("\"{kind}\",{what}"), &list(ev));
        } else {
            self.s.skip();
        }
        if self.bad >= 4 {
            // enough to report
            self.close();
            std::process::exit(0);
        }
        o.steps
    }
    fn close(&mut self) {
        self.s.finish();
        eprintln!("{{\"runs\":{},\"steps\":{},\"switches\":{}}}", self.runs, self.steps, self.switches);
    }
    fn interner(&mut self, p: &Prog, pol: Policy, spur: Option<Rng>, hb: bool) -> usize {
        let desc = format!("{p:?} {pol:?} {spur:?}");
        self.go("int", &p.cap.to_string(), hb, desc, || run_interner(p, pol, spur, hb))
    }
    fn list(&mut self, p: &LProg, pol: Policy, spur: Option<Rng>, hb: bool) -> usize {
        let desc = format!("{p:?} {pol:?} {spur:?}");
        self.go("list", "0", hb, desc, || run_list(p, pol, spur, hb))
    }
}

/// Long sequential histories over several chunks
fn sequential(rng: &mut Rng, steps: usize, wave: usize) -> Prog {
    let nv = if wave > 40 { 160 } else { *rng.pick(&[5usize, 40, 70, 100]) };
    let mut ops = Vec::new();
    // waves of mostly adding and mostly releasing
    for k in 0..steps {
        if k % 50 == 30 {
            ops.push(Op::Many(rng.below(1000), *rng.pick(&[130, 260, 300, 1100, 2050])));
        }
        let growing = (k / wave) % 2 == 0;
        ops.push(match rng.below(10) {
            0 => Op::Dup(rng.below(1000)),
            1 => Op::Get(rng.below(1000)),
            2 => Op::Count(rng.below(1000)),
            x if (x < 8) == growing => Op::Add(1 + rng.below(nv) as u64),
            _ => Op::Rel(rng.below(1000)),
        });
    }
    Prog { cap: *rng.pick(&[0, 1, 32, 40, 64, 65]), fill: 0, dead: vec![], hand: vec![], threads: vec![ops] }
}

/// Thousands of values at once, on one thread and without the scheduler: each step adds, looks at or
/// releases many, and is recorded with what it says of every id
fn bulk(o: &mut Out, rng: &mut Rng) {
    let cap = *rng.pick(&[0, 1, 33, 1000, 5000]);
    let n = *rng.pick(&[100, 600, 1500, 2100, 2600]);
    o.s.begin(&format!("bulk {cap} {n}"));
    let int: Interner<Val> = if cap == 0 { Interner::new() } else { Interner::with_capacity(cap) };
    let mut ev = Vec::new();
    let mut step = |op: &str, arg: String, res: String| {
        ev.push(format!("[\"i\",0,\"{op}\",{arg}]"));
        ev.push(format!("[\"r\",0,{res}]"));
    };
    let mut held: Vec<usize> = Vec::new();
    let mut top = 0;
    let mut lo = 1;
    let mut want = n;
    let done = quietly(|| {
        for round in 0..3 {
            let mut at: Vec<(usize, usize)> = Vec::new();
            for v in lo..lo + want {
                at.push((int.add::<Key, Key>(Key(v as u64)).into_usize(), v));
            }
            top = top.max(at.iter().map(|x| x.0 + 1).max().unwrap_or(0)).min(100_000);
            let mut table = vec![0; top];
            for &(i, v) in &at {
                if i < top {
                    table[i] = v;
                }
                held.push(i);
            }
            step("addn", format!("[{lo},{want}]"), list(table.iter().map(|v| v.to_string())));
            lo += want;
            let look = |step: &mut dyn FnMut(&str, String, String)| {
                let m = top + 70;
                step("getn", m.to_string(), list((0..m).map(|i| int.try_get(id(i)).map_or(0, |v| v.key.0).to_string())));
                step("cntn", top.to_string(), list((0..top).map(|i| int.refcount(id(i)).to_string())));
            };
            look(&mut step);
            let m = *rng.pick(&[2, 3, 7, 64]);
            let k = rng.below(m);
            if round == 1 {
                let again: Vec<usize> = held.iter().copied().filter(|i| i % m == k).collect();
                for i in &again {
                    int.incr(id(*i));
                }
                step("dupn", format!("[{m},{k}]"), "0".into());
                look(&mut step);
                for i in &again {
                    int.decr(id(*i));
                }
                step("reln", format!("[{m},{k}]"), "0".into());
            }
            want = held.iter().filter(|i| *i % m == k).count();
            for i in held.iter().filter(|i| *i % m == k) {
                int.decr(id(*i));
            }
            held.retain(|i| i % m != k);
            step("reln", format!("[{m},{k}]"), "0".into());
            look(&mut step);
        }
    });
    if !done {
        ev.push("[\"bad\",0]".into());
    }
    o.runs += 1;
    o.s.end(&format!("\"int\",{cap}"), &list(ev));
}
fn quietly(f: impl FnOnce()) -> bool {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_ok()
}

/// A schedule from the specification: the program and the prefix of the run
enum Replay {
    Int(Prog, Policy),
    List(LProg, Policy),
}

fn parse(line: &str) -> Replay {
    let mut w = line.split(' ');
    let kind = w.next().unwrap();
    let num = |w: &mut std::str::Split<'_, char>| w.next().unwrap().parse::<usize>().unwrap();
    let initial = num(&mut w);
    let nt = num(&mut w);
    let mut progs = Vec::new();
    for _ in 0..nt {
        let n = num(&mut w);
        progs.push((0..n).map(|_| (w.next().unwrap(), num(&mut w))).collect::<Vec<_>>());
    }
    let n = num(&mut w);
    let runs = (0..n).map(|_| (num(&mut w), num(&mut w))).collect();
    let policy = Policy::Script(runs);
    if kind == "list" {
        let threads = progs.iter().map(|p| {
            p.iter().map(|(op, i)| match *op {
                "push" => LOp::Push,
                "lget" => LOp::Get(*i),
                "len" => LOp::Len,
                _ => LOp::Iter,
            }).collect()
        });
        return Replay::List(LProg { initial, threads: threads.collect() }, policy);
    }
    // the specification's first slot is the 31st, its value v the value 30 + v
    let threads = progs.iter().map(|p| {
        p.iter().map(|(op, i)| match *op {
            "add" => Op::Add(30 + *i as u64),
            "dup" => Op::Dup(*i),
            "rel" => Op::Rel(*i),
            "get" => Op::Get(*i),
            _ => Op::Count(*i),
        }).collect()
    });
    let (fill, dead, hand) = match kind {
        "dead" => (31, vec![31], vec![]),
        "held" => (30, vec![], (0..nt).map(|t| (t, 31)).collect()),
        _ => (30, vec![], vec![]),
    };
    Replay::Int(Prog { cap: 0, fill, dead, hand, threads: threads.collect() }, policy)
}

fn main() {
    let a = Args::get();
    let extra: Vec<String> = std::env::args().skip(6).collect();
    let (shard, shards): (usize, usize) = (extra[0].parse().unwrap(), extra[1].parse().unwrap());
    let mut rng = Rng::new(a.rng().next() ^ (shard as u64) << 32);
    let r = &mut rng;
    let s = Sink::new(&a.out, 1, 20, &format!("{}{shard}", a.tag));
    let mut o = Out { s, seen: HashSet::new(), runs: 0, bad: 0, steps: 0, switches: 0 };
    let prop = a.prop.as_str();
    let hb = prop == "C03";
    if let Some(path) = extra.get(2) {
        let text = std::fs::read_to_string(path).expect("schedules");
        for line in text.lines().skip(shard).step_by(shards) {
            match parse(line) {
                Replay::Int(p, pol) => o.interner(&p, pol, None, hb),
                Replay::List(p, pol) => o.list(&p, pol, None, hb),
            };
        }
    }
    let spur = |r: &mut Rng| r.chance(1, 3).then(|| Rng::new(r.next()));
    if prop != "C04" {
        for k in 0..6 * a.scale {
            let p = gen_prog(r, k % 3 == 2);
            let steps = o.interner(&p, Policy::At(vec![]), None, hb);
            for pol in schedules(r, p.threads.len(), steps, 60) {
                let sp = spur(r);
                o.interner(&p, pol, sp, hb);
            }
        }
    }
    if prop == "C01" || prop == "C02" {
        for k in 0..2 * a.scale {
            // one in four lives in many chunks
            let p = if k % 4 == 1 { sequential(r, 480, 280) } else { sequential(r, 160, 40) };
            o.interner(&p, Policy::At(vec![]), None, false);
        }
        for _ in 0..(a.scale / 4).max(1) {
            bulk(&mut o, r);
        }
    }
    if prop == "C03" || prop == "C04" {
        for _ in 0..8 * a.scale {
            let big = !hb && r.chance(1, 4);
            let p = gen_lprog(r, big);
            let steps = o.list(&p, Policy::At(vec![]), None, hb);
            if p.threads.len() == 1 {
                continue;
            }
            for pol in schedules(r, p.threads.len(), steps, if big { 20 } else { 80 }) {
                let sp = spur(r);
                o.list(&p, pol, sp, hb);
            }
        }
    }
    o.close();
}
