//! Histories of big integers: C05 (one thread) and C06 (several).
//!
//! Arguments: PROPERTY SEED SCALE OUTDIR TAG SHARD SHARDS [SCHEDULES]. A history is a program over
//! registers, each empty or holding a BigInt; after every step all registers are read.

use numeric_ints::BigInt;
use numeric_traits::class::Signed;
use numeric_traits::ops::Pow;
use numeric_verif_harness::big::{mag, Z};
#[cfg(numeric_verif)]
use numeric_verif_harness::sched::{self, Policy};
use numeric_verif_harness::*;
use std::collections::HashSet;
use std::hash::{DefaultHasher, Hash, Hasher};
use std::sync::Mutex;

type Regs = Vec<Option<BigInt>>;

#[derive(Clone, Debug)]
enum Act {
    New(usize, Z),
    /// through a primitive
    From(usize, i128),
    /// through text
    Parse(usize, Z),
    Clone(usize, usize),
    CloneFrom(usize, usize),
    Move(usize, usize),
    Take(usize, usize),
    Swap(usize, usize),
    Drop(usize),
    Bin(&'static str, &'static str, usize, usize, usize),
    /// in place; the last is the operand
    Asg(&'static str, &'static str, usize, usize),
    Prim(&'static str, usize, usize, i128),
    PrimAsg(&'static str, usize, i128),
    Neg(&'static str, usize, usize),
    Not(usize, usize),
    Abs(usize, usize),
    Pow(usize, usize, u32),
    Look(usize, usize),
    /// through a boxed, cloned and partly dropped collection
    /// through a vector of so many copies
    Vector(usize, usize, usize),
}

fn caught<T>(f: impl FnOnce() -> T) -> Option<T> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Some(v),
        Err(e) => {
            #[cfg(numeric_verif)]
            if e.is::<sched::Stuck>() {
                std::panic::resume_unwind(e);
            }
            drop(e);
            None
        }
    }
}

macro_rules! bin {
    ($form:expr, $regs:expr, $sh:expr, $a:expr, $b:expr, $op:tt) => {{
        match $form {
            "oo" => {
                let x = $regs[$a].take().unwrap();
                let y = $regs[$b].take().unwrap();
                caught(move || x $op y)
            }
            "or" => {
                let x = $regs[$a].take().unwrap();
                let y = reg($regs, $sh, $b);
                caught(move || x $op y)
            }
            "ro" => {
                let y = $regs[$b].take().unwrap();
                let x = reg($regs, $sh, $a);
                caught(move || x $op y)
            }
            _ => {
                let (x, y) = (reg($regs, $sh, $a), reg($regs, $sh, $b));
                caught(move || x $op y)
            }
        }
    }};
}
macro_rules! asg {
    ($form:expr, $regs:expr, $sh:expr, $a:expr, $b:expr, $op:tt) => {{
        let mut x = $regs[$a].take().unwrap();
        let out = if $form == "ao" {
            let y = $regs[$b].take().unwrap();
            caught(|| x $op y)
        } else {
            let y = reg($regs, $sh, $b);
            caught(|| x $op y)
        };
        $regs[$a] = Some(x);
        out
    }};
}
macro_rules! prim {
    ($x:expr, $v:expr, $op:tt) => {{
        let (x, v) = ($x, $v);
        match v {
            v if i8::try_from(v).is_ok() => caught(move || x $op v as i8),
            v if i64::try_from(v).is_ok() => caught(move || x $op v as i64),
            v if u64::try_from(v).is_ok() => caught(move || x $op v as u64),
            v => caught(move || x $op v),
        }
    }};
}
macro_rules! prim_asg {
    ($x:expr, $v:expr, $op:tt) => {{
        let v = $v;
        match v {
            v if i16::try_from(v).is_ok() => caught(|| $x $op v as i16),
            v if i64::try_from(v).is_ok() => caught(|| $x $op v as i64),
            v => caught(|| $x $op v),
        }
    }};
}

/// Register `i`: own ones first, then the shared ones
fn reg<'a>(regs: &'a Regs, shared: &'a [BigInt], i: usize) -> &'a BigInt {
    if i < regs.len() {
        regs[i].as_ref().unwrap()
    } else {
        &shared[i - regs.len()]
    }
}

fn slot(_b: &BigInt) -> String {
    #[cfg(numeric_verif)]
    return _b.verif_slot().map_or("[-1,0]".into(), |(i, c)| format!("[{i},{c}]"));
    #[cfg(not(numeric_verif))]
    return "[-1,0]".into();
}
/// All references the store holds
fn total() -> usize {
    #[cfg(numeric_verif)]
    return BigInt::verif_refs(160).iter().sum();
    #[cfg(not(numeric_verif))]
    return 0;
}

const NONE: &str = "[\"none\"]";

struct Machine<'a> {
    regs: Regs,
    shared: &'a [BigInt],
    seen: Vec<String>,
    steps: Vec<String>,
    /// record the store's reference counts too
    counts: bool,
    /// references held by others
    base: usize,
    /// do not read the registers after each step
    quiet: bool,
}

impl<'a> Machine<'a> {
    fn new(k: usize, shared: &'a [BigInt], counts: bool) -> Machine<'a> {
        let mut seen = vec![NONE.to_string(); k];
        seen.extend(shared.iter().map(|b| b.j()));
        let base = if counts { total() } else { 0 };
        Machine { regs: vec![None; k], shared, seen, steps: Vec::new(), counts, base, quiet: false }
    }

    fn has(&self, i: usize) -> bool {
        i >= self.regs.len() || self.regs[i].is_some()
    }

    /// Carry out one action; false if it does not apply
    fn step(&mut self, act: &Act) -> bool {
        let regs = &mut self.regs;
        let sh = self.shared;
        let n = regs.len();
        let has = |regs: &Regs, i: usize| i >= n || regs[i].is_some();
        let own = |regs: &Regs, i: usize| i < n && regs[i].is_some();
        // op, form, dst, a, b, extra; the outcome: a value for dst, done, or a panic
        let (op, form, d, a, b);
        let mut extra = "0".to_string();
        let mut ok = true;
        let put = |regs: &mut Regs, d: usize, v: Option<BigInt>| match v {
            Some(v) => {
                regs[d] = Some(v);
                true
            }
            None => false,
        };
        match act {
            Act::New(r, z) => {
                (op, form, d, a, b) = ("new", "", *r, 0, 0);
                extra = z.j();
                regs[*r] = Some(z.big());
            }
            Act::From(r, v) => {
                (op, form, d, a, b) = ("new", "", *r, 0, 0);
                extra = v.j();
                regs[*r] = Some(BigInt::from(*v));
            }
            Act::Parse(r, z) => {
                use numeric_traits::cast::FromStrRadix;
                (op, form, d, a, b) = ("new", "", *r, 0, 0);
                extra = z.j();
                let hex: String = std::iter::once(if z.neg { "-" } else { "" }.to_string())
                    .chain(if z.mag.is_empty() { Some("0".into()) } else { None })
                    .chain(z.mag.iter().rev().enumerate().map(|(i, w)| {
                        if i == 0 {
                            format!("{w:x}")
                        } else {
                            format!("{w:016x}")
                        }
                    }))
                    .collect();
                regs[*r] = BigInt::from_str_radix(&hex, 16).ok();
            }
            Act::Clone(r, x) if has(regs, *x) => {
                (op, form, d, a, b) = ("clone", "", *r, *x, 0);
                regs[*r] = Some(reg(regs, sh, *x).clone());
            }
            Act::CloneFrom(r, x) if own(regs, *r) && has(regs, *x) => {
                (op, form, d, a, b) = ("clone", "from", *r, *x, 0);
                let mut t = regs[*r].take().unwrap();
                if r == x {
                    let c = t.clone();
                    t.clone_from(&c);
                } else {
                    t.clone_from(reg(regs, sh, *x));
                }
                regs[*r] = Some(t);
            }
            Act::Move(r, x) if own(regs, *x) && r != x => {
                (op, form, d, a, b) = ("move", "", *r, *x, 0);
                regs[*r] = regs[*x].take();
            }
            Act::Take(r, x) if own(regs, *x) && r != x => {
                (op, form, d, a, b) = ("take", "", *r, *x, 0);
                let t = std::mem::take(regs[*x].as_mut().unwrap());
                regs[*r] = Some(t);
            }
            Act::Swap(x, y) if own(regs, *x) && own(regs, *y) && x != y => {
                (op, form, d, a, b) = ("swap", "", 0, *x, *y);
                let (mut p, mut q) = (regs[*x].take().unwrap(), regs[*y].take().unwrap());
                std::mem::swap(&mut p, &mut q);
                regs[*x] = Some(p);
                regs[*y] = Some(q);
            }
            Act::Drop(x) if own(regs, *x) => {
                (op, form, d, a, b) = ("drop", "", 0, *x, 0);
                drop(regs[*x].take());
            }
            Act::Bin(o, f, r, x, y)
                if (if f.starts_with('o') { own(regs, *x) } else { has(regs, *x) })
                    && (if f.ends_with('o') { own(regs, *y) } else { has(regs, *y) })
                    && (*f == "rr" || x != y) =>
            {
                (op, form, d, a, b) = (*o, *f, *r, *x, *y);
                if op == "rem" {
                    let q = caught(|| reg(regs, sh, *x) / reg(regs, sh, *y));
                    extra = q.map_or("0".into(), |q| q.j());
                }
                let v = match op {
                    "add" => bin!(form, regs, sh, *x, *y, +),
                    "sub" => bin!(form, regs, sh, *x, *y, -),
                    "mul" => bin!(form, regs, sh, *x, *y, *),
                    "div" => bin!(form, regs, sh, *x, *y, /),
                    "rem" => bin!(form, regs, sh, *x, *y, %),
                    "and" => bin!(form, regs, sh, *x, *y, &),
                    "or" => bin!(form, regs, sh, *x, *y, |),
                    _ => bin!(form, regs, sh, *x, *y, ^),
                };
                ok = put(regs, *r, v);
            }
            Act::Asg(o, f, x, y) if own(regs, *x) && has(regs, *y) && (*f == "ar" || *y < n) => {
                let f = if x == y { "aa" } else { *f };
                (op, form, d, a, b) = (*o, f, *x, *x, *y);
                if op == "rem" {
                    let q = caught(|| reg(regs, sh, *x) / reg(regs, sh, *y));
                    extra = q.map_or("0".into(), |q| q.j());
                }
                let out = if f == "aa" {
                    // the operand is a clone of the target
                    let mut t = regs[*x].take().unwrap();
                    let c = t.clone();
                    let out = match op {
                        "add" => caught(|| t += &c),
                        "sub" => caught(|| t -= c),
                        "mul" => caught(|| t *= c),
                        "div" => caught(|| t /= &c),
                        _ => caught(|| t %= c),
                    };
                    regs[*x] = Some(t);
                    out
                } else {
                    match op {
                        "add" => asg!(f, regs, sh, *x, *y, +=),
                        "sub" => asg!(f, regs, sh, *x, *y, -=),
                        "mul" => asg!(f, regs, sh, *x, *y, *=),
                        "div" => asg!(f, regs, sh, *x, *y, /=),
                        _ => asg!(f, regs, sh, *x, *y, %=),
                    }
                };
                ok = out.is_some();
            }
            Act::Prim(o, r, x, v) if own(regs, *x) => {
                (op, form, d, a, b) = (*o, "op", *r, *x, 0);
                extra = v.j();
                let x = regs[*x].take().unwrap();
                let out = match op {
                    "add" => prim!(x, *v, +),
                    "sub" => prim!(x, *v, -),
                    "mul" => prim!(x, *v, *),
                    "div" => prim!(x, *v, /),
                    "shl" => prim!(x, *v, <<),
                    _ => prim!(x, *v, >>),
                };
                ok = put(regs, *r, out);
            }
            Act::PrimAsg(o, x, v) if own(regs, *x) => {
                (op, form, d, a, b) = (*o, "ap", *x, *x, 0);
                extra = v.j();
                let mut t = regs[*x].take().unwrap();
                let out = match op {
                    "add" => prim_asg!(t, *v, +=),
                    "sub" => prim_asg!(t, *v, -=),
                    "mul" => prim_asg!(t, *v, *=),
                    _ => prim_asg!(t, *v, /=),
                };
                regs[*x] = Some(t);
                ok = out.is_some();
            }
            Act::Neg(f, r, x) if if *f == "o" { own(regs, *x) } else { has(regs, *x) } => {
                (op, form, d, a, b) = ("neg", *f, *r, *x, 0);
                let v = if *f == "o" { -regs[*x].take().unwrap() } else { -reg(regs, sh, *x) };
                regs[*r] = Some(v);
            }
            Act::Not(r, x) if own(regs, *x) => {
                (op, form, d, a, b) = ("not", "o", *r, *x, 0);
                let v = regs[*x].take().unwrap();
                regs[*r] = Some(!v);
            }
            Act::Abs(r, x) if own(regs, *x) => {
                (op, form, d, a, b) = ("abs", "o", *r, *x, 0);
                let v = regs[*x].take().unwrap();
                regs[*r] = Some(v.abs());
            }
            Act::Pow(r, x, k) if own(regs, *x) => {
                (op, form, d, a, b) = ("pow", "o", *r, *x, 0);
                extra = k.to_string();
                let v = regs[*x].take().unwrap();
                regs[*r] = Some(v.pow(BigInt::from(*k)));
            }
            Act::Look(x, y) if has(regs, *x) && has(regs, *y) => {
                (op, form, d, a, b) = ("look", "", 0, *x, *y);
                let (p, q) = (reg(regs, sh, *x), reg(regs, sh, *y));
                let text = p.to_string();
                let eq = u8::from(p == q);
                extra = format!("[{},{eq},{}]", p.cmp(q) as i8, u8::from(p.to_string() == text));
            }
            Act::Vector(r, x, k) if has(regs, *x) => {
                (op, form, d, a, b) = ("clone", "vec", *r, *x, 0);
                let v = vec![reg(regs, sh, *x).clone(); *k];
                let w = v.clone();
                drop(v);
                let mut w: Vec<Box<BigInt>> = w.into_iter().map(Box::new).collect();
                w.truncate(2);
                regs[*r] = w.pop().map(|b| *b);
            }
            _ => return false,
        }
        self.look(op, form, d, a, b, &extra, ok);
        true
    }

    /// Read everything; note what differs from what was read before
    #[allow(clippy::too_many_arguments)]
    fn look(&mut self, op: &str, form: &str, d: usize, a: usize, b: usize, extra: &str, ok: bool) {
        let mut diff = Vec::new();
        for i in 0..if self.quiet { 0 } else { self.seen.len() } {
            let now = if self.has(i) { reg(&self.regs, self.shared, i).j() } else { NONE.to_string() };
            if now != self.seen[i] {
                diff.push(format!("[{},{now}]", i + 1));
                self.seen[i] = now;
            }
        }
        let counts = if self.counts {
            let s = self.regs.iter().map(|r| r.as_ref().map_or("[-1,0]".to_string(), slot));
            format!("[{},{}]", list(s), total() as i64 - self.base as i64)
        } else {
            "[]".into()
        };
        let out = if ok { "\"ok\"" } else { "\"panic\"" };
        self.steps.push(format!(
            "[\"{op}\",\"{form}\",{},{},{},{extra},{out},{},{counts},{}]",
            d + 1,
            a + 1,
            b + 1,
            list(diff),
            u8::from(self.quiet)
        ));
    }
}

// ------------------------------------------------------------------ generation

/// The magnitudes a program plays with: few, so that they meet in the store
struct Pool(Vec<Vec<u64>>);

impl Pool {
    fn new(rng: &mut Rng, limbs: usize) -> Pool {
        let mut v = vec![vec![5], vec![u64::MAX >> 2], vec![(u64::MAX >> 2) + 1], vec![0, 1]];
        for _ in 0..3 {
            v.push(mag(rng, limbs));
        }
        v.retain(|m| m.len() <= limbs);
        Pool(v)
    }
    fn z(&self, rng: &mut Rng) -> Z {
        if rng.chance(1, 12) {
            return Z::small(rng.below(3) as i128 - 1);
        }
        Z::new(rng.chance(1, 3), rng.pick(&self.0).clone())
    }
}

const OPS: &[&str] = &["add", "add", "sub", "sub", "mul", "div", "rem", "and", "or", "xor"];
const ASG: &[&str] = &["add", "sub", "mul", "div", "rem"];
const FORMS: &[&str] = &["rr", "ro", "or", "oo"];

/// A program over `k` own registers and `s` shared ones; sizes (in bits) are kept below `cap`
fn program(rng: &mut Rng, pool: &Pool, k: usize, s: usize, len: usize, cap: usize, heavy: bool) -> Vec<Act> {
    let mut size: Vec<Option<usize>> = vec![None; k];
    size.extend(vec![Some(200); s]);
    let mut out = Vec::new();
    while out.len() < len {
        let (d, a, b) = (rng.below(k), rng.below(k + s), rng.below(k + s));
        let (sa, sb) = (size[a], size[b]);
        let small = |rng: &mut Rng| match rng.below(6) {
            0 => 0,
            1 => -(1i128 << rng.below(100)),
            2 => i64::MAX as i128,
            3 => u64::MAX as i128,
            _ => rng.below(40) as i128 - 20,
        };
        let act = match rng.below(if heavy { 24 } else { 16 }) {
            0..=2 => Act::New(d, pool.z(rng)),
            3 => Act::From(d, small(rng)),
            4 if rng.chance(1, 2) => Act::Parse(d, pool.z(rng)),
            4..=6 => Act::Clone(d, a),
            7 => Act::CloneFrom(d, a),
            8 => Act::Move(d, a),
            9 => Act::Take(d, a),
            10 => Act::Swap(a, b),
            11..=12 => Act::Drop(a),
            13 => Act::Look(a, b),
            14 => Act::Neg(*rng.pick(&["o", "r"]), d, a),
            15 => {
                let k = match rng.below(400) {
                    0 => 70_000,
                    1..=9 => 1100,
                    10..=40 => 300,
                    _ => 4,
                };
                Act::Vector(d, a, k)
            }
            16..=18 => Act::Bin(*rng.pick(OPS), *rng.pick(FORMS), d, a, b),
            19..=20 => Act::Asg(*rng.pick(ASG), *rng.pick(&["ar", "ao"]), a, b),
            21 => match rng.below(4) {
                0 => Act::Prim("shl", d, a, rng.below(140) as i128),
                1 => Act::Prim("shr", d, a, rng.below(140) as i128),
                _ => Act::Prim(*rng.pick(&["add", "sub", "mul", "div"]), d, a, small(rng)),
            },
            22 => Act::PrimAsg(*rng.pick(&["add", "sub", "mul", "div"]), a, small(rng)),
            _ => match rng.below(3) {
                0 => Act::Not(d, a),
                1 => Act::Abs(d, a),
                _ => Act::Pow(d, a, rng.below(4) as u32),
            },
        };
        // does it apply, and how large does it get?
        let owned = |i: usize| i < k;
        let grown = match &act {
            Act::New(_, z) | Act::Parse(_, z) => Some((d, z.mag.len() * 64)),
            Act::From(..) => Some((d, 128)),
            Act::Clone(..) | Act::Vector(..) => sa.map(|x| (d, x)),
            Act::CloneFrom(..) => sa.filter(|_| size[d].is_some()).map(|x| (d, x)),
            Act::Move(..) | Act::Take(..) => sa.filter(|_| owned(a) && a != d).map(|x| (d, x)),
            Act::Swap(..) => sa.and(sb).filter(|_| owned(a) && owned(b) && a != b).map(|x| (a, x)),
            Act::Drop(..) | Act::Abs(..) => sa.filter(|_| owned(a)).map(|x| (a, x)),
            Act::Look(..) => sa.and(sb).map(|x| (a, x)),
            Act::Neg(f, ..) => sa.filter(|_| *f == "r" || owned(a)).map(|x| (d, x)),
            Act::Not(..) => sa.filter(|_| owned(a)).map(|x| (d, x + 1)),
            Act::Pow(_, _, e) => sa.filter(|_| owned(a)).map(|x| (d, x * (*e as usize).max(1))),
            Act::Bin(o, f, ..) => match (sa, sb) {
                (Some(x), Some(y))
                    if (f.starts_with('r') || owned(a))
                        && (f.ends_with('r') || owned(b))
                        && (*f == "rr" || a != b) =>
                {
                    Some((d, if *o == "mul" { x + y } else { x.max(y) + 1 }))
                }
                _ => None,
            },
            Act::Asg(o, f, ..) => match (sa, sb) {
                (Some(x), Some(y)) if owned(a) && (*f == "ar" || owned(b)) => {
                    Some((a, if *o == "mul" { x + y } else { x.max(y) + 1 }))
                }
                _ => None,
            },
            Act::Prim(o, _, _, v) => sa.filter(|_| owned(a)).map(|x| {
                (d, match *o {
                    "shl" => x + *v as usize,
                    "mul" => x + 100,
                    _ => x.max(128) + 1,
                })
            }),
            Act::PrimAsg(o, ..) => {
                sa.filter(|_| owned(a)).map(|x| (a, if *o == "mul" { x + 100 } else { x.max(128) + 1 }))
            }
        };
        let Some((r, bits)) = grown else { continue };
        if bits > cap {
            continue;
        }
        // what it uses up
        let mut gone: Vec<usize> = Vec::new();
        match &act {
            Act::Move(_, x) | Act::Drop(x) | Act::Not(_, x) | Act::Abs(_, x) | Act::Pow(_, x, _) => gone.push(*x),
            Act::Prim(_, _, x, _) => gone.push(*x),
            Act::Neg("o", _, x) => gone.push(*x),
            Act::Bin(_, f, _, x, y) => {
                if f.starts_with('o') {
                    gone.push(*x);
                }
                if f.ends_with('o') {
                    gone.push(*y);
                }
            }
            Act::Asg(_, "ao", x, y) if x != y => gone.push(*y),
            _ => (),
        }
        for g in gone {
            size[g] = None;
        }
        if r < k && !matches!(act, Act::Drop(_)) {
            size[r] = Some(bits);
        }
        out.push(act);
    }
    out
}

// ------------------------------------------------------------------ recording

struct Out {
    s: Sink,
    seen: HashSet<u64>,
    runs: u64,
    steps: u64,
    switches: u64,
}

impl Out {
    fn record(&mut self, head: &str, out: &str) {
        let mut h = DefaultHasher::new();
        (head, out).hash(&mut h);
        self.runs += 1;
        if self.seen.insert(h.finish()) {
            self.s.end(head, out);
        } else {
            self.s.skip();
        }
    }
    fn close(&mut self) {
        self.s.finish();
        eprintln!("{{\"runs\":{},\"steps\":{},\"switches\":{}}}", self.runs, self.steps, self.switches);
    }
}

/// One history on one thread
fn alone(o: &mut Out, prog: &[Act], k: usize, limit: usize) {
    o.s.begin(&format!("{prog:?}"));
    let mut m = Machine::new(k, &[], cfg!(numeric_verif));
    for act in prog.iter().take(limit) {
        if m.step(act) {
            o.steps += 1;
        }
    }
    // and everything goes, in some order
    for i in 0..k {
        let r = if k % 2 == 0 { i } else { k - 1 - i };
        m.step(&Act::Drop(r));
    }
    let steps = list(std::mem::take(&mut m.steps));
    o.record(&format!("\"hist\",{k}"), &steps);
}

/// Thousands of large values alive at once, each cloned or not, half of them then dropped
fn bulk(o: &mut Out, rng: &mut Rng) {
    let n = *rng.pick(&[50, 400, 1200, 2200]);
    let odd = rng.next() | 1;
    o.s.begin(&format!("bulk {n}"));
    let vals: Vec<Z> = (0..n as u64).map(|i| Z::new(i % 3 == 0, vec![i.wrapping_mul(odd), 1 + i])).collect();
    let mut a: Vec<Option<BigInt>> = vals.iter().map(|z| Some(z.big())).collect();
    let mut b: Vec<Option<BigInt>> = a.iter().enumerate().map(|(i, x)| if i % 4 == 1 { x.clone() } else { None }).collect();
    let read = |v: &[Option<BigInt>]| list(v.iter().map(|x| x.as_ref().map_or(NONE.into(), |x| x.j())));
    let slots = |a: &[Option<BigInt>], b: &[Option<BigInt>]| list(a.iter().chain(b).flatten().map(slot));
    let mut out = vec![read(&a), read(&b), slots(&a, &b)];
    let step = rng.range(2, 5);
    for x in a.iter_mut().step_by(step) {
        *x = None;
    }
    out.push(step.to_string());
    out.extend([read(&a), read(&b), slots(&a, &b)]);
    a.clear();
    out.push(read(&b));
    b.clear();
    #[cfg(numeric_verif)]
    out.push(BigInt::verif_refs(n + 32).iter().sum::<usize>().to_string());
    #[cfg(not(numeric_verif))]
    out.push("0".into());
    o.record(&format!("\"bulk\",{}", list(vals.iter().map(|z| z.j()))), &list(out));
}

/// A program for C06
#[derive(Debug)]
struct Par {
    /// held by the driver during the run, read by all
    shared: Vec<Z>,
    /// handed to the threads: (thread, register, index into shared)
    hand: Vec<(usize, usize, usize)>,
    regs: usize,
    threads: Vec<Vec<Act>>,
    /// threads read all their registers after each step (or only look at the end)
    read: bool,
}

/// What the machine of one thread did
struct Done {
    steps: Vec<String>,
    regs: Regs,
}

fn thread(p: &Par, shared: &[BigInt], t: usize, start: Regs) -> Done {
    let mut m = Machine::new(p.regs, shared, false);
    m.quiet = !p.read;
    for (i, v) in start.into_iter().enumerate() {
        if let Some(v) = v {
            let x = p.hand.iter().find(|h| h.0 == t && h.1 == i).unwrap().2;
            m.regs[i] = Some(v);
            m.look("clone", "hand", i, p.regs + x, 0, "0", true);
        }
    }
    for act in &p.threads[t] {
        m.step(act);
    }
    m.quiet = false;
    m.look("peek", "", 0, 0, 0, "0", true);
    let steps = std::mem::take(&mut m.steps);
    let regs = std::mem::take(&mut m.regs);
    Done { steps, regs }
}

/// Hand-over: clones made by the driver before the threads start
fn prepare(p: &Par) -> (Vec<BigInt>, Vec<Regs>) {
    let shared: Vec<BigInt> = p.shared.iter().map(Z::big).collect();
    let mut start: Vec<Regs> = vec![vec![None; p.regs]; p.threads.len()];
    for (t, r, x) in &p.hand {
        start[*t][*r] = Some(shared[*x].clone());
    }
    (shared, start)
}

/// The end: all that is left is with the driver
fn conclude(shared: Vec<BigInt>, done: Vec<Option<Done>>, base: usize) -> (String, String) {
    let mut hists = Vec::new();
    let mut left: Vec<BigInt> = Vec::new();
    for d in done {
        match d {
            Some(d) => {
                hists.push(list(d.steps));
                left.extend(d.regs.into_iter().flatten());
            }
            None => hists.push("[[\"bad\"]]".into()),
        }
    }
    left.extend(shared);
    let slots = list(left.iter().map(slot));
    let held = total() as i64 - base as i64;
    drop(left);
    let after = total() as i64 - base as i64;
    (list(hists), format!("[{slots},{held},{after}]"))
}

fn par_head(p: &Par) -> String {
    format!("\"par\",{},{}", p.regs, list(p.shared.iter().map(Z::j)))
}

#[cfg(numeric_verif)]
fn together(o: &mut Out, p: &Par, policy: Policy, spur: Option<Rng>) -> usize {
    o.s.begin(&format!("{p:?} {policy:?}"));
    let n = p.threads.len();
    let start: Mutex<Vec<Regs>> = Mutex::new(Vec::new());
    let done: Vec<Mutex<Option<Done>>> = (0..n).map(|_| Mutex::new(None)).collect();
    let all: Mutex<Option<(String, String)>> = Mutex::new(None);
    let base = total();
    let out = sched::run(
        n,
        policy,
        spur,
        false,
        (2_000_000, 4000),
        || {
            let (shared, s) = prepare(p);
            *start.lock().unwrap() = s;
            shared
        },
        |shared, t| {
            let s = std::mem::take(&mut start.lock().unwrap()[t]);
            let d = thread(p, shared, t, s);
            *done[t].lock().unwrap() = Some(d);
        },
        |_| (),
        |shared| {
            let d = done.iter().map(|d| d.lock().unwrap().take()).collect();
            *all.lock().unwrap() = Some(conclude(shared, d, base));
        },
    );
    o.steps += out.steps as u64;
    o.switches += out.switches as u64;
    let (hists, fin) = all.lock().unwrap().take().unwrap_or(("[[[\"bad\"]]]".into(), "[]".into()));
    let bad = out.stuck || out.panicked.iter().any(|x| *x);
    o.record(&par_head(p), &format!("{hists},{fin}"));
    if bad {
        // the store may be unusable from here on
        o.close();
        std::process::exit(0);
    }
    out.steps
}

/// Without the hooks: whatever the machine's own schedule is
#[cfg(not(numeric_verif))]
fn together_free(o: &mut Out, p: &Par) {
    o.s.begin(&format!("{p:?}"));
    let (shared, mut start) = prepare(p);
    let done: Vec<Mutex<Option<Done>>> = (0..p.threads.len()).map(|_| Mutex::new(None)).collect();
    std::thread::scope(|s| {
        for t in 0..p.threads.len() {
            let (st, shared, done) = (std::mem::take(&mut start[t]), &shared, &done);
            s.spawn(move || {
                let d = caught(|| thread(p, shared, t, st));
                *done[t].lock().unwrap() = d;
            });
        }
    });
    let d = done.iter().map(|d| d.lock().unwrap().take()).collect();
    let (hists, fin) = conclude(shared, d, 0);
    o.record(&par_head(p), &format!("{hists},{fin}"));
}

fn gen_par(rng: &mut Rng) -> Par {
    let n = rng.range(2, 3);
    let regs = rng.range(1, 3);
    let pool = Pool::new(rng, 3);
    let shared: Vec<Z> = (0..rng.range(1, 2)).map(|_| pool.z(rng)).collect();
    let mut hand = Vec::new();
    for t in 0..n {
        if rng.chance(2, 3) {
            hand.push((t, rng.below(regs), rng.below(shared.len())));
        }
    }
    let heavy = rng.chance(1, 2);
    let threads = (0..n)
        .map(|t| {
            let len = rng.range(2, 5);
            // drop what was handed over early, to make slots die
            let mut v: Vec<Act> =
                hand.iter().filter(|h| h.0 == t && rng.chance(1, 3)).map(|h| Act::Drop(h.1)).collect();
            v.extend(program(rng, &pool, regs, shared.len(), len, 260, heavy));
            v
        })
        .collect();
    Par { shared, hand, regs, threads, read: true }
}

/// A schedule of the interner specification, played by big integers
#[cfg(numeric_verif)]
fn parse(line: &str) -> Option<(Par, Policy)> {
    let mut w = line.split(' ');
    let kind = w.next()?;
    let num = |w: &mut std::str::Split<'_, char>| w.next().unwrap().parse::<usize>().unwrap();
    num(&mut w);
    let nt = num(&mut w);
    let value = |v: usize| Z::new(false, vec![v as u64, 77]);
    let mut threads = Vec::new();
    let regs = 6;
    for _ in 0..nt {
        let n = num(&mut w);
        // registers in the order the specification's ids are held
        let mut held: Vec<usize> = if kind == "held" { vec![0] } else { vec![] };
        let mut next = 1;
        let mut acts = Vec::new();
        for _ in 0..n {
            let (op, i) = (w.next()?, num(&mut w));
            match op {
                "add" => {
                    acts.push(Act::New(next, value(i)));
                    held.push(next);
                    next += 1;
                }
                "dup" => {
                    acts.push(Act::Clone(next, held[i]));
                    held.push(next);
                    next += 1;
                }
                "rel" => acts.push(Act::Drop(held.remove(i))),
                _ => acts.push(Act::Look(held[i], held[i])),
            }
        }
        threads.push(acts);
    }
    let n = num(&mut w);
    let runs = (0..n).map(|_| (num(&mut w), num(&mut w))).collect();
    let hand = if kind == "held" { (0..nt).map(|t| (t, 0, 0)).collect() } else { vec![] };
    let shared = if kind == "held" { vec![value(1)] } else { vec![] };
    Some((Par { shared, hand, regs, threads, read: false }, Policy::Script(runs)))
}

/// A behaviour of the store specification: words `op d a b`
fn parse_history(line: &str) -> Vec<Act> {
    // the specification's value v is v times a number of two limbs
    let large = |i: usize| match i {
        0 => Z::new(true, vec![2, 2]),
        1 => Z::new(true, vec![1, 1]),
        2 => Z::small(0),
        3 => Z::new(false, vec![1, 1]),
        _ => Z::new(false, vec![2, 2]),
    };
    let w: Vec<&str> = line.split(' ').collect();
    w.chunks(4)
        .map(|c| {
            let n = |i: usize| c[i].parse::<usize>().unwrap();
            let (d, a, b) = (n(1), n(2), n(3));
            match c[0] {
                "new" => Act::New(d, large(a)),
                "clone" => Act::Clone(d, a),
                "clonefrom" => Act::CloneFrom(d, a),
                "move" => Act::Move(d, a),
                "take" => Act::Take(d, a),
                "swap" => Act::Swap(a, b),
                "drop" => Act::Drop(a),
                "nego" => Act::Neg("o", d, a),
                "negr" => Act::Neg("r", d, a),
                "addrr" => Act::Bin("add", "rr", d, a, b),
                "addoo" => Act::Bin("add", "oo", d, a, b),
                "subor" => Act::Bin("sub", "or", d, a, b),
                "subro" => Act::Bin("sub", "ro", d, a, b),
                "addar" => Act::Asg("add", "ar", d, b),
                "subao" => Act::Asg("sub", "ao", d, b),
                x => panic!("{x}"),
            }
        })
        .collect()
}

fn main() {
    let a = Args::get();
    let extra: Vec<String> = std::env::args().skip(6).collect();
    let (shard, shards): (usize, usize) = (extra[0].parse().unwrap(), extra[1].parse().unwrap());
    let mut rng = Rng::new(a.rng().next() ^ (shard as u64) << 32);
    let r = &mut rng;
    let s = Sink::new(&a.out, 1, 10, &format!("{}{shard}", a.tag));
    let mut o = Out { s, seen: HashSet::new(), runs: 0, steps: 0, switches: 0 };
    std::panic::set_hook(Box::new(|_| ()));
    let text = extra.get(2).map(|p| std::fs::read_to_string(p).expect("schedules")).unwrap_or_default();
    let lines = text.lines().skip(shard).step_by(shards);
    if a.prop == "C05" {
        for l in lines {
            alone(&mut o, &parse_history(l), 3, usize::MAX);
        }
        for i in 0..60 * a.scale {
            let pool = Pool::new(r, 4);
            let k = r.range(2, 6);
            let heavy = i % 4 != 0;
            let p = program(r, &pool, k, 0, if i % 8 == 0 { 60 } else { 24 }, 420, heavy);
            alone(&mut o, &p, k, usize::MAX);
        }
        for _ in 0..(a.scale / 10).max(1) {
            bulk(&mut o, r);
        }
    } else {
        #[cfg(numeric_verif)]
        {
            let ballast: Vec<BigInt> = (0..30).map(|i| Z::new(false, vec![i, 1 << 40]).big()).collect();
            for l in lines {
                if let Some((p, pol)) = parse(l) {
                    together(&mut o, &p, pol, None);
                }
            }
            drop(ballast);
            for _ in 0..6 * a.scale {
                let p = gen_par(r);
                let n = p.threads.len();
                let base = together(&mut o, &p, Policy::At(vec![]), None);
                for k in 0..30 {
                    let pol = match k % 5 {
                        0 => Policy::At(vec![(0, r.below(n)), (r.range(1, base.max(2)), r.below(n))]),
                        1 => Policy::At(
                            (0..4).map(|i| (if i == 0 { 0 } else { r.range(1, base.max(2)) }, r.below(n))).collect(),
                        ),
                        2 => Policy::Random(Rng::new(r.next()), 1, *r.pick(&[2, 5, 20, 60])),
                        3 => Policy::Pct(Rng::new(r.next()), r.range(1, 4), base + base / 2),
                        _ => {
                            let at = r.range(1, base.max(2));
                            let d = r.range(1, 60);
                            Policy::At(vec![(0, r.below(n)), (at, r.below(n)), (at + d, r.below(n))])
                        }
                    };
                    let sp = r.chance(1, 4).then(|| Rng::new(r.next()));
                    together(&mut o, &p, pol, sp);
                }
            }
        }
        #[cfg(not(numeric_verif))]
        for _ in 0..400 * a.scale {
            let p = gen_par(r);
            together_free(&mut o, &p);
        }
    }
    o.close();
}
