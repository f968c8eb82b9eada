//! Static iterators: C26. Random adapter chains over drop-tracked elements, recorded as event logs.

use numeric_static_iter::{zip_all, IntoStaticIter, StaticIter, StaticRangeTo};
use numeric_traits::identity::{One, Zero};
use numeric_verif_harness::*;
use std::array;
use std::cell::RefCell;
use std::ops::{Add, Mul};

thread_local! {
    static LOG: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}
fn log(e: String) {
    LOG.with(|l| l.borrow_mut().push(e));
}

/// An element; its drop is logged
struct Tok(usize);
impl Drop for Tok {
    fn drop(&mut self) {
        log(format!("[\"d\",{}]", self.0));
    }
}

enum Val {
    Tok(Tok),
    Ref(usize),
    Idx(usize),
    Pair(Box<(Val, Val)>),
    List(Vec<Val>),
    Seq(Vec<Val>),
}
impl Val {
    fn j(&self) -> String {
        match self {
            Val::Tok(t) => format!("[\"t\",{}]", t.0),
            Val::Ref(i) => format!("[\"r\",{i}]"),
            Val::Idx(i) => format!("[\"i\",{i}]"),
            Val::Pair(p) => format!("[\"p\",{},{}]", p.0.j(), p.1.j()),
            Val::List(l) | Val::Seq(l) => format!("[\"l\",{}]", items(l)),
        }
    }
    fn seq(self) -> Vec<Val> {
        match self {
            Val::Seq(l) => l,
            v => vec![v],
        }
    }
}
fn items(l: &[Val]) -> String {
    list(l.iter().map(|v| v.j()))
}
// Sums and products concatenate: they show what was combined, in which order
impl Add for Val {
    type Output = Val;
    fn add(self, o: Val) -> Val {
        let mut s = self.seq();
        s.extend(o.seq());
        Val::Seq(s)
    }
}
impl Mul for Val {
    type Output = Val;
    fn mul(self, o: Val) -> Val {
        self + o
    }
}
impl Zero for Val {
    fn zero() -> Val {
        Val::Seq(vec![])
    }
    fn is_zero(&self) -> bool {
        matches!(self, Val::Seq(s) if s.is_empty())
    }
}
impl One for Val {
    fn one() -> Val {
        Val::Seq(vec![])
    }
    fn is_one(&self) -> bool {
        self.is_zero()
    }
}

/// Any chain, so that chains can be built at run time; the adapters themselves are the crate's
struct Dyn<const N: usize>(Box<dyn FnMut(usize) -> Val>);
impl<const N: usize> Dyn<N> {
    fn of<I: StaticIter<N> + 'static>(mut it: I, f: impl Fn(I::Item) -> Val + 'static) -> Dyn<N> {
        Dyn(Box::new(move |i| f(unsafe { it.idx(i) })))
    }
}
impl<const N: usize> StaticIter<N> for Dyn<N> {
    type Item = Val;
    unsafe fn idx(&mut self, idx: usize) -> Val {
        (self.0)(idx)
    }
}

/// What a chain yields
trait Item: Sized {
    fn val(self) -> Val;
    fn sum<const N: usize, I: StaticIter<N, Item = Self>>(it: I) -> Val {
        it.map(Item::val).sum()
    }
    fn product<const N: usize, I: StaticIter<N, Item = Self>>(it: I) -> Val {
        it.map(Item::val).product()
    }
}
impl Item for Val {
    fn val(self) -> Val {
        self
    }
    fn sum<const N: usize, I: StaticIter<N, Item = Val>>(it: I) -> Val {
        it.sum()
    }
    fn product<const N: usize, I: StaticIter<N, Item = Val>>(it: I) -> Val {
        it.product()
    }
}
impl Item for Tok {
    fn val(self) -> Val {
        Val::Tok(self)
    }
}
impl Item for &'static Tok {
    fn val(self) -> Val {
        Val::Ref(self.0)
    }
}
impl Item for usize {
    fn val(self) -> Val {
        Val::Idx(self)
    }
}
impl<A: Item, B: Item> Item for (A, B) {
    fn val(self) -> Val {
        pair((self.0.val(), self.1.val()))
    }
}
impl<T: Item, const M: usize> Item for [T; M] {
    fn val(self) -> Val {
        Val::List(self.into_iter().map(Item::val).collect())
    }
}
/// A large, strictly aligned element
#[repr(align(64))]
struct Wide {
    t: Tok,
    _pad: [u8; 100],
}
impl Item for Wide {
    fn val(self) -> Val {
        Val::Tok(self.t)
    }
}

// Chains of concrete types: every source and adapter is itself what is consumed, and what the
// other adapters wrap.
struct C<I>(I, String);
fn csrc<const N: usize>(b: &mut Build) -> C<impl StaticIter<N, Item = Tok>> {
    b.sources += 1;
    C(tokens::<N>(b.sources).into_static_iter(), format!("[\"src\",{}]", b.sources))
}
fn cvals<const N: usize>(b: &mut Build) -> C<impl StaticIter<N, Item = Val>> {
    b.sources += 1;
    C(tokens::<N>(b.sources).map(Val::Tok).into_static_iter(), format!("[\"src\",{}]", b.sources))
}
fn cwide<const N: usize>(b: &mut Build) -> C<impl StaticIter<N, Item = Wide>> {
    b.sources += 1;
    C(
        tokens::<N>(b.sources).map(|t| Wide { t, _pad: [7; 100] }).into_static_iter(),
        format!("[\"src\",{}]", b.sources),
    )
}
fn cref<const N: usize>(b: &mut Build) -> C<impl StaticIter<N, Item = &'static Tok>> {
    b.sources += 1;
    let arr: Box<[Tok; N]> = Box::new(tokens::<N>(b.sources));
    let r: &'static [Tok; N] = unsafe { &*(&*arr as *const [Tok; N]) };
    b.refs.push(arr);
    C(r.into_static_iter(), format!("[\"ref\",{}]", b.sources))
}
fn crange<const N: usize>() -> C<impl StaticIter<N, Item = usize>> {
    C(StaticRangeTo::<N>.into_static_iter(), "[\"range\"]".into())
}
fn cmap<const N: usize, I: StaticIter<N>>(
    b: &mut Build,
    fresh: bool,
    i: C<I>,
) -> C<impl StaticIter<N, Item = Val>>
where
    I::Item: Item,
{
    b.maps += 1;
    let f = b.maps;
    let boom = if b.panic.0 == f as i64 { b.panic.1 } else { -1 };
    let mut calls = 0;
    let m = i.0.map(move |v: I::Item| {
        let v = v.val();
        log(format!("[\"c\",{f},{}]", v.j()));
        if calls == boom {
            panic!("planned");
        }
        calls += 1;
        if fresh {
            drop(v);
            Val::Tok(Tok(100_000 * f + calls as usize))
        } else {
            v
        }
    });
    C(m, format!("[\"map\",{f},\"{}\",{}]", if fresh { "new" } else { "id" }, i.1))
}
fn cenum<const N: usize, I: StaticIter<N>>(i: C<I>) -> C<impl StaticIter<N, Item = (usize, I::Item)>> {
    C(i.0.enumerate(), format!("[\"enum\",{}]", i.1))
}
fn czip<const N: usize, I: StaticIter<N>, J: StaticIter<N>>(
    i: C<I>,
    j: C<J>,
) -> C<impl StaticIter<N, Item = (I::Item, J::Item)>> {
    C(i.0.zip(j.0), format!("[\"zip\",{},{}]", i.1, j.1))
}
fn ctup<const N: usize, I: StaticIter<N>, J: StaticIter<N>>(
    i: C<I>,
    j: C<J>,
) -> C<impl StaticIter<N, Item = (I::Item, J::Item)>> {
    C(zip_all((i.0, j.0)), format!("[\"zip\",{},{}]", i.1, j.1))
}
fn carr<const N: usize, const M: usize, I: StaticIter<N>>(
    l: [C<I>; M],
) -> C<impl StaticIter<N, Item = [I::Item; M]>> {
    let d = format!("[\"zipa\",{}]", list(l.iter().map(|c| c.1.clone())));
    C(zip_all(l.map(|c| c.0)), d)
}

const CONCRETE: usize = 37;
/// One of the concrete chains; returns how many maps it has
fn concrete<const N: usize>(
    s: &mut Sink,
    which: usize,
    consumer: &str,
    fail: i64,
    panic: (i64, i64),
) -> usize {
    let mut b0 = Build::new(panic);
    let b = &mut b0;
    macro_rules! go {
        ($e:expr) => {{
            let c = $e;
            let maps = b.maps;
            drive(s, b0, c.0, c.1, consumer, fail, panic);
            maps
        }};
    }
    macro_rules! m {
        ($f:literal, $e:expr) => {{
            let x = $e;
            cmap(b, $f, x)
        }};
    }
    macro_rules! z {
        ($z:ident, $x:expr, $y:expr) => {{
            let x = $x;
            let y = $y;
            $z(x, y)
        }};
    }
    match which {
        0 => go!(csrc::<N>(b)),
        1 => go!(cref::<N>(b)),
        2 => go!(crange::<N>()),
        3 => go!(cwide::<N>(b)),
        4 => go!(cvals::<N>(b)),
        5 => go!(m!(false, csrc::<N>(b))),
        6 => go!(m!(true, cref::<N>(b))),
        7 => go!(m!(true, crange::<N>())),
        8 => go!(cenum(csrc::<N>(b))),
        9 => go!(cenum(crange::<N>())),
        10 => go!(cenum(cref::<N>(b))),
        11 => go!(cenum(m!(true, csrc::<N>(b)))),
        12 => go!(cenum(cenum(csrc::<N>(b)))),
        13 => go!(z!(czip, csrc::<N>(b), csrc::<N>(b))),
        14 => go!(z!(czip, csrc::<N>(b), cref::<N>(b))),
        15 => go!(z!(czip, crange::<N>(), csrc::<N>(b))),
        16 => go!(z!(czip, cwide::<N>(b), cenum(csrc::<N>(b)))),
        17 => go!(z!(czip, csrc::<N>(b), m!(true, csrc::<N>(b)))),
        18 => go!(z!(czip, m!(true, csrc::<N>(b)), m!(true, csrc::<N>(b)))),
        19 => go!(z!(ctup, csrc::<N>(b), csrc::<N>(b))),
        20 => go!(z!(ctup, cref::<N>(b), m!(false, csrc::<N>(b)))),
        21 => go!(z!(ctup, m!(true, csrc::<N>(b)), csrc::<N>(b))),
        22 => go!(z!(ctup, z!(ctup, csrc::<N>(b), csrc::<N>(b)), crange::<N>())),
        23 => go!(z!(czip, z!(czip, csrc::<N>(b), csrc::<N>(b)), csrc::<N>(b))),
        24 => go!(m!(true, z!(czip, csrc::<N>(b), csrc::<N>(b)))),
        25 => go!(m!(false, m!(true, m!(false, csrc::<N>(b))))),
        26 => go!(m!(false, cenum(z!(ctup, csrc::<N>(b), cwide::<N>(b))))),
        27 => go!(carr::<N, 0, _>(array::from_fn(|_| csrc::<N>(b)))),
        28 => go!(carr([csrc::<N>(b)])),
        29 => go!(carr([csrc::<N>(b), csrc::<N>(b)])),
        30 => go!(carr([cref::<N>(b), cref::<N>(b), cref::<N>(b)])),
        31 => go!(carr([csrc::<N>(b), csrc::<N>(b), csrc::<N>(b), csrc::<N>(b)])),
        32 => go!(carr::<N, 7, _>(array::from_fn(|_| cwide::<N>(b)))),
        33 => go!(carr::<N, 5, _>(array::from_fn(|_| m!(true, csrc::<N>(b))))),
        34 => go!(m!(false, carr([cenum(csrc::<N>(b)), cenum(csrc::<N>(b))]))),
        35 => go!(cenum(carr([csrc::<N>(b), csrc::<N>(b), csrc::<N>(b)]))),
        _ => go!(z!(czip, carr([crange::<N>(), crange::<N>()]), csrc::<N>(b))),
    }
}
fn concretes<const N: usize>(s: &mut Sink, rng: &mut Rng, positions: bool) {
    for w in 0..CONCRETE {
        let maps = concrete::<N>(s, w, "drop", -1, (-1, -1)) as i64;
        for c in CONSUMERS {
            concrete::<N>(s, w, c, -1, (-1, -1));
            if N == 0 {
                continue;
            }
            let closure = !matches!(c, "array" | "sum" | "product");
            let at: Vec<i64> = if positions { (0..N as i64).collect() } else { vec![rng.below(N) as i64] };
            for j in at {
                if closure && c != "fold" {
                    concrete::<N>(s, w, c, j, (-1, -1));
                }
                if closure {
                    concrete::<N>(s, w, c, -1, (0, j));
                }
                for f in 1..=maps {
                    concrete::<N>(s, w, c, -1, (f, j));
                }
            }
        }
    }
}

// Sources of values which are already results: nothing maps them
fn raw<const N: usize>(s: &mut Sink, fail: i64) {
    let b = Build::new((-1, -1));
    let head = format!("\"it\",{N},[\"src\",1],\"rawres\",{fail},[-1,-1]");
    s.begin(&head);
    let mut k = -1;
    let arr = tokens::<N>(1).map(|t| {
        k += 1;
        if k >= fail && fail >= 0 { Err(t) } else { Ok(t) }
    });
    let done = attempt(|| match arr.into_static_iter().collect::<Result<[Tok; N], Tok>>() {
        Ok(r) => {
            let r: Vec<Val> = r.into_iter().map(Val::Tok).collect();
            result(format!("[\"ok\",[\"l\",{}]]", items(&r)), r)
        }
        Err(e) => {
            let e = Val::Tok(e);
            result(format!("[\"err\",{}]", e.j()), e)
        }
    });
    if done.is_none() {
        log("[\"res\",[\"panic\"]]".into());
    }
    log("[\"end\"]".into());
    drop(b);
    let out = LOG.with(|l| list(l.borrow_mut().drain(..)));
    s.end(&head, &out);
}

// Elements without a size: only how often they are dropped can be seen
struct Unit;
thread_local! {
    static UNITS: std::cell::Cell<i64> = const { std::cell::Cell::new(0) };
}
impl Drop for Unit {
    fn drop(&mut self) {
        UNITS.set(UNITS.get() + 1);
    }
}
fn units<const N: usize>(s: &mut Sink, stop: i64) {
    for how in ["drop", "array", "opt", "try_fold", "zip", "map"] {
        let head = format!("\"unit\",{N},\"{how}\",{stop}");
        s.begin(&head);
        UNITS.set(0);
        let made: [Unit; N] = array::from_fn(|_| Unit);
        let other: [Unit; N] = array::from_fn(|_| Unit);
        let it = made.into_static_iter();
        let mut k = -1;
        let mut stops = move || {
            k += 1;
            k == stop
        };
        let done = attempt(|| match how {
            "array" => {
                let r: [Unit; N] = it.collect();
                drop(r);
                drop(other);
            }
            "opt" => {
                let r: Option<[Unit; N]> = it.map(|u| if stops() { None } else { Some(u) }).collect();
                drop(r);
                drop(other);
            }
            "try_fold" => {
                let r: Result<Vec<Unit>, Unit> = it.try_fold(vec![], |mut acc, u| {
                    if stops() {
                        return Err(u);
                    }
                    acc.push(u);
                    Ok(acc)
                });
                drop(r);
                drop(other);
            }
            "zip" => {
                it.zip(other).any(|_| stops());
            }
            "map" => {
                let r: [(usize, Unit); N] = it
                    .map(|u| {
                        if stops() {
                            panic!("planned");
                        }
                        u
                    })
                    .enumerate()
                    .collect();
                drop(r);
                drop(other);
            }
            _ => {
                drop(it);
                drop(other);
            }
        });
        let out = format!("[{},{}]", UNITS.get(), done.is_some() as u8);
        s.end(&head, &out);
    }
}

// Plain numbers
fn numbers<const N: usize>(s: &mut Sink, rng: &mut Rng) {
    let v: [i64; N] = array::from_fn(|_| rng.below(9) as i64 - 4);
    let vj = list(v.iter().map(i64::to_string));
    for how in ["sum", "product", "range", "index", "dot"] {
        let head = format!("\"num\",{vj},\"{how}\"");
        s.begin(&head);
        let r = match how {
            "sum" => v.into_static_iter().sum(),
            "product" => {
                let mut few = 0;
                // at most six factors other than one
                v.into_static_iter()
                    .map(|x| {
                        few += 1;
                        if few <= 6 { x } else { 1 }
                    })
                    .product()
            }
            "range" => StaticRangeTo::<N>.into_static_iter().sum() as i64,
            "index" => v.into_static_iter().enumerate().map(|(i, x)| i as i64 * x).sum(),
            _ => (&v).into_static_iter().zip(v).map(|(a, b)| a * b).sum(),
        };
        s.end(&head, &r.to_string());
    }
}

fn pair((a, b): (Val, Val)) -> Val {
    Val::Pair(Box::new((a, b)))
}

struct Build {
    sources: usize,
    refs: Vec<Box<dyn std::any::Any>>,
    maps: usize,
    /// the closure that panics, and at which of its calls
    panic: (i64, i64),
}

impl Build {
    fn new(panic: (i64, i64)) -> Build {
        LOG.with(|l| l.borrow_mut().clear());
        Build { sources: 0, refs: Vec::new(), maps: 0, panic }
    }
}

fn tokens<const N: usize>(k: usize) -> [Tok; N] {
    array::from_fn(|i| Tok(1000 * k + i + 1))
}

/// A chain plan, independent of N
#[derive(Clone)]
enum Plan {
    Src,
    Ref,
    Range,
    Map(bool, Box<Plan>),
    Enum(Box<Plan>),
    Zip(u8, Box<Plan>, Box<Plan>),
    ZipA(Vec<Plan>),
}

fn plan(rng: &mut Rng, depth: usize) -> Plan {
    if depth == 0 {
        return match rng.below(8) {
            0 => Plan::Range,
            1 => Plan::Ref,
            _ => Plan::Src,
        };
    }
    let d = depth - 1;
    match rng.below(10) {
        0..=2 => Plan::Map(rng.chance(1, 2), Box::new(plan(rng, d))),
        3 => Plan::Enum(Box::new(plan(rng, d))),
        4 | 5 => Plan::Zip(0, Box::new(plan(rng, d)), Box::new(plan(rng, d))),
        6 => Plan::Zip(1, Box::new(plan(rng, d)), Box::new(plan(rng, d))),
        7 | 8 => {
            let n = rng.below(6);
            Plan::ZipA((0..n).map(|_| plan(rng, d)).collect())
        }
        _ => plan(rng, 0),
    }
}

fn maps_in(p: &Plan) -> usize {
    match p {
        Plan::Map(_, i) => 1 + maps_in(i),
        Plan::Enum(i) => maps_in(i),
        Plan::Zip(_, a, b) => maps_in(a) + maps_in(b),
        Plan::ZipA(l) => l.iter().map(maps_in).sum(),
        _ => 0,
    }
}

/// Builds the chain, returning it with its description
fn build<const N: usize>(b: &mut Build, p: &Plan) -> (Dyn<N>, String) {
    match p {
        Plan::Src => {
            b.sources += 1;
            let k = b.sources;
            (Dyn::of(tokens::<N>(k).into_static_iter(), Val::Tok), format!("[\"src\",{k}]"))
        }
        Plan::Ref => {
            b.sources += 1;
            let k = b.sources;
            let arr: Box<[Tok; N]> = Box::new(tokens::<N>(k));
            // Kept alive in `b` until everything else is gone
            let r: &'static [Tok; N] = unsafe { &*(&*arr as *const [Tok; N]) };
            b.refs.push(arr);
            (Dyn::of(r.into_static_iter(), |t: &Tok| Val::Ref(t.0)), format!("[\"ref\",{k}]"))
        }
        Plan::Range => (Dyn::of(StaticRangeTo::<N>.into_static_iter(), Val::Idx), "[\"range\"]".into()),
        Plan::Map(fresh, i) => {
            let (i, d) = build::<N>(b, i);
            b.maps += 1;
            let f = b.maps;
            let boom = if b.panic.0 == f as i64 { b.panic.1 } else { -1 };
            let fresh = *fresh;
            let mut calls = 0;
            let m = i.map(move |v: Val| {
                log(format!("[\"c\",{f},{}]", v.j()));
                if calls == boom {
                    panic!("planned");
                }
                calls += 1;
                if fresh {
                    drop(v);
                    Val::Tok(Tok(100_000 * f + calls as usize))
                } else {
                    v
                }
            });
            (Dyn::of(m, |v| v), format!("[\"map\",{f},\"{}\",{d}]", if fresh { "new" } else { "id" }))
        }
        Plan::Enum(i) => {
            let (i, d) = build::<N>(b, i);
            (Dyn::of(i.enumerate(), |(n, v)| pair((Val::Idx(n), v))), format!("[\"enum\",{d}]"))
        }
        Plan::Zip(kind, l, r) => {
            let (li, ld) = build::<N>(b, l);
            let (ri, rd) = build::<N>(b, r);
            match kind {
                0 => (Dyn::of(li.zip(ri), pair), format!("[\"zip\",{ld},{rd}]")),
                _ => (Dyn::of(zip_all((li, ri)), pair), format!("[\"zip\",{ld},{rd}]")),
            }
        }
        Plan::ZipA(l) => {
            let parts: Vec<_> = l.iter().map(|p| build::<N>(b, p)).collect();
            let d = format!("[\"zipa\",{}]", list(parts.iter().map(|p| p.1.clone())));
            let mut its = parts.into_iter().map(|p| p.0);
            macro_rules! zipa {
                ($m:literal) => {{
                    let a: [Dyn<N>; $m] = array::from_fn(|_| its.next().unwrap());
                    Dyn::of(zip_all(a), |x: [Val; $m]| Val::List(x.into_iter().collect()))
                }};
            }
            let it = match l.len() {
                0 => zipa!(0),
                1 => zipa!(1),
                2 => zipa!(2),
                3 => zipa!(3),
                4 => zipa!(4),
                _ => zipa!(5),
            };
            (it, d)
        }
    }
}

/// Give the result to the log, then drop it
fn result(v: String, owned: impl Sized) {
    log(format!("[\"res\",{v}]"));
    drop(owned);
}

fn run<const N: usize>(s: &mut Sink, p: &Plan, consumer: &str, fail: i64, panic: (i64, i64)) {
    let mut b = Build::new(panic);
    let (it, desc) = build::<N>(&mut b, p);
    drive(s, b, it, desc, consumer, fail, panic);
}

/// Runs the consumer over the chain, and records what happened
fn drive<const N: usize, I: StaticIter<N>>(
    s: &mut Sink,
    b: Build,
    it: I,
    desc: String,
    consumer: &str,
    fail: i64,
    panic: (i64, i64),
) where
    I::Item: Item,
{
    let head = format!("\"it\",{N},{desc},\"{consumer}\",{fail},[{},{}]", panic.0, panic.1);
    s.begin(&head);
    let mut calls = 0i64;
    // true at the failing call; panics if the consumer's closure is to panic
    let mut seen = move |v: &Val| {
        log(format!("[\"c\",0,{}]", v.j()));
        if panic.0 == 0 && calls == panic.1 {
            panic!("planned");
        }
        calls += 1;
        calls - 1 == fail
    };
    let done = attempt(|| match consumer {
        "array" => {
            let r: [I::Item; N] = it.collect();
            let r: Vec<Val> = r.into_iter().map(Item::val).collect();
            result(format!("[\"ok\",[\"l\",{}]]", items(&r)), r)
        }
        "opt" => {
            let r: Option<[Val; N]> = it.map(|v| { let v = v.val(); if seen(&v) { None } else { Some(v) } }).collect();
            match r {
                Some(r) => result(format!("[\"ok\",[\"l\",{}]]", items(&r)), r),
                None => result("[\"none\"]".into(), ()),
            }
        }
        "res" => {
            let r: Result<[Val; N], Val> = it.map(|v| { let v = v.val(); if seen(&v) { Err(v) } else { Ok(v) } }).collect();
            match r {
                Ok(r) => result(format!("[\"ok\",[\"l\",{}]]", items(&r)), r),
                Err(e) => result(format!("[\"err\",{}]", e.j()), e),
            }
        }
        // the inner layer fails
        "optopt" | "optopt2" => {
            let inner = consumer == "optopt2";
            let r: Option<Option<[Val; N]>> =
                it.map(|v| { let v = v.val(); if seen(&v) { inner.then_some(None) } else { Some(Some(v)) } }).collect();
            match r {
                Some(Some(r)) => result(format!("[\"ok\",[\"l\",{}]]", items(&r)), r),
                Some(None) => result("[\"none2\"]".into(), ()),
                None => result("[\"none\"]".into(), ()),
            }
        }
        "resopt" | "resopt2" => {
            let inner = consumer == "resopt2";
            let r: Result<Option<[Val; N]>, Val> = it
                .map(Item::val).map(|v| match (seen(&v), inner) {
                    (true, true) => Ok(None),
                    (true, false) => Err(v),
                    _ => Ok(Some(v)),
                })
                .collect();
            match r {
                Ok(Some(r)) => result(format!("[\"ok\",[\"l\",{}]]", items(&r)), r),
                Ok(None) => result("[\"none2\"]".into(), ()),
                Err(e) => result(format!("[\"err\",{}]", e.j()), e),
            }
        }
        "optres" | "optres2" => {
            let inner = consumer == "optres2";
            let r: Option<Result<[Val; N], Val>> = it
                .map(Item::val).map(|v| match (seen(&v), inner) {
                    (true, true) => Some(Err(v)),
                    (true, false) => None,
                    _ => Some(Ok(v)),
                })
                .collect();
            match r {
                Some(Ok(r)) => result(format!("[\"ok\",[\"l\",{}]]", items(&r)), r),
                Some(Err(e)) => result(format!("[\"err\",{}]", e.j()), e),
                None => result("[\"none\"]".into(), ()),
            }
        }
        "fold" => {
            let r = it.fold(Vec::new(), |mut acc, v| {
                let v = v.val();
                seen(&v);
                acc.push(v);
                acc
            });
            result(format!("[\"ok\",[\"l\",{}]]", items(&r)), r)
        }
        "try_fold" => {
            let r: Result<Vec<Val>, Vec<Val>> = it.try_fold(Vec::new(), |mut acc, v| {
                let v = v.val();
                let f = seen(&v);
                acc.push(v);
                if f { Err(acc) } else { Ok(acc) }
            });
            match r {
                Ok(r) => result(format!("[\"ok\",[\"l\",{}]]", items(&r)), r),
                Err(r) => result(format!("[\"err\",[\"l\",{}]]", items(&r)), r),
            }
        }
        "any" => {
            let r = it.any(|v| seen(&v.val()));
            result(format!("[\"ok\",{}]", r.j()), ())
        }
        "all" => {
            let r = it.all(|v| !seen(&v.val()));
            result(format!("[\"ok\",{}]", r.j()), ())
        }
        "sum" => {
            let r = I::Item::sum(it).seq();
            result(format!("[\"ok\",[\"l\",{}]]", items(&r)), r)
        }
        "product" => {
            let r = I::Item::product(it).seq();
            result(format!("[\"ok\",[\"l\",{}]]", items(&r)), r)
        }
        _ => {
            drop(it);
            result("[\"dropped\"]".into(), ())
        }
    });
    if done.is_none() {
        log("[\"res\",[\"panic\"]]".into());
    }
    log("[\"end\"]".into());
    drop(b);
    
    let out = LOG.with(|l| list(l.borrow_mut().drain(..)));
    s.end(&head, &out);
}

const CONSUMERS: [&str; 15] = [
    "array", "opt", "res", "optopt", "optopt2", "resopt", "resopt2", "optres", "optres2", "fold", "try_fold", "any",
    "all", "sum", "product",
];

fn one<const N: usize>(s: &mut Sink, rng: &mut Rng, p: &Plan) {

    for c in CONSUMERS {
        // without failure, and one of: early exit, panic in a map, panic in the consumer
        run::<N>(s, p, c, -1, (-1, -1));
        if N == 0 {
            continue;
        }
        let closure = !matches!(c, "array" | "sum" | "product");
        let stops = closure && c != "fold";
        if stops {
            let j = rng.below(N) as i64;
            run::<N>(s, p, c, j, (-1, -1));
        }
        let m = maps_in(p);
        if m > 0 {
            run::<N>(s, p, c, -1, (rng.range(1, m) as i64, rng.below(N) as i64));
        }
        if closure {
            run::<N>(s, p, c, -1, (0, rng.below(N) as i64));
        }
    }
    run::<N>(s, p, "drop", -1, (-1, -1));

}

/// Every failing position for one consumer
fn all_positions<const N: usize>(s: &mut Sink, p: &Plan) {
    for c in CONSUMERS {
        for j in 0..N as i64 {
            if !matches!(c, "array" | "sum" | "product") {
                if c != "fold" {
                    run::<N>(s, p, c, j, (-1, -1));
                }
                run::<N>(s, p, c, -1, (0, j));
            }
            for f in 1..=maps_in(p) as i64 {
                run::<N>(s, p, c, -1, (f, j));
            }
        }
    }
}

fn main() {
    let args = Args::get();
    let mut rng = args.rng();
    let r = &mut rng;
    let mut s0 = args.sink(40);
    let s = &mut s0;
    for p in [
        Plan::Src,
        Plan::Ref,
        Plan::Range,
        Plan::Map(false, Box::new(Plan::Src)),
        Plan::Map(true, Box::new(Plan::Src)),
        Plan::Enum(Box::new(Plan::Src)),
        Plan::Zip(0, Box::new(Plan::Src), Box::new(Plan::Src)),
        Plan::Zip(1, Box::new(Plan::Src), Box::new(Plan::Src)),
        Plan::Zip(0, Box::new(Plan::Src), Box::new(Plan::Map(true, Box::new(Plan::Src)))),
        Plan::Zip(1, Box::new(Plan::Map(true, Box::new(Plan::Src))), Box::new(Plan::Src)),
        Plan::ZipA(vec![Plan::Src, Plan::Src]),
        Plan::ZipA(vec![Plan::Src, Plan::Map(false, Box::new(Plan::Src)), Plan::Src]),
    ] {
        one::<0>(s, r, &p);
        one::<1>(s, r, &p);
        one::<4>(s, r, &p);
        all_positions::<4>(s, &p);
        one::<17>(s, r, &p);
        one::<300>(s, r, &p);
    }
    concretes::<4>(s, r, true);
    concretes::<0>(s, r, false);
    concretes::<1>(s, r, false);
    for _ in 0..args.scale {
        concretes::<3>(s, r, false);
        concretes::<9>(s, r, false);
    }
    macro_rules! small {
        ($($n:literal)*) => {$(
            raw::<$n>(s, -1);
            for j in 0..$n {
                raw::<$n>(s, j);
            }
            units::<$n>(s, -1);
            for j in 0..$n {
                units::<$n>(s, j);
            }
            for _ in 0..4 * args.scale {
                numbers::<$n>(s, r);
            }
        )*};
    }
    small!(0 1 2 3 5 12);
    for _ in 0..12 * args.scale {
        let d = r.range(1, 4);
        let p = plan(r, d);
        match r.below(9) {
            0 => one::<0>(s, r, &p),
            1 => one::<1>(s, r, &p),
            2 => one::<2>(s, r, &p),
            3 => one::<3>(s, r, &p),
            4 => one::<5>(s, r, &p),
            5 => one::<7>(s, r, &p),
            6 => one::<16>(s, r, &p),
            7 => one::<33>(s, r, &p),
            _ => one::<8>(s, r, &p),
        }
    }
    s0.finish();
}
