//! Fixed and Rat: C21, C22.

use numeric_ints::BigInt;
use numeric_reals::{Fixed, Rat};
use numeric_traits::class::{Bounded, BoundedSigned, Integral, Real, Signed};
use numeric_traits::ops::Gcd;
use numeric_traits::identity::{One, Zero};
use numeric_verif_harness::big::{self, Z};
use numeric_verif_harness::*;
use std::mem::ManuallyDrop;

/// The backing integer: `Fixed` is only its raw value
fn raw<T, const N: usize>(f: Fixed<T, N>) -> T {
    assert_eq!(std::mem::size_of::<Fixed<T, N>>(), std::mem::size_of::<T>());
    let f = ManuallyDrop::new(f);
    unsafe { std::mem::transmute_copy::<Fixed<T, N>, T>(&f) }
}

trait Back: Integral + Sized {
    fn js(&self) -> String;
}
macro_rules! back {
    ($($t:ident),*) => { $( impl Back for $t { fn js(&self) -> String { self.j() } } )* };
}
back!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
impl Back for BigInt {
    fn js(&self) -> String {
        self.j()
    }
}

fn rj<T: Back, const N: usize>(f: Fixed<T, N>) -> String {
    raw(f).js()
}

fn cmp_j<F: PartialOrd + PartialEq>(a: &F, b: &F, total: std::cmp::Ordering) -> String {
    format!(
        "[{},{},{},{},{},{},{},{}]",
        total.j(),
        a.partial_cmp(b).unwrap().j(),
        (a == b).j(),
        (a != b).j(),
        (a < b).j(),
        (a <= b).j(),
        (a > b).j(),
        (a >= b).j()
    )
}

/// Operations every backing integer has. `fits` says which bit counts fit.
fn generic<T: Back + Ord, const N: usize>(s: &mut Sink, w: usize, sg: u8, a: &T, b: &T, cap: &Cap) {
    let h1 = |op: &str| format!("\"{op}\",{w},{sg},{N},{}", a.js());
    let h2 = |op: &str| format!("\"{op}\",{w},{sg},{N},{},{}", a.js(), b.js());
    let x = || Fixed::<T, N>::from_raw(a.clone());
    let y = || Fixed::<T, N>::from_raw(b.clone());
    s.val(&h1("raw"), || rj(x()));
    if cap.shl {
        s.val(&h1("val"), || rj(Fixed::<T, N>::from_val(a.clone())));
    }
    s.val(&h2("cmp"), || cmp_j(&x(), &y(), x().cmp(&y())));
    if cap.add {
        s.val(&h2("add"), || rj(x() + y()));
    }
    if cap.sub {
        s.val(&h2("sub"), || rj(x() - y()));
    }
    if cap.mul {
        s.val(&h2("mul"), || rj(x() * y()));
    }
    if cap.div {
        s.val(&h2("div"), || rj(x() / y()));
    }
    if cap.rem {
        s.val(&h2("rem"), || rj(x() % y()));
    }
    s.val(&h1("floor"), || rj(x().floor()));
    if cap.ceil {
        s.val(&h1("ceil"), || rj(x().ceil()));
        s.val(&h1("round"), || rj(x().round()));
    }
    s.val(&h1("trunc"), || rj(x().trunc()));
    s.val(&h1("fract"), || rj(x().fract()));
    s.val(&h1("ident"), || format!("[{},{}]", x().is_zero().j(), x().is_one().j()));
}

fn signed<T: Back + Signed, const N: usize>(s: &mut Sink, w: usize, a: &T, min: bool) {
    let h1 = |op: &str| format!("\"{op}\",{w},1,{N},{}", a.js());
    let x = || Fixed::<T, N>::from_raw(a.clone());
    if !min {
        s.val(&h1("neg"), || rj(-x()));
        s.val(&h1("abs"), || rj(x().abs()));
    }
    s.val(&h1("sign"), || format!("[{},{}]", x().is_positive().j(), x().is_negative().j()));
}

fn consts<T: Back, const N: usize>(s: &mut Sink, w: usize, sg: u8) {
    let h = |c: &str| format!("\"{c}\",{w},{sg},{N},[0,[]]");
    s.val(&h("zero"), || rj(Fixed::<T, N>::zero()));
    s.val(&h("zero"), || rj(Fixed::<T, N>::new()));
    s.val(&h("zero"), || rj(Fixed::<T, N>::default()));
    s.val(&h("one"), || rj(Fixed::<T, N>::one()));
}

/// Which operations have all intermediates in range
#[derive(Default)]
struct Cap {
    shl: bool,
    add: bool,
    sub: bool,
    mul: bool,
    div: bool,
    rem: bool,
    ceil: bool,
}

macro_rules! gen_raw {
    ($rng:ident, $t:ident, $n:expr) => {{
        const BY: usize = std::mem::size_of::<$t>();
        let b: [u8; BY] = $rng.bytes(BY).try_into().unwrap();
        let v = $t::from_le_bytes(b);
        let small = v >> $rng.below($t::BITS as usize);
        let unit = (1 as $t).wrapping_shl($n as u32);
        match $rng.below(12) {
            0 => v,
            1 => $t::MAX - ($rng.below(3) as $t),
            2 => $t::MIN.wrapping_add($rng.below(3) as $t),
            // whole numbers, and their neighbours
            3 | 4 => small.wrapping_mul(unit),
            5 => small.wrapping_mul(unit).wrapping_add(1),
            6 => small.wrapping_mul(unit).wrapping_sub(1),
            // halves, and their neighbours
            7 => small.wrapping_mul(unit).wrapping_add(unit / 2),
            8 => small.wrapping_mul(unit).wrapping_add(unit / 2).wrapping_add(1),
            9 => small.wrapping_mul(unit).wrapping_add(unit / 2).wrapping_sub(1),
            _ => small,
        }
    }};
}

macro_rules! fixed_signed {
    (bounds 1, $s:ident, $t:ident, $n:literal, $h:ident) => {
        $s.val(&$h("minpos"), || rj(<Fixed<$t, $n> as BoundedSigned>::min_positive()));
        $s.val(&$h("maxneg"), || rj(<Fixed<$t, $n> as BoundedSigned>::max_negative()));
    };
    (bounds 0, $s:ident, $t:ident, $n:literal, $h:ident) => {};
    (1, $s:ident, $t:ident, $n:literal, $a:expr) => {
        signed::<$t, $n>($s, $t::BITS as usize, &$a, $a == $t::MIN)
    };
    (0, $s:ident, $t:ident, $n:literal, $a:expr) => {};
}

macro_rules! fixed {
    ($s:ident, $rng:ident, $reps:expr, $t:ident, $sg:tt, [$($n:literal),*]) => { $({
        let w = $t::BITS as usize;
        consts::<$t, $n>($s, w, $sg);
        let h = |c: &str| format!("\"{c}\",{w},{},{},[0,[]]", $sg, $n);
        $s.val(&h("min"), || rj(<Fixed<$t, $n> as Bounded>::min_value()));
        $s.val(&h("max"), || rj(<Fixed<$t, $n> as Bounded>::max_value()));
        fixed_signed!(bounds $sg, $s, $t, $n, h);
        let all: Vec<$t> = if w == 8 { ($t::MIN..=$t::MAX).collect() } else { Vec::new() };
        let one: $t = (1 as $t) << $n;
        for i in 0..$reps + all.len() {
            let (a, b) = if i < all.len() { (all[i], gen_raw!($rng, $t, $n)) }
                         else { (gen_raw!($rng, $t, $n), gen_raw!($rng, $t, $n)) };
            // keep products in range often
            let (a, b) = if i >= all.len() && $rng.chance(1, 2) { (a >> $rng.below(w / 2), b >> (w / 2)) } else { (a, b) };
            let b = if $rng.chance(1, 10) { a } else { b };
            let scaled = a.checked_mul(one);
            let cap = Cap {
                shl: scaled.is_some(),
                add: a.checked_add(b).is_some(),
                sub: a.checked_sub(b).is_some(),
                mul: a.checked_mul(b).is_some(),
                div: b != 0 && scaled.and_then(|x| x.checked_div(b)).is_some(),
                rem: b != 0 && a.checked_rem(b).is_some(),
                ceil: a <= $t::MAX - one,
            };
            generic::<$t, $n>($s, w, $sg, &a, &b, &cap);
            fixed_signed!($sg, $s, $t, $n, a);
            // every digit of the text comes from a * 10^N
            let ten = (10 as $t).checked_pow($n);
            if let Some(_) = ten.and_then(|t| a.checked_mul(t)) {
                $s.val(&format!("\"debug\",{w},{},{},{}", $sg, $n, a.j()), || codes(&format!("{:?}", Fixed::<$t, $n>::from_raw(a))));
            }
            $s.val(&format!("\"binary\",{w},{},{},{}", $sg, $n, a.j()), || codes(&format!("{:b}", Fixed::<$t, $n>::from_raw(a))));
        }
    })* };
}

fn shl(m: &[u64], n: usize) -> Vec<u64> {
    let mut out = vec![0; n / 64];
    let k = n % 64;
    let mut carry = 0;
    for w in m {
        out.push(if k == 0 { *w } else { (w << k) | carry });
        carry = if k == 0 { 0 } else { w >> (64 - k) };
    }
    out.push(carry);
    nat::trim(out)
}

fn big_fixed<const N: usize>(s: &mut Sink, rng: &mut Rng, reps: usize) {
    consts::<BigInt, N>(s, 0, 1);
    for _ in 0..reps {
        let mk = |rng: &mut Rng| {
            let mut z = big::z(rng, 4);
            if rng.chance(1, 3) {
                // a whole number, or just beside one
                let mut m = nat::add(&shl(&z.mag, N), &[rng.below(2) as u64]);
                if rng.chance(1, 2) {
                    m = nat::add(&m, &nat::pow2(N - 1));
                }
                z = Z::new(z.neg, m);
            }
            z.big()
        };
        let (a, b) = (mk(rng), mk(rng));
        let nz = !Zero::is_zero(&b);
        let cap = Cap { shl: true, add: true, sub: true, mul: true, div: nz, rem: nz, ceil: true };
        generic::<BigInt, N>(s, 0, 1, &a, &b, &cap);
        signed::<BigInt, N>(s, 0, &a, false);
    }
}

// ------------------------------------------------------------------ C22

/// Coefficients with a * x + b * y = gcd(|a|, |b|)
fn bezout(a: (bool, u128), b: (bool, u128)) -> (i128, i128) {
    let (mut r0, mut r1) = (a.1, b.1);
    let (mut s0, mut s1, mut t0, mut t1) = (1i128, 0i128, 0i128, 1i128);
    while r1 != 0 {
        let q = (r0 / r1) as i128;
        (r0, r1) = (r1, r0 % r1);
        (s0, s1) = (s1, s0.wrapping_sub(q.wrapping_mul(s1)));
        (t0, t1) = (t1, t0.wrapping_sub(q.wrapping_mul(t1)));
    }
    (if a.0 { -s0 } else { s0 }, if b.0 { -t0 } else { t0 })
}

macro_rules! rat_signed {
    (1, $s:ident, $t:ident, $h1:ident, $x:ident) => {
        $s.run(&$h1("neg"), || pj(-$x));
        $s.run(&$h1("abs"), || pj(Signed::abs($x)));
        $s.val(&$h1("sign"), || format!("[{},{}]", Signed::is_positive(&$x).j(), Signed::is_negative(&$x).j()));
    };
    (0, $s:ident, $t:ident, $h1:ident, $x:ident) => {};
}

macro_rules! rats {
    ($s:ident, $rng:ident, $reps:expr, $t:ident, $sg:tt) => {{
        let w = $t::BITS as usize;
        fn pj(r: Rat<$t>) -> String {
            let (n, d) = r.into_pair();
            let part = |v: $t| if $sg == 1 { ((v as i128) < 0, (v as i128).unsigned_abs()) } else { (false, v as u128) };
            let (x, y) = bezout(part(n), part(d));
            format!("[\"ok\",[{},{}],[{},{}]]", n.j(), d.j(), x.j(), y.j())
        }
        let gen = |rng: &mut Rng, half: bool| -> $t {
            let v = gen_raw!(rng, $t, rng.below(w / 2));
            let v = if half { v >> (w / 2 + rng.below(w / 2)) } else { v };
            if $sg == 1 && v == $t::MIN { v + 1 } else { v }
        };
        let h = |c: &str| format!("\"{c}\",{w},{}", $sg);
        $s.run(&h("zero"), || pj(Rat::<$t>::zero()));
        $s.run(&h("zero"), || pj(Rat::<$t>::default()));
        $s.run(&h("one"), || pj(Rat::<$t>::one()));
        $s.run(&h("max"), || pj(<Rat<$t> as Bounded>::max_value()));
        $s.run(&h("min"), || pj(<Rat<$t> as Bounded>::min_value()));
        for _ in 0..$reps {
            let half = $rng.chance(3, 4);
            let (n, d) = match $rng.below(4) {
                // common factors
                0 => {
                    let g = gen($rng, true);
                    let (p, q) = (gen($rng, true), gen($rng, true));
                    (g.checked_mul(p).unwrap_or(p), g.checked_mul(q).unwrap_or(q))
                }
                1 => (gen($rng, true), gen($rng, true)),
                _ => (gen($rng, half), gen($rng, half)),
            };
            if $sg == 1 && d > 1 && d != $t::MIN && $rng.chance(1, 8) {
                // the minimum over a positive denominator fits
                let n = $t::MIN;
                $s.run(&format!("\"new\",{w},{},{},{}", $sg, n.j(), d.j()), || match Rat::new(n, d) {
                    Some(r) => pj(r),
                    None => "[\"none\"]".into(),
                });
            }
            let (n, d) = if $sg == 1 && (n == $t::MIN || d == $t::MIN) { (1, 2) } else { (n, d) };
            $s.run(&format!("\"new\",{w},{},{},{}", $sg, n.j(), d.j()), || match Rat::new(n, d) {
                Some(r) => pj(r),
                None => "[\"none\"]".into(),
            });
            $s.val(&format!("\"isnew\",{w},{},{},{}", $sg, n.j(), d.j()), || match Rat::new(n, d) {
                Some(r) => {
                    let (a, b) = (*r.numerator(), *r.denominator());
                    format!("[{},{},{}]", r.is_zero().j(), r.is_one().j(), ((a, b) == r.into_pair()).j())
                },
                None => "[0,0,1]".into(),
            });
            if let Some(r) = attempt(|| Rat::new(n, d)).flatten() {
                let (a, b) = r.into_pair();
                $s.val(&format!("\"debug\",{w},{},[{},{}]", $sg, a.j(), b.j()), || codes(&format!("{r:?}")));
            }
            let x = match attempt(|| Rat::new(n, d)).flatten() { Some(x) => x, None => continue };
            let (n2, d2) = match $rng.below(6) {
                0 => { let k = gen($rng, true); (n.checked_mul(k).unwrap_or(n), d.checked_mul(k).unwrap_or(d)) }
                1 => ((0 as $t).wrapping_sub(n), d),
                2 => (d, n),
                _ => (gen($rng, true), gen($rng, true)),
            };
            let (n2, d2) = if $sg == 1 && (n2 == $t::MIN || d2 == $t::MIN) { (2, 3) } else { (n2, d2) };
            let (n2, d2) = if d2 == 0 { (n2, 1) } else { (n2, d2) };
            let y = match attempt(|| Rat::new(n2, d2)).flatten() { Some(y) => y, None => continue };
            let ((a, b), (c, e)) = (x.into_pair(), y.into_pair());
            let p = |x: $t| x.j();
            let args = format!("{w},{},[{},{}],[{},{}]", $sg, p(a), p(b), p(c), p(e));
            $s.val(&format!("\"eq\",{args}"), || format!("[{},{}]", (x == y).j(), (x != y).j()));
            // the products of the textbook formulas, none of them the minimum
            let m = |u: $t, v: $t| u.checked_mul(v).filter(|r| $sg == 0 || *r != $t::MIN);
            let nm = |v: Option<$t>| v.filter(|r| $sg == 0 || *r != $t::MIN);
            let (ae, cb, be) = (m(a, e), m(c, b), m(b, e));
            if let (Some(ae), Some(cb), Some(_)) = (ae, cb, be) {
                if nm(ae.checked_add(cb)).is_some() {
                    $s.run(&format!("\"add\",{args}"), || pj(x + y));
                }
                if nm(ae.checked_sub(cb)).is_some() {
                    $s.run(&format!("\"sub\",{args}"), || pj(x - y));
                }
            }
            if m(a, c).is_some() && be.is_some() {
                $s.run(&format!("\"mul\",{args}"), || pj(x * y));
            }
            if m(a, e).is_some() && m(b, c).is_some() {
                $s.run(&format!("\"div\",{args}"), || pj(x / y));
            }
            let h1 = |c: &str| format!("\"{c}\",{w},{},[{},{}]", $sg, a.j(), b.j());
            $s.run(&h1("floor"), || pj(x.floor()));
            $s.run(&h1("ceil"), || pj(x.ceil()));
            $s.run(&h1("round"), || pj(x.round()));
            rat_signed!($sg, $s, $t, h1, x);
        }
    }};
}

/// Every pair of eight-bit raw values
macro_rules! fixed_tables {
    ($s:ident, $t:ident, $sg:literal, [$($n:literal),*]) => { $({
        type F = Fixed<$t, $n>;
        let one: i64 = 1 << $n;
        let (lo, hi) = ($t::MIN as i64, $t::MAX as i64);
        let fit = |x: i64| lo <= x && x <= hi;
        let x = |v: i64| F::from_raw(v as $t);
        let mut row = |op: &str, a: i64, f: &dyn Fn(i64) -> i64| {
            let head = format!("\"ftab\",\"{op}\",8,{},{},{a},{lo}", $sg, $n);
            $s.run(&head, || answers(lo, hi, f));
        };
        for a in lo..=hi {
            row("cmp", a, &|b| x(a).cmp(&x(b)).t());
            row("add", a, &|b| if fit(a + b) { raw(x(a) + x(b)).t() } else { T_SKIP });
            row("sub", a, &|b| if fit(a - b) { raw(x(a) - x(b)).t() } else { T_SKIP });
            row("mul", a, &|b| if fit(a * b) { raw(x(a) * x(b)).t() } else { T_SKIP });
            row("div", a, &|b| if b != 0 && fit(a * one) && fit(a * one / b) { raw(x(a) / x(b)).t() } else { T_SKIP });
            row("rem", a, &|b| if b != 0 && fit(a / b) { raw(x(a) % x(b)).t() } else { T_SKIP });
        }
        row("val", 0, &|b| if fit(b * one) && fit(one) { raw(F::from_val(b as $t)).t() } else { T_SKIP });
        row("floor", 0, &|b| raw(x(b).floor()).t());
        row("ceil", 0, &|b| if fit(b + one) { raw(x(b).ceil()).t() } else { T_SKIP });
        row("round", 0, &|b| if fit(b + one) { raw(x(b).round()).t() } else { T_SKIP });
        row("trunc", 0, &|b| raw(x(b).trunc()).t());
        row("fract", 0, &|b| raw(x(b).fract()).t());
    })* };
}

/// Every numerator over every denominator
macro_rules! rat_tables {
    ($s:ident, $t:ident) => {{
        let (lo, hi) = ($t::MIN as i64, $t::MAX as i64);
        for a in lo..=hi {
            let head = format!("\"rtab\",\"new\",{a},{lo}");
            // minimum values have no representable opposite
            let skip = |b: i64| lo < 0 && (a == lo || b == lo);
            let get = |b: i64| Rat::new(a as $t, b as $t).map(|r| (r.numerator().t(), r.denominator().t()));
            $s.run(&head, || {
                let n = answers(lo, hi, |b| if skip(b) { T_SKIP } else { get(b).map(|x| x.0).t() });
                let d = answers(lo, hi, |b| if skip(b) { T_SKIP } else { get(b).map(|x| x.1).t() });
                format!("{n},{d}")
            });
        }
    }};
}

/// Every pair of small rationals
macro_rules! rat_pairs {
    ($s:ident, $t:ident, $lo:literal, $top:literal) => {{
        let mut vals = Vec::new();
        for d in 1..=$top as $t {
            for n in ($lo as $t)..=$top {
                if Gcd::gcd(n, d) == 1 {
                    vals.push((n, d));
                }
            }
        }
        let ns = list(vals.iter().map(|v| v.0.to_string()));
        let ds = list(vals.iter().map(|v| v.1.to_string()));
        for (n, d) in &vals {
            let x = Rat::<$t>::new(*n, *d).unwrap();
            for op in ["add", "sub", "mul", "div"] {
                if op == "sub" && $lo == 0 {
                    continue;
                }
                $s.run(&format!("\"r2tab\",\"{op}\",{n},{d},{ns},{ds}"), || {
                    let get = |v: &($t, $t)| attempt(|| {
                        let y = Rat::<$t>::new(v.0, v.1).unwrap();
                        let r = match op {
                            "add" => x + y,
                            "sub" => x - y,
                            "mul" => x * y,
                            _ => x / y,
                        };
                        (r.numerator().t(), r.denominator().t())
                    }).unwrap_or((T_PANIC, 1));
                    let out: Vec<_> = vals.iter().map(get).collect();
                    format!("{},{}", list(out.iter().map(|o| o.0.to_string())), list(out.iter().map(|o| o.1.to_string())))
                });
            }
        }
    }};
}

fn main() {
    let args = Args::get();
    let mut rng = args.rng();
    let r = &mut rng;
    let mut s0 = args.sink(100);
    let s = &mut s0;
    match args.prop.as_str() {
        "C21" => {
            let n = 25 * args.scale;
            fixed!(s, r, n, u8, 0, [1, 2, 3, 4, 5, 6]);
            fixed!(s, r, n, i8, 1, [1, 2, 3, 4, 5, 6]);
            fixed!(s, r, n, u16, 0, [1, 4, 8, 14]);
            fixed!(s, r, n, i16, 1, [1, 3, 4, 7, 8, 12, 14]);
            fixed!(s, r, n, u32, 0, [1, 5, 16, 30]);
            fixed!(s, r, n, i32, 1, [1, 2, 5, 8, 12, 16, 24, 30]);
            fixed!(s, r, n, u64, 0, [1, 8, 32, 62]);
            fixed!(s, r, n, i64, 1, [1, 8, 12, 20, 32, 48, 62]);
            fixed!(s, r, n, u128, 0, [1, 16, 64, 126]);
            fixed!(s, r, n, i128, 1, [1, 16, 20, 64, 126]);
            fixed!(s, r, n, usize, 0, [3, 32]);
            fixed!(s, r, n, isize, 1, [3, 32]);
            fixed_tables!(s, u8, 0, [1, 2, 3, 4, 5, 6, 7]);
            fixed_tables!(s, i8, 1, [1, 2, 3, 4, 5, 6]);
            big_fixed::<1>(s, r, n);
            big_fixed::<8>(s, r, n);
            big_fixed::<63>(s, r, n);
            big_fixed::<64>(s, r, n);
            big_fixed::<100>(s, r, n);
        }
        "C22" => {
            let n = 100 * args.scale;
            rats!(s, r, 2 * n, i8, 1);
            rats!(s, r, n, i16, 1);
            rats!(s, r, n, i32, 1);
            rats!(s, r, n, i64, 1);
            rats!(s, r, n, i128, 1);
            rats!(s, r, n, isize, 1);
            rats!(s, r, n, u8, 0);
            rats!(s, r, n, u16, 0);
            rats!(s, r, n, u32, 0);
            rats!(s, r, n, u64, 0);
            rats!(s, r, n, usize, 0);
            rats!(s, r, n, u128, 0);
            rat_tables!(s, i8);
            rat_tables!(s, u8);
            rat_pairs!(s, i16, -9, 9);
            rat_pairs!(s, i64, -9, 9);
            rat_pairs!(s, u32, 0, 9);
        }
        p => panic!("unknown property {p}"),
    }
    s0.finish();
}
