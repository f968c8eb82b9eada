//! Records what the numeric traits do on f32 and f64, and the bytes of N-byte floats (C27)

use numeric_reals::F;
use numeric_traits::bytes::ConvertBytes;
use numeric_traits::class::{Bounded, BoundedSigned, Real, Signed};
use numeric_traits::identity::{One, Zero};
use numeric_traits::ops::{Pow, TrigOps};
use numeric_ints::U;
use numeric_verif_harness::q::Q;
use numeric_verif_harness::*;

fn special() -> Vec<f64> {
    let mut v = vec![0.0, -0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY];
    for x in [0.25, 0.5, 0.75, 1.0, 1.25, 1.5, 2.0, 2.5, 3.0, 3.5, 4.0, 4.5, 9.0, 16.0, 1e6, 8388607.5, 8388608.0, 16777216.0,
              4503599627370495.5, 4503599627370496.0, 9007199254740992.0, 1e30, 1e-30, f32::MIN_POSITIVE as f64] {
        v.push(x);
        v.push(-x);
    }
    for i in 0..20 {
        for d in [-1i64, 1] {
            let x = f64::from_bits(((i as f64 / 4.0).to_bits() as i64 + d).max(1) as u64);
            v.push(x);
            v.push(-x);
        }
    }
    v
}

fn any(rng: &mut Rng) -> f64 {
    match rng.below(4) {
        0 => f64::from_bits(rng.next()),
        1 => (rng.next() as i64 as f64) * 2f64.powi(rng.range(0, 130) as i32 - 100),
        2 => (rng.next() as i32 as f64) / 256.0,
        _ => (rng.next() as i16 as f64) / 4.0,
    }
}

fn positive(rng: &mut Rng) -> f64 {
    match rng.below(3) {
        0 => (1 + rng.below(40)) as f64,
        1 => (1 + rng.below(1000)) as f64 / 256.0,
        _ => 2f64.powi(rng.range(0, 16) as i32 - 8) * (1.0 + (rng.next() >> 12) as f64 / 2f64.powi(52)),
    }
}

macro_rules! ops {
    ($s:ident, $r:ident, $n:expr, $t:ident, $p:literal, $size:literal) => {{
        let h = |op: &str, rest: &str| format!("\"{op}\",{}{rest}", $p);
        $s.val(&h("zero", ""), || <$t as Zero>::zero().j());
        $s.val(&h("one", ""), || <$t as One>::one().j());
        $s.val(&h("max", ""), || <$t as Bounded>::max_value().j());
        $s.val(&h("min", ""), || <$t as Bounded>::min_value().j());
        $s.val(&h("minpos", ""), || <$t as BoundedSigned>::min_positive().j());
        $s.val(&h("maxneg", ""), || <$t as BoundedSigned>::max_negative().j());
        let mut xs: Vec<$t> = special().into_iter().map(|x| x as $t).collect();
        for _ in 0..8 * $n {
            xs.push(any($r) as $t);
        }
        for x in xs {
            let a = format!(",{}", x.j());
            $s.val(&h("floor", &a), || Real::floor(x).j());
            $s.val(&h("ceil", &a), || Real::ceil(x).j());
            $s.val(&h("trunc", &a), || Real::trunc(x).j());
            $s.val(&h("round", &a), || Real::round(x).j());
            $s.val(&h("fract", &a), || Real::fract(x).j());
            $s.val(&h("abs", &a), || Signed::abs(x).j());
            $s.val(&h("sqrt", &a), || Real::sqrt(x).j());
            $s.val(&h("tests", &a), || {
                list([Signed::is_positive(&x), Signed::is_negative(&x), Zero::is_zero(&x), One::is_one(&x)].map(|b| b.j()))
            });
        }
        for _ in 0..4 * $n {
            let x = positive($r) as $t;
            for (k, n) in [(0i32, 1i32), (1, 1), (2, 1), (-1, 1), (3, 1), (-5, 1), (1, 2), (3, 2), (-1, 2), (1, 3), (2, 3)] {
                $s.val(&h("power", &format!(",{},{k},{n}", x.j())), || Pow::pow(x, k as $t / n as $t).j());
            }
            let k = 1 + $r.below(6) as i32;
            $s.val(&h("power", &format!(",{},1,{k}", x.j())), || Real::root(x, k as $t).j());
            $s.val(&h("power", &format!(",{},1,3", x.j())), || Real::cbrt(x).j());
            $s.val(&h("npow", &format!(",{},{k}", (-x).j())), || Pow::pow(-x, k as $t).j());
            let b = *$r.pick(&[2.0 as $t, 3.0, 7.0, 10.0]);
            let y = x.max(1.0);
            $s.val(&h("log", &format!(",{},{},0", y.j(), b.j())), || Real::log(y, b).j());
            let y = b.powi($r.below(10) as i32);
            $s.val(&h("log", &format!(",{},{},0", y.j(), b.j())), || Real::log(y, b).j());
            let y = (2.0 as $t).powi($r.below(20) as i32);
            $s.val(&h("log", &format!(",{},{},1", y.j(), b.j())), || Real::log(1.0 / y, b).j());
        }
        for k in 0..12 * $n {
            let x = match $r.below(4) {
                _ if k == 0 => 0.0,
                0 => ($r.next() as i32 as $t) / 2147483648.0,
                1 => ($r.next() as i16 as $t) / 1024.0,
                2 => (2.0 as $t).powi(-($r.below(40) as i32)),
                _ => $r.below(200) as $t - 100.0,
            };
            $s.val(&h("trig", &format!(",{}", x.j())), || {
                list([TrigOps::sin(x), TrigOps::cos(x), TrigOps::tan(x), TrigOps::csc(x), TrigOps::sec(x), TrigOps::cot(x)]
                    .map(|v| v.j()))
            });
        }
        for _ in 0..6 * $n {
            let mut b = [0u8; $size];
            b.copy_from_slice(&(any($r) as $t).to_bits().to_le_bytes());
            if $r.chance(1, 3) {
                for x in b.iter_mut() {
                    *x = $r.byte();
                }
            }
            let mut rev = b;
            rev.reverse();
            $s.val(&h("bytes", &format!(",{b:?}")), || {
                let f = <$t as ConvertBytes<$size>>::from_le_bytes(b);
                format!("[{},{},{},{:?},{:?},{:?}]", f.j(), <$t as ConvertBytes<$size>>::from_be_bytes(rev).j(),
                    <$t as ConvertBytes<$size>>::from_ne_bytes(b).j(), ConvertBytes::to_le_bytes(f),
                    ConvertBytes::to_be_bytes(f), ConvertBytes::to_ne_bytes(f))
            });
        }
    }};
}

fn f_bytes<const N: usize>(s: &mut Sink, r: &mut Rng, n: usize) {
    for _ in 0..n {
        let mut b = [0u8; N];
        for x in b.iter_mut() {
            *x = r.byte();
        }
        s.val(&format!("\"F\",{N},{b:?}"), || {
            format!("[{:?},{:?},{:?},{:?},{:?},{},{:?}]", F::from_le_bytes(b).to_le_bytes(), F::from_le_bytes(b).to_be_bytes(),
                F::from_le_bytes(b).to_ne_bytes(), F::from_be_bytes(b).to_le_bytes(), F::from_ne_bytes(b).to_le_bytes(),
                nat_json(&F::from_le_bytes(b).to_bits().to_le_bytes()), F::from_bits(U::from_le_bytes(b)).to_le_bytes())
        });
    }
}

/// The methods Real provides, on exact rationals
fn provided(s: &mut Sink, r: &mut Rng) {
    let v = Q::new(r.below(40) as i128, 1 + r.below(12) as i128);
    let k = 1 + r.below(5);
    let x = |k: usize| (0..k).fold(Q::int(1), |acc, _| acc * v.clone());
    let j = |q: &Q| format!("[{},{}]", q.n.j(), q.d.j());
    s.val(&format!("\"root\",{k},{}", j(&x(k))), || j(&Real::root(x(k), Q::int(k as i128))));
    s.val(&format!("\"root\",2,{}", j(&x(2))), || j(&Real::sqrt(x(2))));
    s.val(&format!("\"root\",3,{}", j(&x(3))), || j(&Real::cbrt(x(3))));
}

/// The methods ConvertBytes provides
struct Tagged<const N: usize>(&'static str, [u8; N]);
impl<const N: usize> ConvertBytes<N> for Tagged<N> {
    fn from_le_bytes(b: [u8; N]) -> Self {
        Tagged("le", b)
    }
    fn from_be_bytes(b: [u8; N]) -> Self {
        Tagged("be", b)
    }
    fn to_le_bytes(self) -> [u8; N] {
        self.1
    }
    fn to_be_bytes(self) -> [u8; N] {
        self.1.map(|b| b ^ 0xFF)
    }
}
fn native<const N: usize>(s: &mut Sink, r: &mut Rng) {
    let mut b = [0u8; N];
    for x in b.iter_mut() {
        *x = r.byte();
    }
    s.val(&format!("\"native\",{N},{b:?}"), || {
        let t = Tagged::from_ne_bytes(b);
        format!("[\"{}\",{:?},{:?}]", t.0, t.1, Tagged("", b).to_ne_bytes())
    });
}

fn main() {
    let args = Args::get();
    let mut rng = args.rng();
    let r = &mut rng;
    let mut s = args.sink(40);
    let n = 30 * args.scale;
    ops!(s, r, n, f32, 24, 4);
    ops!(s, r, n, f64, 53, 8);
    f_bytes::<1>(&mut s, r, n);
    f_bytes::<2>(&mut s, r, n);
    f_bytes::<4>(&mut s, r, n);
    f_bytes::<7>(&mut s, r, n);
    f_bytes::<8>(&mut s, r, n);
    f_bytes::<16>(&mut s, r, n);
    for _ in 0..n {
        provided(&mut s, r);
        native::<1>(&mut s, r);
        native::<4>(&mut s, r);
        native::<16>(&mut s, r);
    }
    s.finish();
}
