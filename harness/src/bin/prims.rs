//! Numeric traits on primitives and casts between them: C19, C20.

use numeric_traits::bytes::ConvertBytes;
use numeric_traits::cast::{
    FromChecked, FromSaturating, FromTruncating, IntoChecked, IntoSaturating, IntoTruncating,
};
use numeric_traits::class::{Bounded, BoundedBit, BoundedSigned, Signed};
use numeric_traits::identity::{One, Zero};
use numeric_traits::ops::checked::*;
use numeric_traits::ops::overflowing::*;
use numeric_traits::ops::widening::WideningMul;
use numeric_traits::ops::wrapping::*;
use numeric_traits::ops::{Factorial, Gcd, Pow};
use numeric_verif_harness::*;
use std::num::*;

const DBG: u8 = cfg!(debug_assertions) as u8;

/// Coefficients with a * x + b * y = gcd(a, b), for magnitudes
fn bezout(a: u128, b: u128) -> (i128, i128) {
    let (mut r0, mut r1) = (a, b);
    let (mut s0, mut s1, mut t0, mut t1) = (1i128, 0i128, 0i128, 1i128);
    while r1 != 0 {
        let q = r0 / r1;
        (r0, r1) = (r1, r0 % r1);
        (s0, s1) = (s1, s0.wrapping_sub((q as i128).wrapping_mul(s1)));
        (t0, t1) = (t1, t0.wrapping_sub((q as i128).wrapping_mul(t1)));
    }
    (s0, t0)
}

fn bytes_json(b: &[u8]) -> String {
    list(b.iter().map(|x| x.to_string()))
}

fn pair_flag<T: J>((v, f): (T, bool)) -> String {
    format!("[{},{}]", v.j(), f.j())
}

macro_rules! gen_int {
    ($rng:expr, $t:ident) => {{
        const N: usize = std::mem::size_of::<$t>();
        let b: [u8; N] = $rng.bytes(N).try_into().unwrap();
        let v = $t::from_le_bytes(b);
        match $rng.below(8) {
            0 => $rng.below(20) as $t,
            1 => $t::MAX - $rng.below(3) as $t,
            2 => $t::MIN.wrapping_add($rng.below(3) as $t),
            _ => v,
        }
    }};
}

macro_rules! unsigned_ops {
    (u, $s:ident, $rng:ident, $t:ident, $h1:ident) => {{
        let n = if $rng.chance(1, 2) { $rng.below(12) } else { $rng.below(60) };
        if n as u128 <= $t::MAX as u128 {
            let n = n as $t;
            $s.val(&$h1("fact", &n.j()), || Factorial::factorial(n).j());
        }
        let (a, b, c) = (gen_int!($rng, $t), gen_int!($rng, $t), gen_int!($rng, $t));
        $s.val(&$h1("wide", &format!("{},{},{}", a.j(), b.j(), c.j())), || {
            let (lo, hi) = WideningMul::widening_mul(a, b, c);
            format!("[{},{}]", lo.j(), hi.j())
        });
    }};
    (i, $s:ident, $rng:ident, $t:ident, $h1:ident) => {{
        let a = gen_int!($rng, $t);
        $s.val(&$h1("abs", &a.j()), || Signed::abs(a).j());
        $s.val(&$h1("sign", &a.j()), || {
            format!("[{},{}]", Signed::is_positive(&a).j(), Signed::is_negative(&a).j())
        });
    }};
}

macro_rules! usize_shift {
    ($s:ident, $rng:ident, usize, $h:ident, $a:ident, $w:ident) => {};
    ($s:ident, $rng:ident, $t:ident, $h:ident, $a:ident, $w:ident) => {{
        let k: usize = match $rng.below(6) {
            0 => $w,
            1 => $w - 1,
            2 => 1usize << $rng.below(64),
            3 => (1usize << 32) + $rng.below(4),
            _ => $rng.below($w + 4),
        };
        $s.run(&$h("cshl", &$a.j(), &k.j()), || CheckedShl::<usize>::checked_shl($a, k).j());
        $s.run(&$h("cshr", &$a.j(), &k.j()), || CheckedShr::<usize>::checked_shr($a, k).j());
    }};
}

macro_rules! nz_sign {
    (u, $s:ident, $h1:ident, $nz:ident, $x:ident) => {};
    (i, $s:ident, $h1:ident, $nz:ident, $x:ident) => {{
        $s.val(&$h1("abs", &$x.get().j()), || Signed::abs($x).get().j());
        $s.val(&$h1("sign", &$x.get().j()), || {
            format!("[{},{}]", Signed::is_positive(&$x).j(), Signed::is_negative(&$x).j())
        });
        $s.val(&$h1("minpos", "[0,[]]"), || <$nz as BoundedSigned>::min_positive().get().j());
        $s.val(&$h1("maxneg", "[0,[]]"), || <$nz as BoundedSigned>::max_negative().get().j());
    }};
}

macro_rules! ops {
    ($s:ident, $rng:ident, $n:expr, $t:ident, $sg:literal, $kind:tt, $nz:ident) => {{
        const N: usize = std::mem::size_of::<$t>();
        let w = $t::BITS as usize;
        let h1 = |op: &str, a: &str| format!("\"{op}\",{DBG},{w},{},{a}", $sg);
        let h = |op: &str, a: &str, b: &str| format!("\"{op}\",{DBG},{w},{},{a},{b}", $sg);
        for c in ["zero", "one", "min", "max"] {
            $s.val(&h1(c, "[0,[]]"), || match c {
                "zero" => <$t as Zero>::zero().j(),
                "one" => <$t as One>::one().j(),
                "min" => <$t as Bounded>::min_value().j(),
                _ => <$t as Bounded>::max_value().j(),
            });
        }
        $s.val(&h1("one", "[0,[]]"), || <$nz as One>::one().get().j());
        $s.val(&h1("max", "[0,[]]"), || <$nz as Bounded>::max_value().get().j());
        $s.val(&h1(if $sg == 1 { "min" } else { "one" }, "[0,[]]"), || <$nz as Bounded>::min_value().get().j());
        for _ in 0..$n {
            let a = gen_int!($rng, $t);
            let b = match $rng.below(8) {
                0 => a,
                1 => a.wrapping_add(1),
                2 => (0 as $t).wrapping_sub(a),
                3 => !a,
                _ => gen_int!($rng, $t),
            };
            let (ja, jb) = (a.j(), b.j());
            $s.val(&h("wadd", &ja, &jb), || WrappingAdd::wrapping_add(a, b).j());
            $s.val(&h("wsub", &ja, &jb), || WrappingSub::wrapping_sub(a, b).j());
            $s.val(&h("wmul", &ja, &jb), || WrappingMul::wrapping_mul(a, b).j());
            $s.val(&h("oadd", &ja, &jb), || pair_flag(OverflowingAdd::overflowing_add(a, b)));
            $s.val(&h("osub", &ja, &jb), || pair_flag(OverflowingSub::overflowing_sub(a, b)));
            $s.val(&h("omul", &ja, &jb), || pair_flag(OverflowingMul::overflowing_mul(a, b)));
            $s.run(&h("cadd", &ja, &jb), || CheckedAdd::checked_add(a, b).j());
            $s.run(&h("csub", &ja, &jb), || CheckedSub::checked_sub(a, b).j());
            $s.run(&h("cmul", &ja, &jb), || CheckedMul::checked_mul(a, b).j());
            let d = if $rng.chance(1, 6) { 0 as $t } else if $rng.chance(1, 6) { (0 as $t).wrapping_sub(1) } else { b };
            $s.run(&h("cdiv", &ja, &d.j()), || CheckedDiv::checked_div(a, d).j());
            let k: $t = match $rng.below(4) {
                0 => gen_int!($rng, $t),
                1 => (w - $rng.below(2)) as $t,
                _ => $rng.below(w + 3) as $t,
            };
            let jk = k.j();
            $s.val(&h("wshl", &ja, &jk), || WrappingShl::wrapping_shl(a, k).j());
            $s.val(&h("wshr", &ja, &jk), || WrappingShr::wrapping_shr(a, k).j());
            $s.run(&h("cshl", &ja, &jk), || CheckedShl::<$t>::checked_shl(a, k).j());
            $s.run(&h("cshr", &ja, &jk), || CheckedShr::<$t>::checked_shr(a, k).j());
            usize_shift!($s, $rng, $t, h, a, w);
            // gcd, often of multiples of a common factor
            let (ga, gb) = if $rng.chance(1, 2) {
                let g = gen_int!($rng, $t) >> $rng.below(w);
                let p = gen_int!($rng, $t) >> (w / 2 + $rng.below(w / 2));
                let q = gen_int!($rng, $t) >> (w / 2 + $rng.below(w / 2));
                (g.wrapping_mul(p), g.wrapping_mul(q))
            } else if $rng.chance(1, 5) {
                (a, 0)
            } else if $rng.chance(1, 5) {
                (0, b)
            } else {
                (a, b)
            };
            $s.begin(&h("gcd", &ga.j(), &gb.j()));
            let g = attempt(|| Gcd::gcd(ga, gb));
            #[allow(unused_comparisons)]
            let neg = |v: $t| v < 0;
            let mag = |v: $t| if neg(v) { (v as i128).unsigned_abs() } else { v as u128 };
            let (x, y) = bezout(mag(ga), mag(gb));
            let x = if neg(ga) { -x } else { x };
            let y = if neg(gb) { -y } else { y };
            let quo = |v: $t| {
                let m = mag(g.unwrap_or(0));
                let q = if m == 0 { 0 } else { mag(v) / m };
                int_json(neg(v) && q != 0, &q.to_le_bytes())
            };
            let out = match g {
                Some(v) => ok(&v.j()),
                None => PANIC.into(),
            };
            let wit = format!("[{},{},{},{}]", x.j(), y.j(), quo(ga), quo(gb));
            $s.end(&h("gcd", &ga.j(), &gb.j()), &format!("{out},{wit}"));
            // powers
            let bits = 128 - mag(a).leading_zeros() as usize;
            let pb = if $rng.chance(1, 2) { a } else { a >> $rng.below(w) };
            let pbits = 128 - mag(pb).leading_zeros() as usize;
            let _ = bits;
            let top = (400 / pbits.max(1)).min(if w == 8 { 120 } else { 200 });
            let e = if $rng.chance(1, 2) { $rng.below(6.min(top + 1)) } else { $rng.below(top + 1) } as $t;
            $s.val(&h("pow", &pb.j(), &e.j()), || Pow::pow(pb, e).j());
            // 0 and 1 (and -1) to large exponents below 2^32
            let eb: u128 = ($rng.word() & 0xFFFF_FFFF) as u128;
            let e2 = eb.min($t::MAX as u128) as $t;
            let base = *$rng.pick(&[0 as $t, 1 as $t, if $sg == 1 { (0 as $t).wrapping_sub(1) } else { 1 as $t }]);
            $s.val(&h("pow1", &base.j(), &e2.j()), || Pow::pow(base, e2).j());
            // unary
            let u = if $rng.chance(1, 2) { a } else { (1 as $t) << $rng.below(w) };
            let ju = u.j();
            $s.val(&h1("ident", &ju), || format!("[{},{}]", Zero::is_zero(&u).j(), One::is_one(&u).j()));
            $s.val(&h1("lz", &ju), || BoundedBit::leading_zeros(u).j());
            $s.val(&h1("tz", &ju), || BoundedBit::trailing_zeros(u).j());
            let le: [u8; N] = $rng.bytes(N).try_into().unwrap();
            let mut be = le;
            be.reverse();
            $s.val(&h1("bytes", &bytes_json(&le)), || {
                let v = <$t as ConvertBytes<N>>::from_le_bytes(le);
                let x = <$t as ConvertBytes<N>>::from_be_bytes(be);
                let n = <$t as ConvertBytes<N>>::from_ne_bytes(if cfg!(target_endian = "little") { le } else { be });
                let mut ne = ConvertBytes::to_ne_bytes(v);
                if cfg!(target_endian = "big") {
                    ne.reverse();
                }
                format!("[{},{},{},{},{},{}]", v.j(), x.j(), n.j(),
                    bytes_json(&ConvertBytes::<N>::to_le_bytes(v)),
                    bytes_json(&ConvertBytes::<N>::to_be_bytes(v)),
                    bytes_json(&ne))
            });
            unsigned_ops!($kind, $s, $rng, $t, h1);
            if let Some(x) = $nz::new(if $rng.chance(1, 4) { 1 } else { u }) {
                let jx = x.get().j();
                $s.val(&h1("isone", &jx), || One::is_one(&x).j());
                nz_sign!($kind, $s, h1, $nz, x);
            }
        }
    }};
}

/// Every pair of eight-bit numbers
macro_rules! tables {
    ($s:ident, $t:ident, $sg:literal) => {{
        let x = |v: i64| v as $t;
        $s.pairs("w", "add", $sg, |a, b| WrappingAdd::wrapping_add(x(a), x(b)).t());
        $s.pairs("w", "sub", $sg, |a, b| WrappingSub::wrapping_sub(x(a), x(b)).t());
        $s.pairs("w", "mul", $sg, |a, b| WrappingMul::wrapping_mul(x(a), x(b)).t());
        $s.pairs("o", "add", $sg, |a, b| OverflowingAdd::overflowing_add(x(a), x(b)).t());
        $s.pairs("o", "sub", $sg, |a, b| OverflowingSub::overflowing_sub(x(a), x(b)).t());
        $s.pairs("o", "mul", $sg, |a, b| OverflowingMul::overflowing_mul(x(a), x(b)).t());
        $s.pairs("c", "add", $sg, |a, b| CheckedAdd::checked_add(x(a), x(b)).t());
        $s.pairs("c", "sub", $sg, |a, b| CheckedSub::checked_sub(x(a), x(b)).t());
        $s.pairs("c", "mul", $sg, |a, b| CheckedMul::checked_mul(x(a), x(b)).t());
        $s.pairs("c", "div", $sg, |a, b| CheckedDiv::checked_div(x(a), x(b)).t());
        $s.pairs("w", "shl", $sg, |a, b| WrappingShl::wrapping_shl(x(a), x(b)).t());
        $s.pairs("w", "shr", $sg, |a, b| WrappingShr::wrapping_shr(x(a), x(b)).t());
        $s.pairs("c", "shl", $sg, |a, b| CheckedShl::<$t>::checked_shl(x(a), x(b)).t());
        $s.pairs("c", "shr", $sg, |a, b| CheckedShr::<$t>::checked_shr(x(a), x(b)).t());
        $s.pairs("x", "gcd", $sg, |a, b| Gcd::gcd(x(a), x(b)).t());
        $s.pairs("p", "pow", $sg, |a, b| if b < 0 { T_SKIP } else { Pow::pow(x(a), x(b)).t() });
    }};
}

/// Casts from every 16-bit number (held in the source type) to the narrow types
macro_rules! cast_tables {
    ($s:ident, $f:ident, $t:ident, $st:literal, $lo:expr, $hi:expr) => {{
        let t = |pol| Tab { pol, op: "id", w: $t::BITS as usize, sg: $st };
        let mut lo: i64 = $lo;
        while lo <= $hi {
            let hi = (lo + 1023).min($hi);
            $s.row(t("c"), 0, lo, hi, |b| <$t as FromChecked<$f>>::from_checked(b as $f).t());
            $s.row(t("s"), 0, lo, hi, |b| <$t as FromSaturating<$f>>::saturate_from(b as $f).t());
            $s.row(t("w"), 0, lo, hi, |b| <$t as FromTruncating<$f>>::truncate_from(b as $f).t());
            lo = hi + 1;
        }
    }};
    ($s:ident, $f:ident, $lo:expr, $hi:expr) => {
        cast_tables!($s, $f, u8, 0, $lo, $hi);
        cast_tables!($s, $f, i8, 1, $lo, $hi);
        cast_tables!($s, $f, u16, 0, $lo, $hi);
        cast_tables!($s, $f, i16, 1, $lo, $hi);
    };
}

macro_rules! saturating {
    // the one pair without a saturating cast
    ($s:ident, $h:ident, isize, i8, $v:ident) => {};
    ($s:ident, $h:ident, $f:ident, $t:ident, $v:ident) => {
        $s.val(&$h("saturating"), || <$t as FromSaturating<$f>>::saturate_from($v).j());
        $s.val(&$h("saturating"), || IntoSaturating::<$t>::saturate($v).j());
    };
}

macro_rules! casts_to {
    ($s:ident, $f:ident, $sf:literal, $v:ident, $($t:ident $st:literal),*) => { $({
        let h = |op: &str| format!("\"{op}\",{},{},{},{},{}", $f::BITS, $sf, $t::BITS, $st, $v.j());
        $s.run(&h("checked"), || <$t as FromChecked<$f>>::from_checked($v).j());
        $s.run(&h("checked"), || IntoChecked::<$t>::into_checked($v).j());
        saturating!($s, h, $f, $t, $v);
        $s.val(&h("truncating"), || <$t as FromTruncating<$f>>::truncate_from($v).j());
        $s.val(&h("truncating"), || IntoTruncating::<$t>::truncate($v).j());
    })* };
}

macro_rules! casts {
    ($s:ident, $rng:ident, $n:expr, $($f:ident $sf:literal),*) => { $({
        // values at the limits of every type
        let mut vals: Vec<$f> = Vec::new();
        for k in [7u32, 8, 15, 16, 31, 32, 63, 64, 127] {
            for d in 0..3u8 {
                if k < $f::BITS {
                    let p = (1 as $f).wrapping_shl(k);
                    vals.push(p.wrapping_add(d as $f).wrapping_sub(1));
                    vals.push((0 as $f).wrapping_sub(p).wrapping_add(d as $f).wrapping_sub(1));
                }
            }
        }
        vals.extend([0, 1, $f::MAX, $f::MIN]);
        for _ in 0..$n {
            vals.push(gen_int!($rng, $f));
        }
        vals.sort();
        vals.dedup();
        for v in vals {
            casts_to!($s, $f, $sf, v, u8 0, u16 0, u32 0, u64 0, u128 0, usize 0,
                      i8 1, i16 1, i32 1, i64 1, i128 1, isize 1);
            $s.val(&format!("\"itof\",24,{}", v.j()), || <f32 as FromSaturating<$f>>::saturate_from(v).j());
            $s.val(&format!("\"itof\",53,{}", v.j()), || <f64 as FromSaturating<$f>>::saturate_from(v).j());
        }
    })* };
}

fn floats(rng: &mut Rng, n: usize) -> Vec<f64> {
    let mut v = vec![0.0, -0.0, 0.5, -0.5, 0.999_999, -0.999_999, 1.0, -1.0, 1.5, f64::NAN, f64::INFINITY,
        f64::NEG_INFINITY, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, -5e-324];
    for k in [7, 8, 15, 16, 31, 32, 63, 64, 127, 128] {
        let p = 2f64.powi(k);
        for x in [p, p - 1.0, p + 1.0, p - 0.5, f64::from_bits(p.to_bits() - 1), f64::from_bits(p.to_bits() + 1)] {
            v.push(x);
            v.push(-x);
        }
    }
    for _ in 0..n {
        v.push(match rng.below(3) {
            0 => f64::from_bits(rng.next()),
            1 => (rng.next() as i64 as f64) * 2f64.powi(rng.range(0, 130) as i32 - 70),
            _ => (rng.next() as i32 as f64) / 256.0,
        });
    }
    v
}

macro_rules! float_casts {
    ($s:ident, $v:ident, $($t:ident $st:literal),*) => { $({
        let h = |j: String| format!("\"ftoi\",{},{},{j}", $t::BITS, $st);
        $s.val(&h($v.j()), || <$t as FromSaturating<f64>>::saturate_from($v).j());
        let f = $v as f32;
        $s.val(&h(f.j()), || <$t as FromSaturating<f32>>::saturate_from(f).j());
    })* };
}

fn main() {
    let args = Args::get();
    let mut rng = args.rng();
    let r = &mut rng;
    let mut s = args.sink(100);
    match args.prop.as_str() {
        "C19" => {
            let n = 40 * args.scale;
            ops!(s, r, n, u8, 0, u, NonZeroU8);
            ops!(s, r, n, u16, 0, u, NonZeroU16);
            ops!(s, r, n, u32, 0, u, NonZeroU32);
            ops!(s, r, n, u64, 0, u, NonZeroU64);
            ops!(s, r, 2 * n, u128, 0, u, NonZeroU128);
            ops!(s, r, n, usize, 0, u, NonZeroUsize);
            ops!(s, r, n, i8, 1, i, NonZeroI8);
            ops!(s, r, n, i16, 1, i, NonZeroI16);
            ops!(s, r, n, i32, 1, i, NonZeroI32);
            ops!(s, r, n, i64, 1, i, NonZeroI64);
            ops!(s, r, n, i128, 1, i, NonZeroI128);
            ops!(s, r, n, isize, 1, i, NonZeroIsize);
            tables!(s, u8, 0);
            tables!(s, i8, 1);
            macro_rules! facts {
                ($($t:ident),*) => { $( for n in 0..=60u8 {
                    let n = n as $t;
                    s.val(&format!("\"fact\",{DBG},{},0,{}", $t::BITS, n.j()), || Factorial::factorial(n).j());
                } )* };
            }
            facts!(u8, u16, u32, u64, u128, usize);
            for n in 61..=255u8 {
                s.val(&format!("\"fact\",{DBG},8,0,{}", n.j()), || Factorial::factorial(n).j());
            }
        }
        "C20" => {
            let n = 10 * args.scale;
            casts!(s, r, n, u8 0, u16 0, u32 0, u64 0, u128 0, usize 0, i8 1, i16 1, i32 1, i64 1, i128 1, isize 1);
            cast_tables!(s, u8, 0, 255);
            cast_tables!(s, i8, -128, 127);
            cast_tables!(s, u16, 0, 65535);
            cast_tables!(s, i16, -32768, 32767);
            if args.scale > 10 {
                cast_tables!(s, i32, -70000, 70000);
                cast_tables!(s, i64, -70000, 70000);
                cast_tables!(s, u32, 0, 140000);
                cast_tables!(s, u64, 0, 140000);
            }
            for f in floats(r, 20 * n) {
                float_casts!(s, f, u8 0, u16 0, u32 0, u64 0, u128 0, usize 0,
                             i8 1, i16 1, i32 1, i64 1, i128 1, isize 1);
            }
        }
        p => panic!("unknown property {p}"),
    }
    s.finish();
}
