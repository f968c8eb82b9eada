//! U<N> and I<N>: C13, C14, C15.

use numeric_ints::{I, U};
use numeric_traits::cast::{FromChecked, FromSaturating, FromTruncating};
use numeric_traits::class::{Bounded, BoundedSigned, Signed};
use numeric_traits::identity::{One, Zero};
use numeric_traits::ops::checked::{CheckedAdd, CheckedDiv, CheckedMul, CheckedSub};
use numeric_traits::ops::saturating::{SaturatingAdd, SaturatingMul, SaturatingSub};
use numeric_traits::ops::wrapping::{WrappingAdd, WrappingSub};
use numeric_traits::ops::Pow;
use numeric_verif_harness::*;

const DBG: u8 = cfg!(debug_assertions) as u8;

struct W<const N: usize>(U<N>);
impl<const N: usize> J for W<N> {
    fn j(&self) -> String {
        int_json(false, &self.0.to_le_bytes())
    }
}
fn ju<const N: usize>(u: U<N>) -> String {
    W(u).j()
}
fn jo<const N: usize>(u: Option<U<N>>) -> String {
    u.map(W).j()
}

/// `I` has no byte conversions: it is its bytes
fn mk_i<const N: usize>(b: [u8; N]) -> I<N> {
    assert_eq!(std::mem::size_of::<I<N>>(), N);
    unsafe { std::mem::transmute_copy::<[u8; N], I<N>>(&b) }
}
fn ji<const N: usize>(i: I<N>) -> String {
    twos_json(&unsafe { std::mem::transmute_copy::<I<N>, [u8; N]>(&i) })
}

fn arr<const N: usize>(v: Vec<u8>) -> [u8; N] {
    v.try_into().unwrap()
}

/// A pair of operands, often correlated
fn two<const N: usize>(rng: &mut Rng) -> ([u8; N], [u8; N]) {
    let a: [u8; N] = arr(rng.bytes(N));
    let an = nat::from_bytes(&a);
    let b = match rng.below(12) {
        0 => a,
        1 => arr(nat::to_bytes(&nat::sub(&nat::pow2(8 * N), &an), N)), // the sum wraps to zero
        2 => a.map(|x| !x),
        3 => arr(nat::to_bytes(&nat::add(&an, &[1]), N)),
        4 => arr(nat::to_bytes(&nat::sub(&an, &[1]), N)),
        5 => {
            // product near 2^(8N): b = 2^k with a around 2^(8N-k)
            let k = rng.below(8 * N);
            arr(nat::to_bytes(&nat::pow2(k), N))
        }
        6 => {
            let mut v = [0u8; N];
            v[0] = rng.ebyte();
            v
        }
        7 => {
            // about half as long
            let mut v = [0u8; N];
            for x in v.iter_mut().take(N.div_ceil(2)) {
                *x = rng.ebyte();
            }
            v
        }
        _ => arr(rng.bytes(N)),
    };
    let a = if rng.chance(1, 8) {
        // a multiple of b, plus or minus a little, for division
        let bn = nat::from_bytes(&b);
        let q = nat::from_bytes(&rng.bytes(N.div_ceil(2)));
        let p = nat::mul(&bn, &q);
        let p = match rng.below(3) {
            0 => p,
            1 => nat::add(&p, &[1]),
            _ => nat::sub(&p, &[1]),
        };
        arr(nat::to_bytes(&p, N))
    } else {
        a
    };
    if rng.chance(1, 2) {
        (a, b)
    } else {
        (b, a)
    }
}

fn u_arith<const N: usize>(s: &mut Sink, rng: &mut Rng, n: usize) {
    let w = 8 * N;
    for _ in 0..n {
        let (x, y) = two::<N>(rng);
        u_arith_one(s, w, x, y);
    }
    let z = [0u8; N];
    for _ in 0..8 {
        let x: [u8; N] = arr(rng.bytes(N));
        u_arith_one(s, w, x, z);
    }
}

fn u_arith_one<const N: usize>(s: &mut Sink, w: usize, x: [u8; N], y: [u8; N]) {
    let (a, b) = (U::<N>::from_le_bytes(x), U::<N>::from_le_bytes(y));
    let args = format!("{DBG},{w},{},{}", int_json(false, &x), int_json(false, &y));
    s.run(&format!("\"cadd\",{args}"), || jo(a.checked_add(b)));
    s.run(&format!("\"csub\",{args}"), || jo(a.checked_sub(b)));
    s.run(&format!("\"cmul\",{args}"), || jo(a.checked_mul(b)));
    s.val(&format!("\"sadd\",{args}"), || ju(a.saturating_add(b)));
    s.val(&format!("\"ssub\",{args}"), || ju(a.saturating_sub(b)));
    s.val(&format!("\"smul\",{args}"), || ju(a.saturating_mul(b)));
    s.val(&format!("\"wadd\",{args}"), || ju(a.wrapping_add(b)));
    s.val(&format!("\"wsub\",{args}"), || ju(a.wrapping_sub(b)));
    s.val(&format!("\"add\",{args}"), || ju(a + b));
    s.val(&format!("\"sub\",{args}"), || ju(a - b));
    s.val(&format!("\"mul\",{args}"), || ju(a * b));
    s.run(&format!("\"divrem\",{args}"), || {
        format!("[{},{},{}]", outcome(|| ju(a / b)), outcome(|| ju(a % b)), outcome(|| jo(a.checked_div(b))))
    });
}

macro_rules! u_prim {
    ($s:ident, $rng:ident, $N:ident, $($t:ident),*) => { $({
        let name = stringify!($t);
        let tw = <$t>::BITS;
        let x: [u8; $N] = match $rng.below(4) {
            0 => arr(nat::to_bytes(&nat::pow2(tw as usize), $N)),
            1 => arr(nat::to_bytes(&nat::sub(&nat::pow2(tw as usize), &[$rng.below(3) as u64]), $N)),
            _ => arr($rng.bytes($N)),
        };
        let u = U::<$N>::from_le_bytes(x);
        let args = format!("\"{name}\",{tw},{}", int_json(false, &x));
        $s.run(&format!("\"cto\",{args}"), || <$t>::from_checked(u).j());
        $s.val(&format!("\"sto\",{args}"), || <$t>::saturate_from(u).j());
        $s.val(&format!("\"tto\",{args}"), || <$t>::truncate_from(u).j());
        let v: $t = match $rng.below(4) {
            0 if 8 * $N < tw as usize => (1 as $t) << (8 * $N),
            1 if 8 * $N < tw as usize => ((1 as $t) << (8 * $N)) - 1,
            2 => $rng.below(300) as $t,
            _ => { let b = $rng.bytes(16); u128::from_le_bytes(b.try_into().unwrap()) as $t }
        };
        $s.run(&format!("\"cfrom\",\"{name}\",{},{}", 8 * $N, v.j()), || jo(U::<$N>::from_checked(v)));
    })* };
}

fn u_rest<const N: usize>(s: &mut Sink, rng: &mut Rng, n: usize) {
    let w = 8 * N;
    for i in 0..n {
        let (x, y) = two::<N>(rng);
        let (a, b) = (U::<N>::from_le_bytes(x), U::<N>::from_le_bytes(y));
        let (jx, jy) = (int_json(false, &x), int_json(false, &y));
        s.val(&format!("\"cmp\",{w},{jx},{jy}"), || {
            list([
                (a.cmp(&b) as i8).to_string(),
                (a.partial_cmp(&b).unwrap() as i8).to_string(),
                (a == b).j(),
                (a != b).j(),
                (a < b).j(),
                (a <= b).j(),
                (a > b).j(),
                (a >= b).j(),
            ])
        });
        s.val(&format!("\"cmp\",{w},{jx},{jx}"), || {
            let b = U::<N>::from_le_bytes(x);
            list([
                (a.cmp(&b) as i8).to_string(),
                (a.partial_cmp(&b).unwrap() as i8).to_string(),
                (a == b).j(),
                (a != b).j(),
                (a < b).j(),
                (a <= b).j(),
                (a > b).j(),
                (a >= b).j(),
            ])
        });
        s.val(&format!("\"and\",{w},{jx},{jy}"), || ju(a & b));
        s.val(&format!("\"or\",{w},{jx},{jy}"), || ju(a | b));
        s.val(&format!("\"xor\",{w},{jx},{jy}"), || ju(a ^ b));
        s.val(&format!("\"not\",{w},{jx}"), || ju(!a));
        // shifts
        let k = match rng.below(5) {
            0 => 8 * rng.below(N),
            1 => w - 1,
            2 => rng.below(4).min(w - 1),
            3 if DBG == 1 => w + 1 + rng.below(3 * w),
            _ => rng.below(w),
        };
        s.val(&format!("\"shl\",{DBG},{w},{jx},{k}"), || ju(a << k));
        s.val(&format!("\"shr\",{DBG},{w},{jx},{k}"), || ju(a >> k));
        if let Some(ku) = U::<N>::from_checked(k) {
            s.val(&format!("\"shl\",{DBG},{w},{jx},{k}"), || ju(a << ku));
            s.val(&format!("\"shr\",{DBG},{w},{jx},{k}"), || ju(a >> ku));
        }
        // bytes
        let be: Vec<u8> = x.iter().rev().copied().collect();
        let bytes = |b: &[u8]| list(b.iter().map(|v| v.to_string()));
        s.val(&format!("\"le\",{w},{}", bytes(&x)), || {
            format!("[{},{}]", ju(U::<N>::from_le_bytes(x)), bytes(&U::<N>::from_le_bytes(x).to_le_bytes()))
        });
        s.val(&format!("\"be\",{w},{}", bytes(&be)), || {
            let v = U::<N>::from_be_bytes(arr(be.clone()));
            format!("[{},{}]", ju(v), bytes(&v.to_be_bytes()))
        });
        if cfg!(target_endian = "little") {
            s.val(&format!("\"le\",{w},{}", bytes(&x)), || {
                format!("[{},{}]", ju(U::<N>::from_ne_bytes(x)), bytes(&U::<N>::from_ne_bytes(x).to_ne_bytes()))
            });
        }
        if i % 4 == 0 {
            s.val(&format!("\"fmt\",{w},{jx}"), || codes(&format!("{a}")));
            s.val(&format!("\"fmt\",{w},{jx}"), || codes(&format!("{a:?}")));
        }
        s.val(&format!("\"sign\",{w},{jx}"), || format!("[{},{}]", a.is_zero().j(), a.is_one().j()));
        u_prim!(s, rng, N, u8, u16, u32, u64, u128, usize);
        // powers
        let k = if rng.chance(1, 2) { rng.below(34) } else { *rng.pick(&[0usize, 1, 2, 2, 3, 4, 5, 7, 8, 9, 16, 17, 31, 32]) };
        let base: [u8; N] = {
            // keep a^k around the overflow boundary, and the exact power within the model's reach
            let mut v = [0u8; N];
            let bits = if k == 0 { w } else { (w / k + rng.below(3)).clamp(1, w) };
            let src = rng.bytes(N);
            for (i, b) in v.iter_mut().enumerate() {
                if 8 * i < bits {
                    *b = src[i];
                    if 8 * i + 8 > bits {
                        *b &= (1 << (bits - 8 * i)) - 1;
                    }
                }
            }
            v
        };
        let p = U::<N>::from_le_bytes(base);
        if let Some(e) = U::<N>::from_checked(k) {
            s.val(&format!("\"pow\",{DBG},{w},{},{k}", int_json(false, &base)), || ju(p.pow(e)));
        }
    }
    // 0 and 1 to any power
    for v in [0u8, 1] {
        let mut b = [0u8; N];
        b[0] = v;
        let e: [u8; N] = arr(rng.bytes(N));
        let (p, q) = (U::<N>::from_le_bytes(b), U::<N>::from_le_bytes(e));
        s.val(&format!("\"pow01\",{w},{v},{}", int_json(false, &e)), || ju(p.pow(q)));
    }
    s.val(&format!("\"const\",\"min\",{w}"), || ju(U::<N>::min_value()));
    s.val(&format!("\"const\",\"max\",{w}"), || ju(U::<N>::max_value()));
    s.val(&format!("\"const\",\"zero\",{w}"), || ju(U::<N>::zero()));
    s.val(&format!("\"const\",\"one\",{w}"), || ju(U::<N>::one()));
    s.val(&format!("\"const\",\"zero\",{w}"), || ju(U::<N>::new()));
    s.val(&format!("\"const\",\"zero\",{w}"), || ju(U::<N>::default()));
    for v in [0u8, 1, 2] {
        let mut b = [0u8; N];
        b[0] = v;
        s.val(&format!("\"sign\",{w},{}", int_json(false, &b)), || {
            let a = U::<N>::from_le_bytes(b);
            format!("[{},{}]", a.is_zero().j(), a.is_one().j())
        });
        // one followed by a high byte is not one
        let mut b = [0u8; N];
        b[0] = 1;
        b[N - 1] |= v << 3;
        s.val(&format!("\"sign\",{w},{}", int_json(false, &b)), || {
            let a = U::<N>::from_le_bytes(b);
            format!("[{},{}]", a.is_zero().j(), a.is_one().j())
        });
    }
}

fn u_as(s: &mut Sink, rng: &mut Rng, n: usize) {
    macro_rules! one {
        ($t:ident, $n:literal, $as:ident, $from:ident) => {{
            let b: [u8; $n] = arr(rng.bytes($n));
            let v = $t::from_le_bytes(b);
            s.val(&format!("\"asfrom\",\"{}\",{},{}", stringify!($t), 8 * $n, v.j()), || {
                format!("[{},{}]", ju(U::<$n>::$from(v)), U::<$n>::from_le_bytes(b).$as().j())
            });
        }};
    }
    for _ in 0..n {
        one!(u8, 1, as_u8, from_u8);
        one!(u16, 2, as_u16, from_u16);
        one!(u32, 4, as_u32, from_u32);
        one!(u64, 8, as_u64, from_u64);
        one!(u128, 16, as_u128, from_u128);
        one!(usize, 8, as_usize, from_usize);
    }
}

fn i_all<const N: usize>(s: &mut Sink, rng: &mut Rng, n: usize) {
    for i in 0..n {
        let (mut x, mut y) = two::<N>(rng);
        match i % 16 {
            0 => x = arr(nat::to_bytes(&nat::pow2(8 * N - 1), N)),
            1 => y = arr(nat::to_bytes(&nat::pow2(8 * N - 1), N)),
            2 => y = [0xFF; N],
            3 => y = [0; N],
            4 => {
                x = arr(nat::to_bytes(&nat::pow2(8 * N - 1), N));
                y = *rng.pick(&[[0xFF; N], x, [0x00; N]]);
            }
            _ => (),
        }
        i_one::<N>(s, x, y);
    }
    let w = 8 * N;
    s.val(&format!("\"const\",\"min\",{w}"), || ji(I::<N>::min_value()));
    s.val(&format!("\"const\",\"max\",{w}"), || ji(I::<N>::max_value()));
    s.val(&format!("\"const\",\"minpos\",{w}"), || ji(I::<N>::min_positive()));
    s.val(&format!("\"const\",\"maxneg\",{w}"), || ji(I::<N>::max_negative()));
    s.val(&format!("\"const\",\"zero\",{w}"), || ji(I::<N>::zero()));
    s.val(&format!("\"const\",\"one\",{w}"), || ji(I::<N>::one()));
}

fn i_one<const N: usize>(s: &mut Sink, x: [u8; N], y: [u8; N]) {
    let w = 8 * N;
    let (a, b) = (mk_i(x), mk_i(y));
    let (jx, jy) = (twos_json(&x), twos_json(&y));
    s.val(&format!("\"add\",{w},{jx},{jy}"), || ji(a + b));
    s.val(&format!("\"sub\",{w},{jx},{jy}"), || ji(a - b));
    s.val(&format!("\"mul\",{w},{jx},{jy}"), || ji(a * b));
    s.run(&format!("\"divrem\",{w},{jx},{jy}"), || {
        format!("[{},{}]", outcome(|| ji(a / b)), outcome(|| ji(a % b)))
    });
    s.val(&format!("\"neg\",{w},{jx}"), || ji(-a));
    s.val(&format!("\"not\",{w},{jx}"), || ji(!a));
    s.val(&format!("\"abs\",{w},{jx}"), || ji(a.abs()));
    s.val(&format!("\"and\",{w},{jx},{jy}"), || ji(a & b));
    s.val(&format!("\"or\",{w},{jx},{jy}"), || ji(a | b));
    s.val(&format!("\"xor\",{w},{jx},{jy}"), || ji(a ^ b));
    for (p, q, jp, jq) in [(a, b, &jx, &jy), (a, mk_i(x), &jx, &jx)] {
        s.val(&format!("\"cmp\",{w},{jp},{jq}"), || {
            list([
                (p.cmp(&q) as i8).to_string(),
                (p.partial_cmp(&q).unwrap() as i8).to_string(),
                (p == q).j(),
                (p != q).j(),
                (p < q).j(),
                (p <= q).j(),
                (p > q).j(),
                (p >= q).j(),
            ])
        });
    }
    s.val(&format!("\"sign\",{w},{jx}"), || {
        list([a.is_zero().j(), a.is_one().j(), a.is_positive().j(), a.is_negative().j()])
    });
}

macro_rules! widths {
    ($f:ident, $s:expr, $rng:expr, $n:expr) => {
        $f::<1>($s, $rng, $n);
        $f::<2>($s, $rng, $n);
        $f::<3>($s, $rng, $n);
        $f::<4>($s, $rng, $n);
        $f::<5>($s, $rng, $n);
        $f::<7>($s, $rng, $n);
        $f::<8>($s, $rng, $n);
        $f::<9>($s, $rng, $n);
        $f::<16>($s, $rng, $n);
        $f::<17>($s, $rng, $n / 2 + 1);
        $f::<24>($s, $rng, $n / 2 + 1);
        $f::<33>($s, $rng, $n / 4 + 1);
        $f::<6>($s, $rng, $n / 4 + 1);
        $f::<12>($s, $rng, $n / 4 + 1);
        $f::<32>($s, $rng, $n / 6 + 1);
        $f::<64>($s, $rng, $n / 12 + 1);
    };
}

/// Every pair of one-byte numbers
fn u_tables(s: &mut Sink) {
    let u = |x: i64| U::<1>::from_le_bytes([x as u8]);
    let v = |x: U<1>| x.to_le_bytes()[0].t();
    let o = |x: Option<U<1>>| x.map(|x| x.to_le_bytes()[0]).t();
    s.pairs("c", "add", 0, |a, b| o(u(a).checked_add(u(b))));
    s.pairs("c", "sub", 0, |a, b| o(u(a).checked_sub(u(b))));
    s.pairs("c", "mul", 0, |a, b| o(u(a).checked_mul(u(b))));
    s.pairs("c", "div", 0, |a, b| o(u(a).checked_div(u(b))));
    s.pairs("s", "add", 0, |a, b| v(u(a).saturating_add(u(b))));
    s.pairs("s", "sub", 0, |a, b| v(u(a).saturating_sub(u(b))));
    s.pairs("s", "mul", 0, |a, b| v(u(a).saturating_mul(u(b))));
    s.pairs("w", "add", 0, |a, b| v(u(a).wrapping_add(u(b))));
    s.pairs("w", "sub", 0, |a, b| v(u(a).wrapping_sub(u(b))));
    s.pairs("p", "add", 0, |a, b| v(u(a) + u(b)));
    s.pairs("p", "sub", 0, |a, b| v(u(a) - u(b)));
    s.pairs("p", "mul", 0, |a, b| v(u(a) * u(b)));
    s.pairs("p", "div", 0, |a, b| v(u(a) / u(b)));
    s.pairs("p", "rem", 0, |a, b| v(u(a) % u(b)));
    // two bytes by one: quotients and products across the byte
    let u = |x: i64| U::<2>::from_le_bytes((x as u16).to_le_bytes());
    let v = |x: U<2>| u16::from_le_bytes(x.to_le_bytes()).t();
    let o = |x: Option<U<2>>| x.map(|x| u16::from_le_bytes(x.to_le_bytes())).t();
    for a in (0..256).step_by(5).chain(250..262).chain((300..65536).step_by(997)).chain(65530..65536) {
        let t = |pol, op| Tab { pol, op, w: 16, sg: 0 };
        s.row(t("p", "div"), a, 0, 300, |b| v(u(a) / u(b)));
        s.row(t("p", "rem"), a, 0, 300, |b| v(u(a) % u(b)));
        s.row(t("c", "mul"), a, 0, 300, |b| o(u(a).checked_mul(u(b))));
        s.row(t("s", "mul"), a, 0, 300, |b| v(u(a).saturating_mul(u(b))));
        s.row(t("c", "add"), a, 65300, 65535, |b| o(u(a).checked_add(u(b))));
        s.row(t("c", "sub"), a, 0, 300, |b| o(u(a).checked_sub(u(b))));
    }
}

fn u_rest_tables(s: &mut Sink) {
    let u = |x: i64| U::<1>::from_le_bytes([x as u8]);
    let v = |x: U<1>| x.to_le_bytes()[0].t();
    let o = |x: Option<U<1>>| x.map(|x| x.to_le_bytes()[0]).t();
    s.pairs("x", "cmp", 0, |a, b| u(a).cmp(&u(b)).t());
    s.pairs("x", "and", 0, |a, b| v(u(a) & u(b)));
    s.pairs("x", "or", 0, |a, b| v(u(a) | u(b)));
    s.pairs("x", "xor", 0, |a, b| v(u(a) ^ u(b)));
    s.pairs("u", "shl", 0, |a, b| v(u(a) << u(b)));
    s.pairs("u", "shr", 0, |a, b| v(u(a) >> u(b)));
    s.pairs("u", "shl", 0, |a, b| v(u(a) << b as usize));
    s.pairs("u", "shr", 0, |a, b| v(u(a) >> b as usize));
    s.pairs("p", "pow", 0, |a, b| v(u(a).pow(u(b))));
    let t = |pol| Tab { pol, op: "id", w: 8, sg: 0 };
    for lo in [0, 256, 32700, 65300] {
        let w2 = |x: i64| U::<2>::from_le_bytes((x as u16).to_le_bytes());
        s.row(t("c"), 0, lo, lo + 235, |b| u8::from_checked(w2(b)).t());
        s.row(t("s"), 0, lo, lo + 235, |b| u8::saturate_from(w2(b)).t());
        s.row(t("w"), 0, lo, lo + 235, |b| u8::truncate_from(w2(b)).t());
        s.row(t("c"), 0, lo, lo + 235, |b| o(U::<1>::from_checked(b as u16)));
        s.row(t("c"), 0, lo, lo + 235, |b| o(U::<1>::from_checked(b as u32)));
        s.row(t("c"), 0, lo, lo + 235, |b| o(U::<1>::from_checked(b as u64)));
        s.row(t("c"), 0, lo, lo + 235, |b| o(U::<1>::from_checked(b as usize)));
    }
}

fn i_tables(s: &mut Sink) {
    let i = |x: i64| mk_i([x as u8]);
    let v = |x: I<1>| (unsafe { std::mem::transmute_copy::<I<1>, i8>(&x) }).t();
    s.pairs("w", "add", 1, |a, b| v(i(a) + i(b)));
    s.pairs("w", "sub", 1, |a, b| v(i(a) - i(b)));
    s.pairs("w", "mul", 1, |a, b| v(i(a) * i(b)));
    s.pairs("w", "div", 1, |a, b| v(i(a) / i(b)));
    s.pairs("w", "rem", 1, |a, b| v(i(a) % i(b)));
    s.pairs("x", "and", 1, |a, b| v(i(a) & i(b)));
    s.pairs("x", "or", 1, |a, b| v(i(a) | i(b)));
    s.pairs("x", "xor", 1, |a, b| v(i(a) ^ i(b)));
    s.pairs("x", "cmp", 1, |a, b| i(a).cmp(&i(b)).t());
    let t = |op| Tab { pol: "w", op, w: 8, sg: 1 };
    s.row(t("neg"), 0, -128, 127, |b| v(-i(b)));
    s.row(t("abs"), 0, -128, 127, |b| v(i(b).abs()));
    s.row(t("not"), 0, -128, 127, |b| v(!i(b)));
    // two bytes by one
    let i = |x: i64| mk_i((x as i16).to_le_bytes());
    let v = |x: I<2>| i16::from_le_bytes(unsafe { std::mem::transmute_copy::<I<2>, [u8; 2]>(&x) }).t();
    for a in (-32768..-32760).chain((-32000..32000).step_by(997)).chain(-260..-250).chain(-3..4).chain(250..260).chain(32760..32768) {
        let t = |op| Tab { pol: "w", op, w: 16, sg: 1 };
        s.row(t("div"), a, -300, 300, |b| v(i(a) / i(b)));
        s.row(t("rem"), a, -300, 300, |b| v(i(a) % i(b)));
        s.row(t("mul"), a, -300, 300, |b| v(i(a) * i(b)));
        s.row(t("add"), a, -300, 300, |b| v(i(a) + i(b)));
        s.row(t("sub"), a, -300, 300, |b| v(i(a) - i(b)));
    }
}

fn main() {
    let args = Args::get();
    let mut rng = args.rng();
    let mut s = args.sink(100);
    let n = 100 * args.scale;
    match args.prop.as_str() {
        "C13" => {
            widths!(u_arith, &mut s, &mut rng, n);
            u_tables(&mut s);
        }
        "C14" => {
            widths!(u_rest, &mut s, &mut rng, n * 2 / 3);
            u_as(&mut s, &mut rng, n);
            u_rest_tables(&mut s);
        }
        "C15" => {
            widths!(i_all, &mut s, &mut rng, n);
            i_tables(&mut s);
        }
        p => panic!("unknown property {p}"),
    }
    s.finish();
}
