//! Building and reading `BigInt` values.

use crate::{int_json, nat, words_bytes, Rng, J};
use numeric_ints::BigInt;
#[allow(unused_imports)]
use numeric_traits::class::Signed;

/// The mathematical value a generator has in mind: sign and magnitude
#[derive(Clone, Debug, PartialEq)]
pub struct Z {
    pub neg: bool,
    pub mag: Vec<u64>,
}

impl Z {
    pub fn new(neg: bool, mag: Vec<u64>) -> Z {
        let mag = nat::trim(mag);
        Z { neg: neg && !mag.is_empty(), mag }
    }
    pub fn small(v: i128) -> Z {
        let m = v.unsigned_abs();
        Z::new(v < 0, vec![m as u64, (m >> 64) as u64])
    }
    pub fn j(&self) -> String {
        int_json(self.neg, &words_bytes(&self.mag))
    }
    /// The implementation's value for this number
    #[cfg(numeric_verif)]
    pub fn big(&self) -> BigInt {
        let limbs: Vec<usize> = if self.mag.is_empty() {
            vec![0]
        } else {
            self.mag.iter().map(|w| *w as usize).collect()
        };
        BigInt::verif_from_parts(self.neg, &limbs)
    }
    #[cfg(not(numeric_verif))]
    pub fn big(&self) -> BigInt {
        let mut out = BigInt::new();
        for &w in self.mag.iter().rev() {
            out = (out << 64u32) + w;
        }
        if self.neg {
            -out
        } else {
            out
        }
    }
}

/// The sign and limbs an implementation value actually holds
#[cfg(numeric_verif)]
pub fn parts(b: &BigInt) -> (bool, Vec<u64>) {
    let (n, l) = b.verif_parts();
    (n, l.into_iter().map(|w| w as u64).collect())
}

/// Without the hooks: through the public interface
#[cfg(not(numeric_verif))]
pub fn parts(b: &BigInt) -> (bool, Vec<u64>) {
    use numeric_traits::cast::FromTruncating;
    let neg = b.is_negative();
    let mut m = b.clone().abs();
    let mut out = Vec::new();
    while m > 0 {
        out.push(u64::truncate_from(m.clone()));
        m = m >> 64u32;
    }
    (neg, out)
}

impl J for BigInt {
    fn j(&self) -> String {
        let (neg, l) = parts(self);
        int_json(neg, &words_bytes(&l))
    }
}

/// Magnitudes, biased to limb and representation boundaries
pub fn mag(rng: &mut Rng, max: usize) -> Vec<u64> {
    let v = match rng.below(20) {
        0 => vec![],
        1 => vec![rng.below(4) as u64],
        2 => vec![rng.below(300) as u64],
        3 => {
            let b = *rng.pick(&[61u32, 62, 63]);
            vec![(1u64 << b).wrapping_add(rng.below(5) as u64).wrapping_sub(2)]
        }
        4 => nat::sub(&[2, 1], &[rng.below(5) as u64]), // around 2^64
        5 => nat::sub(&[2, 0, 1], &[rng.below(5) as u64]), // around 2^128
        6 | 7 => {
            let k = rng.below(64 * max);
            match rng.below(3) {
                0 => nat::pow2(k),
                1 => nat::sub(&nat::pow2(k), &[1]),
                _ => nat::add(&nat::pow2(k), &[1]),
            }
        }
        8 => vec![u64::MAX; rng.range(1, max)],
        9 => vec![rng.next() >> rng.below(64)],
        10 | 11 => {
            let n = rng.range(1, max);
            (0..n).map(|_| rng.next()).collect()
        }
        12 => {
            // high limb small: the value just crosses a limb boundary
            let n = rng.range(1, max);
            let mut v: Vec<u64> = (0..n).map(|_| rng.word()).collect();
            v[n - 1] = rng.below(3) as u64;
            v
        }
        13 => {
            // zeros below a limb
            let n = rng.range(1, max);
            let mut v = vec![0; n];
            v[n - 1] = rng.word();
            v
        }
        _ => {
            let n = if rng.chance(2, 3) { rng.range(1, 3.min(max)) } else { rng.range(1, max) };
            (0..n).map(|_| rng.word()).collect()
        }
    };
    nat::trim(v)
}

pub fn z(rng: &mut Rng, max: usize) -> Z {
    let max = if rng.chance(1, 24) { 3 * max } else { max };
    let m = mag(rng, max);
    Z::new(rng.chance(1, 2), m)
}

/// A pair, often correlated so that carries, borrows and cancellations run far
pub fn pair(rng: &mut Rng, max: usize) -> (Z, Z) {
    let a = z(rng, max);
    let b = match rng.below(12) {
        0 => a.clone(),
        1 => Z::new(!a.neg, a.mag.clone()),
        2 => Z::new(rng.chance(1, 2), nat::add(&a.mag, &[rng.below(3) as u64])),
        3 => Z::new(rng.chance(1, 2), nat::sub(&a.mag, &[rng.below(3) as u64])),
        4 => {
            // together a power of a limb
            let n = a.mag.len().max(1) * 64;
            let m = nat::sub(&nat::pow2(n), &a.mag);
            Z::new(rng.chance(1, 2), m)
        }
        5 => {
            // share the high limbs
            let mut m = a.mag.clone();
            if !m.is_empty() {
                let k = rng.below(m.len());
                m[k] = rng.word();
            }
            Z::new(rng.chance(1, 2), m)
        }
        6 => Z::new(rng.chance(1, 2), vec![rng.below(4) as u64]),
        _ => z(rng, max),
    };
    if rng.chance(1, 2) {
        (a, b)
    } else {
        (b, a)
    }
}

/// Dividend and divisor with quotient digits and remainders at their extremes
pub fn div_pair(rng: &mut Rng, max: usize) -> (Z, Z) {
    match rng.below(8) {
        0..=3 => {
            let b = mag(rng, max.div_ceil(2).max(1));
            let q = mag(rng, max.div_ceil(2).max(1));
            let b = if b.is_empty() { vec![1] } else { b };
            let mut a = nat::mul(&b, &q);
            match rng.below(5) {
                0 => (),
                1 => a = nat::add(&a, &nat::sub(&b, &[1])),
                2 => a = nat::sub(&a, &[1]),
                3 => a = nat::add(&a, &[rng.below(3) as u64]),
                _ => {
                    let r = mag(rng, b.len());
                    if nat::cmp(&r, &b).is_lt() {
                        a = nat::add(&a, &r);
                    }
                }
            }
            (Z::new(rng.chance(1, 2), a), Z::new(rng.chance(1, 2), b))
        }
        _ => pair(rng, max),
    }
}

/// Exactly `n` limbs
pub fn limbs(rng: &mut Rng, n: usize) -> Vec<u64> {
    let mut v: Vec<u64> = match rng.below(4) {
        0 => vec![u64::MAX; n],
        1 => vec![0; n],
        2 => (0..n).map(|_| rng.word()).collect(),
        _ => (0..n).map(|_| rng.next()).collect(),
    };
    if v[n - 1] == 0 {
        v[n - 1] = if rng.chance(1, 2) { 1 } else { rng.next() | 1 };
    }
    v
}

/// Pairs of every number of limbs up to `most` (past 20, around multiples of 16), against longer and shorter ones, in all signs
pub fn ladder(rng: &mut Rng, most: usize) -> Vec<(Z, Z)> {
    let mut out = vec![];
    for n in (1..=most).filter(|n| *n <= 20 || (n + 2) % 16 <= 4) {
        for m in [1, 2, 3, n / 2, n - 1, n, n, n + 1] {
            for sg in 0..4 {
                let a = limbs(rng, n);
                let b = if m == n && rng.chance(1, 2) {
                    let mut b = a.clone();
                    let k = rng.below(n);
                    b[k] ^= 1 << rng.below(64);
                    nat::trim(b)
                } else {
                    limbs(rng, m.max(1))
                };
                let (a, b) = (Z::new(sg & 1 == 1, a), Z::new(sg & 2 == 2, b));
                out.push(if rng.chance(1, 3) { (b, a) } else { (a, b) });
            }
        }
    }
    out
}

/// Every number within one of a power of two where some representation changes, in both signs
pub fn grid() -> Vec<Z> {
    let mut out = vec![Z::small(0)];
    for neg in [false, true] {
        for v in [1u64, 2, 3, 10] {
            out.push(Z::new(neg, vec![v]));
        }
        for k in [7usize, 8, 15, 16, 31, 32, 62, 63, 64, 65, 127, 128, 129, 191, 192] {
            for m in [nat::sub(&nat::pow2(k), &[1]), nat::pow2(k), nat::add(&nat::pow2(k), &[1])] {
                out.push(Z::new(neg, m));
            }
        }
    }
    out
}

/// A shorter grid, for use against primitives
pub fn short_grid() -> Vec<Z> {
    let mut out = vec![Z::small(0)];
    for neg in [false, true] {
        out.push(Z::new(neg, vec![1]));
        for k in [7usize, 8, 15, 16, 31, 32, 63, 64, 127, 128] {
            for m in [nat::sub(&nat::pow2(k), &[1]), nat::pow2(k)] {
                out.push(Z::new(neg, m));
            }
        }
    }
    out
}
