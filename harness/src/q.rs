//! Exact rationals as an element type for the generic matrix and complex algorithms.

use crate::{Rng, J};
use numeric_traits::class::{Numeric, Real, RealSigned, Signed};
use numeric_traits::identity::{One, Zero};
use numeric_traits::ops::Pow;
use std::cmp::Ordering;
use std::ops::{Add, Div, Mul, Neg, Rem, Sub};

/// Always reduced, positive denominator. Not `Copy`: the library has to clone.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Q {
    pub n: i128,
    pub d: i128,
}

fn gcd(a: i128, b: i128) -> i128 {
    if b == 0 {
        a.abs()
    } else {
        gcd(b, a % b)
    }
}

impl Q {
    pub fn new(n: i128, d: i128) -> Q {
        assert!(d != 0, "division by zero");
        let g = gcd(n, d) * d.signum();
        Q { n: n / g, d: d / g }
    }
    pub fn int(n: i128) -> Q {
        Q { n, d: 1 }
    }
    pub fn small(rng: &mut Rng) -> Q {
        let n = rng.range(0, 8) as i128 - 4;
        if rng.chance(1, 3) {
            Q::new(n, rng.range(1, 4) as i128)
        } else {
            Q::int(n)
        }
    }
    fn whole(self, k: impl FnOnce(i128, i128) -> i128) -> Q {
        Q::int(k(self.n, self.d))
    }
}

impl J for Q {
    fn j(&self) -> String {
        format!("[{},{}]", self.n.j(), self.d.j())
    }
}

macro_rules! c {
    ($x:expr) => {
        $x.expect("exact rational overflow in the harness")
    };
}
impl Add for Q {
    type Output = Q;
    fn add(self, r: Q) -> Q {
        Q::new(c!(c!(self.n.checked_mul(r.d)).checked_add(c!(r.n.checked_mul(self.d)))), c!(self.d.checked_mul(r.d)))
    }
}
impl Neg for Q {
    type Output = Q;
    fn neg(self) -> Q {
        Q { n: -self.n, d: self.d }
    }
}
impl Sub for Q {
    type Output = Q;
    fn sub(self, r: Q) -> Q {
        self + -r
    }
}
impl Mul for Q {
    type Output = Q;
    fn mul(self, r: Q) -> Q {
        Q::new(c!(self.n.checked_mul(r.n)), c!(self.d.checked_mul(r.d)))
    }
}
impl Div for Q {
    type Output = Q;
    fn div(self, r: Q) -> Q {
        Q::new(c!(self.n.checked_mul(r.d)), c!(self.d.checked_mul(r.n)))
    }
}
impl Rem for Q {
    type Output = Q;
    fn rem(self, r: Q) -> Q {
        let q = (self.clone() / r.clone()).whole(|n, d| n / d);
        self - q * r
    }
}
impl PartialOrd for Q {
    fn partial_cmp(&self, o: &Q) -> Option<Ordering> {
        Some((self.n * o.d).cmp(&(o.n * self.d)))
    }
}
impl Zero for Q {
    fn zero() -> Q {
        Q::int(0)
    }
    fn is_zero(&self) -> bool {
        self.n == 0
    }
}
impl One for Q {
    fn one() -> Q {
        Q::int(1)
    }
    fn is_one(&self) -> bool {
        self.n == self.d
    }
}
impl Default for Q {
    fn default() -> Q {
        Q::int(0)
    }
}
fn exact_root(x: i128, k: i128) -> i128 {
    if k == 1 {
        return x;
    }
    let r = (x as f64).powf(1.0 / k as f64).round() as i128;
    (r - 1..=r + 1).find(|r| r.checked_pow(k as u32) == Some(x)).expect("no exact root")
}
impl Pow for Q {
    type Output = Q;
    fn pow(self, e: Q) -> Q {
        // the root is exact, or there is none
        let base = Q { n: exact_root(self.n, e.d), d: exact_root(self.d, e.d) };
        let mut out = Q::int(1);
        for _ in 0..e.n.abs() {
            out = out * base.clone();
        }
        if e.n < 0 {
            Q::int(1) / out
        } else {
            out
        }
    }
}
impl Numeric for Q {}
impl Signed for Q {
    fn abs(self) -> Q {
        Q { n: self.n.abs(), d: self.d }
    }
    fn is_positive(&self) -> bool {
        self.n >= 0
    }
    fn is_negative(&self) -> bool {
        self.n < 0
    }
}
impl Real for Q {
    fn floor(self) -> Q {
        self.whole(|n, d| n.div_euclid(d))
    }
    fn ceil(self) -> Q {
        self.whole(|n, d| -(-n).div_euclid(d))
    }
    fn round(self) -> Q {
        (self + Q::new(1, 2)).floor()
    }
    fn trunc(self) -> Q {
        self.whole(|n, d| n / d)
    }
    fn fract(self) -> Q {
        self.clone() - self.trunc()
    }
    fn log(self, _base: Q) -> Q {
        unimplemented!("not exact")
    }
}
impl RealSigned for Q {}
