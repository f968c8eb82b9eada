//! Complex numbers, vectors and matrices: C23, C24, C25.

use numeric_compounds::complex::Complex;
use numeric_compounds::matrix::{DynMatrix, Matrix, MatrixMut, MatrixRef};
use numeric_compounds::vector::Vector;
use numeric_ints::BigInt;
use numeric_traits::class::{Numeric, Real, RealSigned};
use numeric_traits::identity::{One, Zero};
use numeric_traits::ops::checked::{CheckedAdd, CheckedSub};
use numeric_verif_harness::big;
use numeric_verif_harness::q::Q;
use numeric_verif_harness::*;
use std::array;
use std::ops::*;

/// Element types. Every value is written as `[numerator, denominator]`.
trait El: Clone + PartialEq + Default + Zero + One {
    fn gen(rng: &mut Rng) -> Self;
    fn e(&self) -> String;
}
impl El for i64 {
    fn gen(rng: &mut Rng) -> i64 {
        rng.range(0, 40) as i64 - 20
    }
    fn e(&self) -> String {
        format!("[{},[0,[1]]]", self.j())
    }
}
impl El for BigInt {
    fn gen(rng: &mut Rng) -> BigInt {
        big::z(rng, 2).big()
    }
    fn e(&self) -> String {
        format!("[{},[0,[1]]]", self.j())
    }
}
impl El for Q {
    fn gen(rng: &mut Rng) -> Q {
        Q::small(rng)
    }
    fn e(&self) -> String {
        self.j()
    }
}

fn vj<T: El, const N: usize>(v: &[T; N]) -> String {
    list(v.iter().map(|x| x.e()))
}
fn mj<T: El, const R: usize, const C: usize>(m: &Matrix<T, R, C>) -> String {
    list((0..R).map(|r| list((0..C).map(|c| m[(r, c)].e()))))
}
fn aj<T: El, const R: usize, const C: usize>(m: &[[T; C]; R]) -> String {
    list(m.iter().map(vj))
}
fn arr<T: El, const N: usize>(rng: &mut Rng) -> [T; N] {
    array::from_fn(|_| T::gen(rng))
}
fn mat<T: El, const R: usize, const C: usize>(rng: &mut Rng) -> [[T; C]; R] {
    array::from_fn(|_| arr(rng))
}

// ------------------------------------------------------------------ complex

fn cj<T: El>(c: &Complex<T>) -> String {
    format!("[{},{}]", c.real().e(), c.imag().e())
}

fn complex<T>(s: &mut Sink, rng: &mut Rng, t: &str)
where
    T: El + Add<Output = T> + Sub<Output = T> + Mul<Output = T>,
{
    let g = |rng: &mut Rng| {
        let z = |rng: &mut Rng| if rng.chance(1, 6) { T::zero() } else { T::gen(rng) };
        Complex::new(z(rng), z(rng))
    };
    let (a, b, k) = (g(rng), g(rng), T::gen(rng));
    let h = |op: &str| format!("\"{op}\",\"{t}\",{},{}", cj(&a), cj(&b));
    let hs = |op: &str| format!("\"{op}\",\"{t}\",{},[{},[[0,[]],[0,[1]]]]", cj(&a), k.e());
    s.val(&h("cadd"), || cj(&(a.clone() + b.clone())));
    s.val(&h("csub"), || cj(&(a.clone() - b.clone())));
    s.val(&h("cmul"), || cj(&(a.clone() * b.clone())));
    s.val(&hs("cadd"), || cj(&(a.clone() + k.clone())));
    s.val(&hs("csub"), || cj(&(a.clone() - k.clone())));
    s.val(&hs("cmul"), || cj(&(a.clone() * k.clone())));
    let zero = format!("\"cconst\",\"{t}\",[[[0,[]],[0,[1]]],[[0,[]],[0,[1]]]]");
    let one = format!("\"cconst\",\"{t}\",[[[0,[1]],[0,[1]]],[[0,[]],[0,[1]]]]");
    s.val(&zero, || cj(&Complex::<T>::zero()));
    s.val(&zero, || cj(&Complex::<T>::default()));
    s.val(&one, || cj(&Complex::<T>::one()));
    s.val(&format!("\"cconst\",\"{t}\",[{},[[0,[]],[0,[1]]]]", k.e()), || cj(&Complex::from_real(k.clone())));
    s.val(&format!("\"cconst\",\"{t}\",[[[0,[]],[0,[1]]],{}]", k.e()), || cj(&Complex::from_imag(k.clone())));
    for x in [&a, &Complex::new(T::one(), T::zero()), &Complex::new(T::zero(), T::one()), &Complex::new(T::one(), T::one())] {
        s.val(&format!("\"cident\",\"{t}\",{}", cj(x)), || format!("[{},{}]", x.is_zero().j(), x.is_one().j()));
    }
    s.val(&h("ceq"), || format!("[{},{}]", (a == b).j(), (a != b).j()));
}

fn complex_field(s: &mut Sink, rng: &mut Rng) {
    let (a, mut b, mut k) = (
        Complex::new(Q::gen(rng), Q::gen(rng)),
        Complex::new(Q::gen(rng), Q::gen(rng)),
        Q::gen(rng),
    );
    if b.is_zero() {
        b = Complex::new(Q::int(0), Q::int(2));
    }
    if k.is_zero() {
        k = Q::new(-2, 3);
    }
    s.val(&format!("\"cdiv\",\"Q\",{},{}", cj(&a), cj(&b)), || cj(&(a.clone() / b.clone())));
    s.val(&format!("\"cdiv\",\"Q\",{},[{},[[0,[]],[0,[1]]]]", cj(&a), k.e()), || cj(&(a.clone() / k.clone())));
    s.val(&format!("\"cabs2\",\"Q\",{}", cj(&a)), || a.abs_squared().e());
    let (x, y) = *rng.pick(&[(3, 4), (5, 12), (8, 15), (0, 1), (20, 21), (1, 0), (0, 0)]);
    let k = Q::new(rng.range(0, 100) as i128 - 50, 1 + rng.below(9) as i128);
    let p = Complex::new(Q::int(x) * k.clone(), if rng.chance(1, 2) { Q::int(y) } else { Q::int(-y) } * k);
    s.val(&format!("\"cabs\",\"Q\",{}", cj(&p)), || p.abs().e());
}

// ------------------------------------------------------------------ vectors

/// One operation in all its operand forms; `$nz` keeps the right operand's lanes non-zero
macro_rules! forms {
    ($s:ident, $t:literal, $op:literal, $o:tt, $oa:tt, $a:ident, $b:ident, $k:ident) => {{
        let hv = format!("\"vop\",\"{}\",\"{}\",{},{}", $t, $op, vj(&$a), vj(&$b));
        let hs = format!("\"sop\",\"{}\",\"{}\",{},{}", $t, $op, vj(&$a), $k.e());
        let va = || Vector::new($a.clone());
        let vb = || Vector::new($b.clone());
        let out = |v: Vector<_, N>| vj(&<[_; N]>::from(v));
        $s.val(&hv, || out(va() $o vb()));
        $s.val(&hv, || out(va() $o &vb()));
        $s.val(&hs, || out(va() $o $k.clone()));
        $s.val(&hs, || out(va() $o &$k));
        $s.val(&hv, || { let mut x = va(); x $oa vb(); out(x) });
        $s.val(&hv, || { let mut x = va(); x $oa &vb(); out(x) });
        $s.val(&hs, || { let mut x = va(); x $oa $k.clone(); out(x) });
        $s.val(&hs, || { let mut x = va(); x $oa &$k; out(x) });
    }};
}

macro_rules! vector_ops {
    ($name:ident, $t:ident, $tn:literal) => {
        fn $name<const N: usize>(s: &mut Sink, rng: &mut Rng) {
            let a: [$t; N] = arr(rng);
            let b: [$t; N] = arr(rng);
            let k = $t::gen(rng);
            forms!(s, $tn, "add", +, +=, a, b, k);
            forms!(s, $tn, "sub", -, -=, a, b, k);
            forms!(s, $tn, "mul", *, *=, a, b, k);
            let nz = |x: $t| if x.is_zero() { $t::one() + $t::one() } else { x };
            let (b, k) = (b.map(nz), nz(k));
            forms!(s, $tn, "div", /, /=, a, b, k);
            forms!(s, $tn, "rem", %, %=, a, b, k);
        }
    };
}
vector_ops!(vec_i64, i64, "i64");
vector_ops!(vec_big, BigInt, "BigInt");

fn vec_common<T: El + Numeric, const N: usize>(s: &mut Sink, rng: &mut Rng, t: &str) {
    let a: [T; N] = arr(rng);
    let k = T::gen(rng);
    let z: [T; N] = array::from_fn(|_| T::zero());
    let out = |v: Vector<T, N>| vj(&<[T; N]>::from(v));
    let c = |x: &[T; N]| format!("\"vconst\",\"{t}\",{}", vj(x));
    s.val(&c(&a), || out(Vector::new(a.clone())));
    s.val(&c(&a), || out(Vector::from(a.clone())));
    s.val(&c(&z), || out(Vector::zeroed()));
    s.val(&c(&z), || out(<Vector<T, N> as Zero>::zero()));
    s.val(&c(&z), || out(Vector::default()));
    s.val(&c(&array::from_fn(|_| k.clone())), || out(Vector::from_scalar(k.clone())));
    // zero except at one lane
    let mut one_off = z.clone();
    if N > 0 {
        one_off[rng.below(N)] = T::one();
    }
    for x in [&a, &z, &one_off] {
        s.val(&format!("\"vident\",\"{t}\",{}", vj(x)), || Vector::new(x.clone()).is_zero().j());
    }
    let row = |m: Matrix<T, 1, N>| mj(&m);
    let col = |m: Matrix<T, N, 1>| mj(&m);
    s.val(&format!("\"vrow\",\"{t}\",{}", vj(&a)), || row(Vector::new(a.clone()).into_row()));
    s.val(&format!("\"vcol\",\"{t}\",{}", vj(&a)), || col(Vector::new(a.clone()).into_column()));
    for i in 0..N + 2 {
        s.val(&format!("\"vget\",\"{t}\",{},{i}", vj(&a)), || Vector::new(a.clone())[i].e());
        s.val(&format!("\"vset\",\"{t}\",{},{i},{}", vj(&a), k.e()), || {
            let mut v = Vector::new(a.clone());
            v[i] = k.clone();
            out(v)
        });
    }
    let b: [T; N] = if rng.chance(1, 2) { a.clone() } else { arr(rng) };
    s.val(&format!("\"veq\",\"{t}\",{},{}", vj(&a), vj(&b)), || {
        (Vector::new(a.clone()) == Vector::new(b.clone())).j()
    });
}

fn vec_real<const N: usize>(s: &mut Sink, rng: &mut Rng) {
    let (a, b): ([Q; N], [Q; N]) = (arr(rng), arr(rng));
    s.val(&format!("\"vsum\",\"Q\",{}", vj(&a)), || Vector::new(a.clone()).sum().e());
    s.val(&format!("\"vprod\",\"Q\",{}", vj(&a)), || Vector::new(a.clone()).product().e());
    let h = |op: &str| format!("\"{op}\",\"Q\",{},{}", vj(&a), vj(&b));
    s.val(&h("vdot"), || Vector::dot_product(Vector::new(a.clone()), Vector::new(b.clone())).e());
    s.val(&h("vdist2"), || Vector::distance_squared(Vector::new(a.clone()), Vector::new(b.clone())).e());
    // b at a distance that is rational
    let legs: &[i128] = *rng.pick(&[&[3, 4][..], &[1, 2, 2], &[2, 3, 6], &[1, 1, 1, 1], &[1], &[], &[2, 4, 5, 6], &[1, 1, 1, 1, 1, 2]]);
    if legs.len() <= N {
        let k = Q::new(rng.range(0, 40) as i128 - 20, 1 + rng.below(5) as i128);
        let shift = rng.below(N - legs.len() + 1);
        let b: [Q; N] = array::from_fn(|i| {
            let leg = if i >= shift && i - shift < legs.len() { legs[i - shift] } else { 0 };
            a[i].clone() + Q::int(if rng.chance(1, 2) { leg } else { -leg }) * k.clone()
        });
        s.val(&format!("\"vdist\",\"Q\",{},{}", vj(&a), vj(&b)), || {
            Vector::distance(Vector::new(a.clone()), Vector::new(b.clone())).e()
        });
    }
    // wedge has no observable components, but must not panic
    s.val(&format!("\"wedge\",{N}"), || {
        let _ = Vector::wedge(Vector::new(a.clone()), Vector::new(b.clone()));
        "0".into()
    });
    vec_common::<Q, N>(s, rng, "Q");
}

fn cross<T: El + Numeric>(s: &mut Sink, rng: &mut Rng, t: &str) {
    let (a, b): ([T; 3], [T; 3]) = (arr(rng), arr(rng));
    s.val(&format!("\"cross\",\"{t}\",{},{}", vj(&a), vj(&b)), || {
        vj(&<[T; 3]>::from(Vector::new(a.clone()).cross(Vector::new(b.clone()))))
    });
}

fn accessors(s: &mut Sink, rng: &mut Rng) {
    let a: [i64; 4] = arr(rng);
    let k = i64::gen(rng);
    macro_rules! acc {
        ($n:literal, $mk:expr, $($i:literal $g:ident $m:ident $st:ident),*) => {{
            let base: [i64; $n] = array::from_fn(|i| a[i]);
            s.val(&format!("\"vconst\",\"i64\",{}", vj(&base)), || vj(&<[i64; $n]>::from($mk)));
            $(
                s.val(&format!("\"vget\",\"i64\",{},{}", vj(&base), $i), || $mk.$g().e());
                let h = format!("\"vset\",\"i64\",{},{},{}", vj(&base), $i, k.e());
                s.val(&h, || { let mut v = $mk; *v.$m() = k; vj(&<[i64; $n]>::from(v)) });
                s.val(&h, || { let mut v = $mk; v.$st(k); vj(&<[i64; $n]>::from(v)) });
            )*
        }};
    }
    acc!(2, Vector::from_xy(a[0], a[1]), 0 x x_mut set_x, 1 y y_mut set_y);
    acc!(3, Vector::from_xyz(a[0], a[1], a[2]), 0 x x_mut set_x, 1 y y_mut set_y, 2 z z_mut set_z);
    acc!(4, Vector::from_xyzw(a[0], a[1], a[2], a[3]),
         0 x x_mut set_x, 1 y y_mut set_y, 2 z z_mut set_z, 3 w w_mut set_w);
}

macro_rules! checked_vec {
    ($s:ident, $rng:ident, $n:literal, $($t:ident $sg:literal),*) => { $({
        const BY: usize = std::mem::size_of::<$t>();
        let mut g = || -> [$t; $n] {
            let small = $rng.chance(2, 3);
            array::from_fn(|_| {
                let b: [u8; BY] = $rng.bytes(BY).try_into().unwrap();
                let v = $t::from_le_bytes(b);
                // usually only one lane overflows, anywhere
                if small && !$rng.chance(1, $n + 1) { v / 4 } else { v }
            })
        };
        let (a, b) = (g(), g());
        let j = |v: &[$t; $n]| list(v.iter().map(|x| x.j()));
        let h = |op: &str| format!("\"{op}\",{},{},{},{}", $t::BITS, $sg, j(&a), j(&b));
        let out = |v: Option<Vector<$t, $n>>| match v {
            Some(v) => ok(&j(&<[$t; $n]>::from(v))),
            None => "[\"none\"]".into(),
        };
        $s.run(&h("kadd"), || out(Vector::new(a).checked_add(Vector::new(b))));
        $s.run(&h("ksub"), || out(Vector::new(a).checked_sub(Vector::new(b))));
    })* };
}

// ------------------------------------------------------------------ matrices

fn matrix<T, const R: usize, const C: usize, const K: usize>(s: &mut Sink, rng: &mut Rng, t: &str)
where
    T: El + Add<Output = T> + Sub<Output = T> + Mul<Output = T>,
{
    let (a, b): ([[T; C]; R], [[T; C]; R]) = (mat(rng), mat(rng));
    let x: [[T; K]; C] = mat(rng);
    let ma = || Matrix::new(a.clone());
    let h2 = |op: &str| format!("\"{op}\",\"{t}\",{},{}", aj(&a), aj(&b));
    let h1 = |op: &str| format!("\"{op}\",\"{t}\",{}", aj(&a));
    s.val(&h2("madd"), || mj(&(ma() + Matrix::new(b.clone()))));
    s.val(&h2("msub"), || mj(&(ma() - Matrix::new(b.clone()))));
    s.val(&format!("\"mmul\",\"{t}\",{},{}", aj(&a), aj(&x)), || mj(&(ma() * Matrix::new(x.clone()))));
    s.val(&h1("mtrans"), || mj(&ma().transpose()));
    s.val(&h1("mconst"), || mj(&ma()));
    let rows = || a.clone().map(Vector::new);
    s.val(&h1("mconst"), || mj(&Matrix::from_rows(rows())));
    // the rows as columns: the transpose
    s.val(&h1("mtrans"), || mj(&Matrix::<T, C, R>::from_columns(rows())));
    let (i, j) = (rng.below(R), rng.below(R));
    s.val(&format!("\"mswap\",\"{t}\",{},{i},{j}", aj(&a)), || {
        let mut m = ma();
        m.swap_rows(i, j);
        mj(&m)
    });
    s.val(&format!("\"mone\",{R},{C}"), || mj(&Matrix::<T, R, C>::one()));
    s.val(&format!("\"mzero\",{R},{C}"), || mj(&<Matrix<T, R, C> as Zero>::zero()));
    s.val(&format!("\"mzero\",{R},{C}"), || mj(&Matrix::<T, R, C>::default()));
    let eye: [[T; C]; R] = array::from_fn(|i| array::from_fn(|j| if i == j { T::one() } else { T::zero() }));
    let mut eye1 = eye.clone();
    eye1[i][rng.below(C)] = if rng.chance(1, 2) { T::one() } else { T::zero() };
    let zero: [[T; C]; R] = array::from_fn(|_| array::from_fn(|_| T::zero()));
    let mut zero1 = zero.clone();
    zero1[j][rng.below(C)] = T::one();
    for m in [&a, &eye, &eye1, &zero, &zero1] {
        s.val(&format!("\"mident\",\"{t}\",{}", aj(m)), || {
            let m = Matrix::new(m.clone());
            format!("[{},{}]", m.is_zero().j(), m.is_one().j())
        });
    }
    let c: [[T; C]; R] = if rng.chance(1, 2) { a.clone() } else { b.clone() };
    s.val(&format!("\"meq\",\"{t}\",{},{}", aj(&a), aj(&c)), || (ma() == Matrix::new(c.clone())).j());
}

fn square<T: El, const N: usize>(s: &mut Sink, rng: &mut Rng, t: &str) {
    let a: [[T; N]; N] = mat(rng);
    s.val(&format!("\"mdiag\",\"{t}\",{}", aj(&a)), || vj(&<[T; N]>::from(Matrix::new(a.clone()).diag())));
}

// ------------------------------------------------------------------ C24

/// Matrices with structure: zero columns, repeated and dependent rows, leading zeros
fn structured<const R: usize, const C: usize>(rng: &mut Rng) -> [[Q; C]; R] {
    let ints = rng.chance(1, 2);
    let mut m: [[Q; C]; R] = array::from_fn(|_| {
        array::from_fn(|_| {
            if rng.chance(1, 4) {
                Q::int(0)
            } else if ints {
                Q::int(rng.range(0, 6) as i128 - 3)
            } else {
                Q::small(rng)
            }
        })
    });
    if R > 0 && C > 0 {
        for _ in 0..rng.below(3) {
            match rng.below(5) {
                0 => {
                    let c = rng.below(C);
                    for r in m.iter_mut() {
                        r[c] = Q::int(0);
                    }
                }
                1 => {
                    let (i, j) = (rng.below(R), rng.below(R));
                    m[i] = m[j].clone();
                }
                2 => {
                    // a combination of two rows
                    let (i, j, k) = (rng.below(R), rng.below(R), rng.below(R));
                    let f = Q::int(rng.range(0, 4) as i128 - 2);
                    let row: [Q; C] = array::from_fn(|c| m[j][c].clone() * f.clone() + m[k][c].clone());
                    m[i] = row;
                }
                3 => {
                    let i = rng.below(R);
                    m[i] = array::from_fn(|_| Q::int(0));
                }
                _ => {
                    // the first column zero except below: forces a swap
                    for (i, r) in m.iter_mut().enumerate() {
                        r[0] = Q::int(if i + 1 == R { 1 } else { 0 });
                    }
                }
            }
        }
    }
    m
}

fn reduce<const R: usize, const C: usize>(s: &mut Sink, rng: &mut Rng) {
    let a = structured::<R, C>(rng);
    let h = |k: &str| format!("\"reduce\",\"{k}\",{R},{C},{}", aj(&a));
    s.val(&h("static"), || mj(&Matrix::new(a.clone()).row_reduce()));
    s.val(&h("dyn"), || {
        let m = DynMatrix::from(a.clone()).row_reduce();
        assert!(m.rows() == R && m.cols() == C);
        list((0..R).map(|r| list((0..C).map(|c| m[(r, c)].e()))))
    });
    s.val(&h("dyn"), || {
        let flat: Vec<Q> = a.iter().flatten().cloned().collect();
        let m = DynMatrix::new(flat, R, C).row_reduce();
        list((0..m.rows()).map(|r| list((0..m.cols()).map(|c| m[(r, c)].e()))))
    });
}

fn det<const N: usize>(s: &mut Sink, rng: &mut Rng) {
    let a = structured::<N, N>(rng);
    s.val(&format!("\"det\",{N},{}", aj(&a)), || Matrix::new(a.clone()).determinant().e());
}

// ------------------------------------------------------------------ C25

fn cap(i: usize) -> usize {
    i.min(1_000_000)
}

/// Elements of several sizes, alignments and ownership
trait Cell: Clone {
    const TOP: usize;
    fn mk(x: i64) -> Self;
    fn get(&self) -> i64;
}
impl Cell for i64 {
    const TOP: usize = 1000;
    fn mk(x: i64) -> i64 {
        x
    }
    fn get(&self) -> i64 {
        *self
    }
}
impl Cell for u8 {
    const TOP: usize = 256;
    fn mk(x: i64) -> u8 {
        x as u8
    }
    fn get(&self) -> i64 {
        *self as i64
    }
}
impl Cell for [u8; 3] {
    const TOP: usize = 1000;
    fn mk(x: i64) -> [u8; 3] {
        [(x % 7) as u8, (x / 7 % 7) as u8, (x / 49) as u8]
    }
    fn get(&self) -> i64 {
        self[0] as i64 + 7 * self[1] as i64 + 49 * self[2] as i64
    }
}
impl Cell for String {
    const TOP: usize = 1000;
    fn mk(x: i64) -> String {
        x.to_string()
    }
    fn get(&self) -> i64 {
        self.parse().unwrap()
    }
}

/// A history over one logical matrix, kept as a static and as a dynamic matrix, read and written
/// through every kind of access
fn history<T: Cell, const R: usize, const C: usize>(s: &mut Sink, rng: &mut Rng, steps: usize) {
    let init: [[i64; C]; R] = array::from_fn(|_| array::from_fn(|_| rng.below(T::TOP) as i64));
    let rows = |f: &dyn Fn(usize, usize) -> i64| list((0..R).map(|r| list((0..C).map(|c| f(r, c).to_string()))));
    let head = format!("\"hist\",{R},{C},{}", rows(&|r, c| init[r][c]));
    s.begin(&head);
    let mut st = Matrix::new(init.map(|r| r.map(T::mk)));
    let mut dy = if rng.chance(1, 2) {
        DynMatrix::from(init.map(|r| r.map(T::mk)))
    } else {
        DynMatrix::new(init.iter().flatten().map(|&x| T::mk(x)).collect(), R, C)
    };
    let mut out = Vec::new();
    for _ in 0..steps {
        let weird = |rng: &mut Rng, n: usize, other: usize| -> usize {
            match rng.below(16) {
                0 => n,
                1 => n + rng.below(3),
                2 => usize::MAX - rng.below(2),
                // multiples of 2^64 / n: products with the other dimension that wrap around
                3 => 1usize << (63 - rng.below(3)),
                4 => (1usize << (63 - rng.below(2))) + rng.below(n + 1),
                5 => (usize::MAX / other.max(1)).wrapping_add(1 + rng.below(2)),
                _ => rng.below(n.max(1)),
            }
        };
        let (r, c) = (weird(rng, R, C), weird(rng, C, R));
        let v = rng.below(T::TOP) as i64;
        let via = *rng.pick(&["index", "ref", "mut"]);
        let num = |x: &T| x.get().to_string();
        let op = rng.below(8);
        let (rec, a, b) = match op {
            0..=2 => {
                let (a, b) = match via {
                    "index" => (outcome(|| num(&st[(r, c)])), outcome(|| num(&dy[(r, c)]))),
                    "ref" => (
                        outcome(|| num(&MatrixRef::from(&st)[(r, c)])),
                        outcome(|| {
                            let m = MatrixRef::from(&dy);
                            let m2 = m;
                            let _ = m.clone();
                            num(&m2[(r, c)])
                        }),
                    ),
                    _ => (
                        outcome(|| num(&MatrixMut::from(&mut st)[(r, c)])),
                        outcome(|| num(&MatrixMut::from(&mut dy)[(r, c)])),
                    ),
                };
                (format!("\"get\",\"{via}\",{},{}", cap(r), cap(c)), a, b)
            }
            3..=5 => {
                let z = || "0".to_string();
                let (a, b) = match via {
                    "mut" | "ref" => (
                        outcome(|| {
                            MatrixMut::from(&mut st)[(r, c)] = T::mk(v);
                            z()
                        }),
                        outcome(|| {
                            MatrixMut::from(&mut dy)[(r, c)] = T::mk(v);
                            z()
                        }),
                    ),
                    _ => (
                        outcome(|| {
                            st[(r, c)] = T::mk(v);
                            z()
                        }),
                        outcome(|| {
                            dy[(r, c)] = T::mk(v);
                            z()
                        }),
                    ),
                };
                (format!("\"set\",{v},{},{}", cap(r), cap(c)), a, b)
            }
            6 => {
                let q = if rng.chance(1, 6) { r } else { weird(rng, R, C) };
                let z = || "0".to_string();
                let a = outcome(|| {
                    st.swap_rows(r, q);
                    z()
                });
                let b = outcome(|| {
                    dy.swap_rows(r, q);
                    z()
                });
                (format!("\"swap\",0,{},{}", cap(r), cap(q)), a, b)
            }
            _ => {
                let d = |r: usize, c: usize| format!("[{r},{c}]");
                ("\"dims\",0,0,0".into(), outcome(|| d(R, C)), outcome(|| d(dy.rows(), dy.cols())))
            }
        };
        let after_s = rows(&|r, c| st[(r, c)].get());
        let after_d = rows(&|r, c| dy[(r, c)].get());
        out.push(format!("[{rec},{a},{b},{after_s},{after_d}]"));
    }
    s.end(&head, &list(out));
}

/// A large matrix of which only the cells touched are looked at: cell (r, c) starts as
/// (7 r + 3 c) mod 1000
fn large<T: Cell>(s: &mut Sink, rng: &mut Rng, rows: usize, cols: usize, steps: usize) {
    let head = format!("\"large\",{rows},{cols}");
    s.begin(&head);
    let mut dy = DynMatrix::new((0..rows * cols).map(|i| T::mk(((7 * (i / cols) + 3 * (i % cols)) % 1000) as i64)).collect(), rows, cols);
    let mut out = Vec::new();
    let edge = |rng: &mut Rng, n: usize| -> usize {
        let i = match rng.below(6) {
            0 => n - 1 - rng.below(3).min(n - 1),
            1 => (1usize << rng.below(18)) + rng.below(2),
            2 => (1usize << rng.below(18)) - 1,
            _ => rng.below(n),
        };
        if i > n {
            i % n
        } else {
            i
        }
    };
    let mut seen = vec![(0, 0)];
    for _ in 0..steps {
        let (r, c) = if rng.chance(1, 3) { *rng.pick(&seen) } else { (edge(rng, rows), edge(rng, cols)) };
        seen.push((r, c));
        let num = |x: &T| x.get().to_string();
        let z = || "0".to_string();
        let v = rng.below(T::TOP) as i64;
        let (rec, o) = match rng.below(9) {
            0 => (format!("\"get\",0,{r},{c}"), outcome(|| num(&dy[(r, c)]))),
            1 | 2 => (format!("\"get\",0,{r},{c}"), outcome(|| num(&MatrixRef::from(&dy)[(r, c)]))),
            3 => (format!("\"get\",0,{r},{c}"), outcome(|| num(&MatrixMut::from(&mut dy)[(r, c)]))),
            4 => (
                format!("\"set\",{v},{r},{c}"),
                outcome(|| {
                    dy[(r, c)] = T::mk(v);
                    z()
                }),
            ),
            5 | 6 => (
                format!("\"set\",{v},{r},{c}"),
                outcome(|| {
                    MatrixMut::from(&mut dy)[(r, c)] = T::mk(v);
                    z()
                }),
            ),
            _ => {
                let q = edge(rng, rows);
                seen.push((q, c));
                (
                    format!("\"swap\",0,{r},{q}"),
                    outcome(|| {
                        dy.swap_rows(r, q);
                        z()
                    }),
                )
            }
        };
        out.push(format!("[{rec},{o}]"));
    }
    s.end(&head, &list(out));
}

fn construct(s: &mut Sink, rng: &mut Rng) {
    let (r, c) = match rng.below(4) {
        0 => (rng.below(5), rng.below(5)),
        1 => (1usize << 63, 2 * rng.below(3)),
        2 => (1usize << 32, 1usize << 32),
        _ => (rng.below(5), rng.below(5)),
    };
    let n = match r.checked_mul(c).filter(|_| rng.chance(2, 3)) {
        Some(n) if n < 100 => n,
        _ => *rng.pick(&[0, 1, 2, 4, 6, 9]),
    };
    s.val(&format!("\"new\",{n},{},{}", cap(r), cap(c)), || {
        let m = DynMatrix::new(vec![7u8; n], r, c);
        format!("[{},{}]", cap(m.rows()), cap(m.cols()))
    });
}

fn main() {
    let args = Args::get();
    let mut rng = args.rng();
    let r = &mut rng;
    let mut s0 = args.sink(40);
    let s = &mut s0;
    match args.prop.as_str() {
        "C23" => {
            for _ in 0..20 * args.scale {
                complex::<i64>(s, r, "i64");
                complex::<BigInt>(s, r, "BigInt");
                complex::<Q>(s, r, "Q");
                complex_field(s, r);
                complex_field(s, r);
                vec_i64::<1>(s, r);
                vec_i64::<2>(s, r);
                vec_i64::<3>(s, r);
                vec_i64::<5>(s, r);
                vec_i64::<8>(s, r);
                vec_i64::<11>(s, r);
                vec_big::<1>(s, r);
                vec_big::<3>(s, r);
                vec_big::<4>(s, r);
                vec_common::<i64, 0>(s, r, "i64");
                vec_common::<i64, 3>(s, r, "i64");
                vec_common::<BigInt, 4>(s, r, "BigInt");
                vec_real::<0>(s, r);
                vec_real::<1>(s, r);
                vec_real::<2>(s, r);
                vec_real::<3>(s, r);
                vec_real::<4>(s, r);
                vec_real::<6>(s, r);
                vec_real::<9>(s, r);
                cross::<i64>(s, r, "i64");
                cross::<BigInt>(s, r, "BigInt");
                cross::<Q>(s, r, "Q");
                accessors(s, r);
                checked_vec!(s, r, 1, u8 0, i8 1, u64 0, i64 1);
                checked_vec!(s, r, 2, u8 0, i8 1, u32 0, i32 1);
                checked_vec!(s, r, 3, u8 0, i8 1, u16 0, i16 1, u128 0, i128 1);
                checked_vec!(s, r, 5, u8 0, i8 1, usize 0, isize 1);
                checked_vec!(s, r, 9, u8 0, i8 1, u64 0, i64 1);
                matrix::<i64, 1, 1, 1>(s, r, "i64");
                matrix::<i64, 2, 3, 2>(s, r, "i64");
                matrix::<i64, 3, 2, 4>(s, r, "i64");
                matrix::<i64, 1, 4, 3>(s, r, "i64");
                matrix::<i64, 4, 1, 3>(s, r, "i64");
                matrix::<i64, 3, 3, 3>(s, r, "i64");
                matrix::<BigInt, 2, 2, 2>(s, r, "BigInt");
                matrix::<BigInt, 3, 2, 1>(s, r, "BigInt");
                matrix::<Q, 4, 4, 4>(s, r, "Q");
                matrix::<Q, 2, 5, 3>(s, r, "Q");
                matrix::<i64, 6, 5, 7>(s, r, "i64");
                matrix::<i64, 1, 9, 1>(s, r, "i64");
                matrix::<i64, 9, 1, 9>(s, r, "i64");
                matrix::<BigInt, 5, 6, 2>(s, r, "BigInt");
                match r.below(8) {
                    0 => matrix::<i64, 1, 13, 1>(s, r, "i64"),
                    1 => matrix::<i64, 2, 17, 2>(s, r, "i64"),
                    2 => matrix::<i64, 1, 40, 1>(s, r, "i64"),
                    3 => matrix::<i64, 12, 12, 12>(s, r, "i64"),
                    4 => matrix::<i64, 33, 2, 1>(s, r, "i64"),
                    5 => vec_i64::<33>(s, r),
                    6 => vec_real::<17>(s, r),
                    _ => vec_i64::<70>(s, r),
                }
                square::<i64, 1>(s, r, "i64");
                square::<BigInt, 2>(s, r, "BigInt");
                square::<Q, 4>(s, r, "Q");
            }
        }
        "C24" => {
            for _ in 0..25 * args.scale {
                reduce::<1, 1>(s, r);
                reduce::<1, 4>(s, r);
                reduce::<4, 1>(s, r);
                reduce::<2, 2>(s, r);
                reduce::<2, 3>(s, r);
                reduce::<3, 2>(s, r);
                reduce::<3, 3>(s, r);
                reduce::<3, 5>(s, r);
                reduce::<5, 3>(s, r);
                reduce::<4, 4>(s, r);
                reduce::<4, 4>(s, r);
                reduce::<5, 5>(s, r);
                det::<1>(s, r);
                det::<2>(s, r);
                det::<3>(s, r);
                det::<3>(s, r);
                det::<4>(s, r);
                det::<4>(s, r);
                det::<5>(s, r);
                det::<0>(s, r);
                match r.below(4) {
                    0 => reduce::<6, 6>(s, r),
                    1 => reduce::<6, 7>(s, r),
                    2 => match r.below(4) {
                        0 => reduce::<12, 3>(s, r),
                        1 => reduce::<3, 12>(s, r),
                        2 => reduce::<18, 2>(s, r),
                        _ => reduce::<7, 4>(s, r),
                    },
                    _ => reduce::<2, 8>(s, r),
                }
                if r.chance(1, 2) {
                    det::<6>(s, r);
                } else {
                    det::<7>(s, r);
                }
            }
        }
        "C25" => {
            for _ in 0..30 * args.scale {
                history::<i64, 1, 1>(s, r, 12);
                history::<i64, 1, 4>(s, r, 15);
                history::<i64, 4, 1>(s, r, 15);
                history::<i64, 2, 2>(s, r, 15);
                history::<i64, 2, 4>(s, r, 20);
                history::<i64, 3, 2>(s, r, 20);
                history::<i64, 4, 4>(s, r, 20);
                history::<i64, 3, 5>(s, r, 20);
                history::<i64, 5, 3>(s, r, 20);
                history::<i64, 7, 2>(s, r, 25);
                history::<i64, 2, 7>(s, r, 15);
                history::<i64, 8, 1>(s, r, 25);
                history::<i64, 6, 6>(s, r, 20);
                history::<i64, 0, 3>(s, r, 6);
                history::<i64, 3, 0>(s, r, 6);
                history::<u8, 3, 4>(s, r, 20);
                history::<[u8; 3], 4, 2>(s, r, 20);
                history::<String, 2, 3>(s, r, 20);
                match r.below(8) {
                    0 => history::<i64, 20, 20>(s, r, 12),
                    1 => history::<u8, 300, 1>(s, r, 12),
                    2 => history::<i64, 1, 300>(s, r, 12),
                    3 => history::<String, 40, 7>(s, r, 12),
                    4 => large::<i64>(s, r, 300, 300, 60),
                    5 => large::<i64>(s, r, 3, 70000, 40),
                    6 => large::<[u8; 3]>(s, r, 70000, 3, 40),
                    _ => large::<String>(s, r, 257, 33, 60),
                }
                for _ in 0..4 {
                    construct(s, r);
                }
            }
        }
        p => panic!("unknown property {p}"),
    }
    s0.finish();
    fn _bounds<T: Real + RealSigned>() {}
    _bounds::<Q>();
}
