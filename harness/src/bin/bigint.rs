//! BigInt operations: C07 to C12.

use numeric_ints::BigInt;
use numeric_traits::cast::{FromChecked, FromSaturating, FromStrRadix, FromTruncating};
use numeric_traits::class::Signed;
use numeric_traits::identity::{One, Zero};
use numeric_traits::ops::Pow;
use numeric_verif_harness::big::{div_pair, grid, ladder, limbs, mag, pair, short_grid, z, Z};
use numeric_verif_harness::*;

/// Apply one of the four operand forms, or an in-place form, of a binary operator
macro_rules! forms {
    ($form:expr, $a:expr, $b:expr, $op:tt) => {{
        let (a, b): (BigInt, BigInt) = ($a, $b);
        match $form {
            "rr" => &a $op &b,
            "ro" => &a $op b,
            "or" => a $op &b,
            "oo" => a $op b,
            f => unreachable!("{f}"),
        }
    }};
}
macro_rules! assign_forms {
    ($form:expr, $a:expr, $b:expr, $op:tt) => {{
        let (mut a, b): (BigInt, BigInt) = ($a, $b);
        match $form {
            "ar" => a $op &b,
            "ao" => a $op b,
            f => unreachable!("{f}"),
        };
        a
    }};
}

const REF_FORMS: &[&str] = &["rr", "ro", "or", "oo"];
const ALL_FORMS: &[&str] = &["rr", "ro", "or", "oo", "ar", "ao"];

/// Do `$body` with `$t` each primitive type in turn, given its name, width and signedness
macro_rules! each_prim {
    ($t:ident, $name:ident, $w:ident, $sg:ident => $body:block) => {
        each_prim!(@ $t, $name, $w, $sg => $body; u8 0, u16 0, u32 0, u64 0, u128 0, usize 0,
            i8 1, i16 1, i32 1, i64 1, i128 1, isize 1);
    };
    (@ $t:ident, $name:ident, $w:ident, $sg:ident => $body:block; $($ty:ident $s:literal),*) => {
        $({
            type $t = $ty;
            #[allow(unused)]
            let $name = stringify!($ty);
            #[allow(unused)]
            let $w = <$ty>::BITS;
            #[allow(unused)]
            let $sg = $s;
            $body
        })*
    };
}

/// An edge-biased primitive
fn prim_bits(rng: &mut Rng) -> u128 {
    let b = rng.bytes(16);
    let v = u128::from_le_bytes(b.try_into().unwrap());
    match rng.below(6) {
        0 => rng.below(20) as u128,
        1 => (rng.below(20) as u128).wrapping_neg(),
        2 => u128::MAX >> rng.below(128),
        3 => 1u128 << rng.below(128),
        4 => (1u128 << rng.below(128)).wrapping_neg(),
        _ => v,
    }
}

/// How many limbs to use at most: mostly few, sometimes more, now and then very many
fn size(i: usize, some: usize, few: usize, many: usize) -> usize {
    if i % 400 == 7 {
        many
    } else if i % 10 == 0 {
        some
    } else {
        few
    }
}

fn c07(args: &Args) {
    let mut s = args.sink(40);
    let mut rng = args.rng();
    let mut todo = vec![];
    for op in ["add", "sub", "mul"] {
        todo.extend(ladder(&mut rng, if op == "mul" { 34 } else { 66 }).into_iter().map(|p| (p, op)));
    }
    for i in 0..6000 * args.scale {
        let op = *rng.pick(&["add", "sub", "mul"]);
        let drawn = (pair(&mut rng, size(i, 12, 5, 80)), op);
        let ((a, b), op) = if i % 8 == 3 { todo.pop().unwrap_or(drawn) } else { drawn };
        let form = *rng.pick(ALL_FORMS);
        let (x, y) = (a.big(), b.big());
        let head = format!("\"{op}\",\"{form}\",{},{}", a.j(), b.j());
        s.val(&head, || {
            let out = match (op, form) {
                ("add", "ar" | "ao") => assign_forms!(form, x, y, +=),
                ("sub", "ar" | "ao") => assign_forms!(form, x, y, -=),
                ("mul", "ar" | "ao") => assign_forms!(form, x, y, *=),
                ("add", _) => forms!(form, x, y, +),
                ("sub", _) => forms!(form, x, y, -),
                _ => forms!(form, x, y, *),
            };
            out.j()
        });
    }
    // every pair of boundary values
    let g = grid();
    for (i, a) in g.iter().enumerate() {
        for (k, b) in g.iter().enumerate() {
            for (n, op) in ["add", "sub", "mul"].iter().enumerate() {
                let form = ALL_FORMS[(i + k + n + args.seed as usize) % 6];
                let (x, y) = (a.big(), b.big());
                s.val(&format!("\"{op}\",\"{form}\",{},{}", a.j(), b.j()), || {
                    match (*op, form) {
                        ("add", "ar" | "ao") => assign_forms!(form, x, y, +=),
                        ("sub", "ar" | "ao") => assign_forms!(form, x, y, -=),
                        ("mul", "ar" | "ao") => assign_forms!(form, x, y, *=),
                        ("add", _) => forms!(form, x, y, +),
                        ("sub", _) => forms!(form, x, y, -),
                        _ => forms!(form, x, y, *),
                    }
                    .j()
                });
            }
        }
        let (x, y) = (a.big(), a.big());
        s.val(&format!("\"neg\",\"o\",{}", a.j()), || (-x).j());
        s.val(&format!("\"abs\",\"o\",{}", a.j()), || y.abs().j());
        for k in 0..5usize {
            let x = a.big();
            s.val(&format!("\"pow\",\"oo\",{},{k}", a.j()), || x.pow(BigInt::from(k)).j());
        }
    }
    for a in short_grid() {
        each_prim!(T, name, w, sg => {
            for v in [0 as T, 1, 2, T::MAX, T::MAX - 1, T::MIN, T::MIN + 1, (0 as T).wrapping_sub(1)] {
                for op in ["add", "sub", "mul"] {
                    let asg = rng.chance(1, 2);
                    let x = a.big();
                    s.val(&format!("\"{op}\",\"{name}{}\",{},{}", if asg { "=" } else { "" }, a.j(), v.j()), || {
                        let mut x = x;
                        match (op, asg) {
                            ("add", false) => x = x + v,
                            ("sub", false) => x = x - v,
                            ("mul", false) => x = x * v,
                            ("add", true) => x += v,
                            ("sub", true) => x -= v,
                            _ => x *= v,
                        }
                        x.j()
                    });
                }
            }
        });
    }
    for _ in 0..100 * args.scale {
        each_prim!(T, name, w, sg => {
            let v = prim_bits(&mut rng) as T;
            let a = if rng.chance(1, 4) {
                // cancels against the primitive
                let m = (v as i128).unsigned_abs();
                Z::new(rng.chance(1, 2), nat::add(&[m as u64, (m >> 64) as u64], &[rng.below(2) as u64]))
            } else {
                z(&mut rng, 4)
            };
            for op in ["add", "sub", "mul"] {
                for asg in [false, true] {
                    let x = a.big();
                    let head = format!("\"{op}\",\"{name}{}\",{},{}", if asg { "=" } else { "" }, a.j(), v.j());
                    s.val(&head, || {
                        let mut x = x;
                        match (op, asg) {
                            ("add", false) => x = x + v,
                            ("sub", false) => x = x - v,
                            ("mul", false) => x = x * v,
                            ("add", true) => x += v,
                            ("sub", true) => x -= v,
                            _ => x *= v,
                        }
                        x.j()
                    });
                }
            }
        });
    }
    for i in 0..1000 * args.scale {
        let a = if i < 300 { Z::new(i % 2 == 1, limbs(&mut rng, i / 8 + 1)) } else { z(&mut rng, 6) };
        let x = a.big();
        let head = format!("\"neg\",\"o\",{}", a.j());
        s.val(&head, || (-x).j());
        let x = a.big();
        let head = format!("\"neg\",\"r\",{}", a.j());
        s.val(&head, || (-&x).j());
        let x = a.big();
        let head = format!("\"abs\",\"o\",{}", a.j());
        s.val(&head, || x.abs().j());
    }
    for _ in 0..500 * args.scale {
        let k = if rng.chance(1, 2) { rng.below(36) } else { *rng.pick(&[0usize, 0, 1, 2, 3, 4, 5, 7, 8, 16]) };
        let a = if k > 16 { Z::small(rng.below(1 << 16) as i128 - (1 << 15)) } else { z(&mut rng, if k > 5 { 1 } else { 3 }) };
        let x = a.big();
        let head = format!("\"pow\",\"oo\",{},{k}", a.j());
        s.val(&head, || x.pow(BigInt::from(k)).j());
    }
    s.finish();
}

fn c08(args: &Args) {
    let mut s = args.sink(40);
    let mut rng = args.rng();
    let mut todo = ladder(&mut rng, 34);
    for i in 0..5000 * args.scale {
        let drawn = div_pair(&mut rng, size(i, 10, 4, 48));
        let (a, b) = if i % 8 == 3 { todo.pop().unwrap_or(drawn) } else { drawn };
        let form = *rng.pick(ALL_FORMS);
        let head = format!("\"divrem\",\"{form}\",{},{}", a.j(), b.j());
        s.run(&head, || {
            let (x, y) = (a.big(), b.big());
            let q = outcome(|| match form {
                "ar" | "ao" => assign_forms!(form, x, y, /=).j(),
                _ => forms!(form, x, y, /).j(),
            });
            let (x, y) = (a.big(), b.big());
            let r = outcome(|| match form {
                "ar" | "ao" => assign_forms!(form, x, y, %=).j(),
                _ => forms!(form, x, y, %).j(),
            });
            format!("[{q},{r}]")
        });
    }
    let g = grid();
    for (i, a) in g.iter().enumerate() {
        for (k, b) in g.iter().enumerate() {
            let form = ALL_FORMS[(i + k + args.seed as usize) % 6];
            s.run(&format!("\"divrem\",\"{form}\",{},{}", a.j(), b.j()), || {
                let (x, y) = (a.big(), b.big());
                let q = outcome(|| match form {
                    "ar" | "ao" => assign_forms!(form, x, y, /=).j(),
                    _ => forms!(form, x, y, /).j(),
                });
                let (x, y) = (a.big(), b.big());
                let r = outcome(|| match form {
                    "ar" | "ao" => assign_forms!(form, x, y, %=).j(),
                    _ => forms!(form, x, y, %).j(),
                });
                format!("[{q},{r}]")
            });
        }
    }
    for a in short_grid() {
        each_prim!(T, name, w, sg => {
            for v in [0 as T, 1, 2, T::MAX, T::MAX - 1, T::MIN, T::MIN + 1, (0 as T).wrapping_sub(1)] {
                let asg = rng.chance(1, 2);
                s.run(&format!("\"divrem\",\"{name}{}\",{},{}", if asg { "=" } else { "" }, a.j(), v.j()), || {
                    let x = a.big();
                    let q = outcome(|| { let mut x = x; if asg { x /= v } else { x = x / v }; x.j() });
                    let x = a.big();
                    let r = outcome(|| { let mut x = x; if asg { x %= v } else { x = x % v }; x.j() });
                    format!("[{q},{r}]")
                });
            }
        });
    }
    for _ in 0..60 * args.scale {
        each_prim!(T, name, w, sg => {
            let v = prim_bits(&mut rng) as T;
            let a = if rng.chance(1, 3) {
                let m = (v as i128).unsigned_abs();
                let m = if sg == 1 { vec![m as u64, (m >> 64) as u64] } else { vec![v as u128 as u64, ((v as u128) >> 64) as u64] };
                let q = mag(&mut rng, 2);
                let p = nat::mul(&nat::trim(m), &q);
                Z::new(rng.chance(1, 2), if rng.chance(1, 2) { nat::sub(&p, &[1]) } else { nat::add(&p, &[rng.below(2) as u64]) })
            } else {
                z(&mut rng, 4)
            };
            let v = if rng.chance(1, 40) { 0 } else { v };
            for asg in [false, true] {
                let head = format!("\"divrem\",\"{name}{}\",{},{}", if asg { "=" } else { "" }, a.j(), v.j());
                s.run(&head, || {
                    let x = a.big();
                    let q = outcome(|| { let mut x = x; if asg { x /= v } else { x = x / v }; x.j() });
                    let x = a.big();
                    let r = outcome(|| { let mut x = x; if asg { x %= v } else { x = x % v }; x.j() });
                    format!("[{q},{r}]")
                });
            }
        });
    }
    // zero divisors in every form
    for a in [Z::small(0), Z::small(7), Z::small(-7), Z::new(false, vec![0, 1]), Z::new(true, vec![5, 0, 9])] {
        for form in ALL_FORMS {
            let head = format!("\"divrem\",\"{form}\",{},{}", a.j(), Z::small(0).j());
            s.run(&head, || {
                let (x, y) = (a.big(), Z::small(0).big());
                let q = outcome(|| match *form {
                    "ar" | "ao" => assign_forms!(*form, x, y, /=).j(),
                    _ => forms!(*form, x, y, /).j(),
                });
                let (x, y) = (a.big(), Z::small(0).big());
                let r = outcome(|| match *form {
                    "ar" | "ao" => assign_forms!(*form, x, y, %=).j(),
                    _ => forms!(*form, x, y, %).j(),
                });
                format!("[{q},{r}]")
            });
        }
    }
    s.finish();
}

/// The same number reached through different operations; what it really is, is read back
fn route(x: &Z, k: usize, rng: &mut Rng) -> BigInt {
    let b = x.big();
    let t = z(rng, 4).big();
    // decimal digits and division are slow when there are very many limbs
    let k = if x.mag.len() > 16 && [3, 7, 9].contains(&k) { k - 1 } else { k };
    match k {
        0 => b,
        1 => (b + &t) - &t,
        2 => -(-b),
        3 => (b.clone() * BigInt::from(3)) / BigInt::from(3),
        4 => (b << 67u32) >> 67u32,
        5 => !(!b),
        6 => &(&b ^ &t) ^ &t,
        7 => {
            let s = b.to_string();
            BigInt::from_str_radix(&s, 10).unwrap()
        }
        8 => {
            let mut c = b.clone();
            c -= &t;
            c += t;
            c
        }
        9 => BigInt::from_str_radix(&format!("{}0000{}", if x.neg { "-" } else { "" }, b.abs()), 10).unwrap(),
        _ => b.clone() + (&b - &b),
    }
}

fn c09(args: &Args) {
    let mut s = args.sink(100);
    let mut rng = args.rng();
    let mut todo = ladder(&mut rng, 66);
    for i in 0..8000 * args.scale {
        let drawn = pair(&mut rng, size(i, 8, 5, 80));
        let (a, b) = if i % 8 == 3 { todo.pop().unwrap_or(drawn) } else { drawn };
        let b = if rng.chance(1, 5) { a.clone() } else { b };
        let (ka, kb) = (rng.below(11), rng.below(11));
        let mut r2 = rng.clone();
        rng.next();
        let head0 = format!("\"route\",{},{},{},{}", a.j(), b.j(), ka, kb);
        // A panic while producing the values is recorded as such
        s.begin(&head0);
        let made = attempt(|| (route(&a, ka, &mut r2), route(&b, kb, &mut r2)));
        let (x, y) = match made {
            Some(p) => p,
            None => {
                s.end(&head0, PANIC);
                continue;
            }
        };
        let head = format!("\"cmp\",\"r{ka}.{kb}\",{},{}", a.j(), b.j());
        let out = outcome(|| {
            list([
                (x.cmp(&y) as i8).to_string(),
                (x.partial_cmp(&y).unwrap() as i8).to_string(),
                (x == y).j(),
                (x != y).j(),
                (x < y).j(),
                (x <= y).j(),
                (x > y).j(),
                (x >= y).j(),
            ])
        });
        s.end(&head, &out);
    }
    let g = grid();
    for a in &g {
        for b in &g {
            let (x, y) = (a.big(), b.big());
            s.val(&format!("\"cmp\",\"grid\",{},{}", a.j(), b.j()), || {
                list([
                    (x.cmp(&y) as i8).to_string(),
                    (x.partial_cmp(&y).unwrap() as i8).to_string(),
                    (x == y).j(),
                    (x != y).j(),
                    (x < y).j(),
                    (x <= y).j(),
                    (x > y).j(),
                    (x >= y).j(),
                ])
            });
        }
        let x = a.big();
        s.val(&format!("\"sign\",{}", a.j()), || {
            list([x.is_zero().j(), x.is_one().j(), x.is_positive().j(), x.is_negative().j()])
        });
    }
    for a in short_grid() {
        each_prim!(T, name, w, sg => {
            for v in [0 as T, 1, 2, T::MAX, T::MAX - 1, T::MIN, T::MIN + 1, (0 as T).wrapping_sub(1)] {
                let x = a.big();
                s.val(&format!("\"cmp\",\"{name}\",{},{}", a.j(), v.j()), || {
                    list([
                        (x.partial_cmp(&v).unwrap() as i8).to_string(),
                        (x.partial_cmp(&v).unwrap() as i8).to_string(),
                        (x == v).j(),
                        (x != v).j(),
                        (x < v).j(),
                        (x <= v).j(),
                        (x > v).j(),
                        (x >= v).j(),
                    ])
                });
            }
        });
    }
    for _ in 0..150 * args.scale {
        each_prim!(T, name, w, sg => {
            let v = prim_bits(&mut rng) as T;
            let a = match rng.below(4) {
                0 => z(&mut rng, 3),
                1 => {
                    let m = if sg == 1 { (v as i128).unsigned_abs() } else { v as u128 };
                    Z::new(rng.chance(1, 2), vec![m as u64, (m >> 64) as u64])
                }
                _ => {
                    // near the primitive, or its value in a longer number
                    let m = if sg == 1 { (v as i128).unsigned_abs() } else { v as u128 };
                    let m = nat::trim(vec![m as u64, (m >> 64) as u64]);
                    let m = match rng.below(4) {
                        0 => nat::add(&m, &[1]),
                        1 => nat::sub(&m, &[1]),
                        2 => nat::add(&m, &nat::pow2(w as usize)),
                        _ => nat::add(&m, &[0, 0, 1]),
                    };
                    Z::new((sg == 1 && (v as i128) < 0) != rng.chance(1, 4), m)
                }
            };
            let x = a.big();
            let head = format!("\"cmp\",\"{name}\",{},{}", a.j(), v.j());
            s.val(&head, || {
                list([
                    (x.partial_cmp(&v).unwrap() as i8).to_string(),
                    (x.partial_cmp(&v).unwrap() as i8).to_string(),
                    (x == v).j(),
                    (x != v).j(),
                    (x < v).j(),
                    (x <= v).j(),
                    (x > v).j(),
                    (x >= v).j(),
                ])
            });
        });
    }
    for _ in 0..2000 * args.scale {
        let a = if rng.chance(1, 5) { Z::small(rng.below(5) as i128 - 2) } else { z(&mut rng, 3) };
        let k = rng.below(11);
        let mut r2 = rng.clone();
        rng.next();
        let head = format!("\"sign\",{}", a.j());
        s.val(&head, || {
            let x = route(&a, k, &mut r2);
            list([x.is_zero().j(), x.is_one().j(), x.is_positive().j(), x.is_negative().j()])
        });
        // every route to zero is the same zero
        let mut r2 = rng.clone();
        rng.next();
        let head = format!("\"zeros\",{}", a.j());
        s.val(&head, || {
            let x = route(&a, k, &mut r2);
            let y = a.big();
            let zs = [
                &x - &y,
                y.clone() + (-y.clone()),
                &x * &BigInt::zero(),
                BigInt::zero() * -y.clone(),
                -(&x - &y),
                &x ^ &y,
                (y.clone().abs() >> (64u32 * 12)),
                -(y.clone().abs() >> (64u32 * 12)),
                BigInt::from_str_radix("-0", 10).unwrap(),
                BigInt::from_str_radix("-00000000000000000000000000", 10).unwrap(),
                -BigInt::from(0i8),
                BigInt::default(),
                BigInt::new(),
            ];
            list(zs.iter().map(|v| {
                list([
                    v.j(),
                    v.is_zero().j(),
                    v.is_negative().j(),
                    v.is_positive().j(),
                    (*v == 0i32).j(),
                    (*v == 0u64).j(),
                    (*v == BigInt::zero()).j(),
                    (v.cmp(&BigInt::zero()) as i8).to_string(),
                ])
            }))
        });
    }
    s.val("\"const\",0", || BigInt::zero().j());
    s.val("\"const\",1", || BigInt::one().j());
    s.val("\"const\",0", || BigInt::default().j());
    s.val("\"const\",0", || BigInt::new().j());
    s.finish();
}

fn c10(args: &Args) {
    let mut s = args.sink(100);
    let mut rng = args.rng();
    for _ in 0..300 * args.scale {
        each_prim!(T, name, w, sg => {
            let v = prim_bits(&mut rng) as T;
            let head = format!("\"from\",\"{name}\",{w},{sg},{}", v.j());
            s.val(&head, || BigInt::from(v).j());
            // around the range limits, beyond them, and anything
            let a = match rng.below(6) {
                0 => Z::new(rng.chance(1, 2), nat::sub(&nat::pow2(w as usize), &[rng.below(4) as u64])),
                1 => Z::new(rng.chance(1, 2), nat::sub(&nat::pow2(w as usize - 1), &[rng.below(4) as u64])),
                2 => Z::new(rng.chance(1, 2), nat::add(&nat::pow2(w as usize - 1), &[rng.below(4) as u64])),
                3 => {
                    let m = (v as i128).unsigned_abs();
                    Z::new((v as i128) < 0, vec![m as u64, (m >> 64) as u64])
                }
                _ => z(&mut rng, 4),
            };
            let head = format!("\"try\",\"{name}\",{w},{sg},{}", a.j());
            let x = a.big();
            s.run(&head, || T::try_from(x).ok().j());
            let x = a.big();
            s.run(&head, || T::try_from(&x).ok().j());
            let x = a.big();
            s.run(&head, || T::from_checked(x).j());
            let x = a.big();
            let head = format!("\"sat\",\"{name}\",{w},{sg},{}", a.j());
            s.val(&head, || T::saturate_from(x).j());
            let x = a.big();
            let head = format!("\"trunc\",\"{name}\",{w},{sg},{}", a.j());
            s.val(&head, || T::truncate_from(x).j());
        });
    }
    // every value of the grid into every type, and every 17-bit value into the narrow ones
    for a in grid() {
        each_prim!(T, name, w, sg => {
            let head = format!("\"try\",\"{name}\",{w},{sg},{}", a.j());
            let x = a.big();
            s.run(&head, || T::try_from(&x).ok().j());
            let x = a.big();
            s.run(&head, || T::from_checked(x).j());
            let x = a.big();
            s.val(&format!("\"sat\",\"{name}\",{w},{sg},{}", a.j()), || T::saturate_from(x).j());
            let x = a.big();
            s.val(&format!("\"trunc\",\"{name}\",{w},{sg},{}", a.j()), || T::truncate_from(x).j());
        });
        let x = a.big();
        s.val(&format!("\"float\",{}", a.j()), || x.approx_float().j());
    }
    macro_rules! narrow {
        ($t:ident, $sg:literal) => {
            for lo in (-70000i64..70000).step_by(2000) {
                let t = |pol| Tab { pol, op: "id", w: $t::BITS as usize, sg: $sg };
                s.row(t("c"), 0, lo, lo + 1999, |b| $t::try_from(BigInt::from(b)).ok().t());
                s.row(t("s"), 0, lo, lo + 1999, |b| $t::saturate_from(BigInt::from(b)).t());
                s.row(t("w"), 0, lo, lo + 1999, |b| $t::truncate_from(BigInt::from(b)).t());
            }
        };
    }
    narrow!(u8, 0);
    narrow!(i8, 1);
    narrow!(u16, 0);
    narrow!(i16, 1);
    for i in 0..3000 * args.scale {
        let a = match i % 8 {
            0 => {
                let k = rng.range(1000, 1300);
                Z::new(rng.chance(1, 2), nat::pow2(k))
            }
            1 => {
                let n = rng.range(14, 18);
                Z::new(rng.chance(1, 2), (0..n).map(|_| rng.word()).collect())
            }
            2 => z(&mut rng, 16),
            _ => z(&mut rng, 5),
        };
        let x = a.big();
        let head = format!("\"float\",{}", a.j());
        s.val(&head, || x.approx_float().j());
    }
    s.finish();
}

fn c11(args: &Args) {
    let mut s = args.sink(40);
    let mut rng = args.rng();
    for _ in 0..1200 * args.scale {
        let a = if rng.chance(1, 4) {
            // powers of ten and their neighbours
            let k = rng.below(60);
            let mut m = vec![1u64];
            for _ in 0..k {
                m = nat::mul(&m, &[10]);
            }
            let m = match rng.below(3) {
                0 => nat::sub(&m, &[1]),
                1 => nat::mul(&m, &[rng.below(10) as u64]),
                _ => m,
            };
            Z::new(rng.chance(1, 2), m)
        } else if rng.chance(1, 5) {
            // runs of equal decimal digits, so that blocks of digits start with zeros
            let mut m = vec![1u64];
            for _ in 0..rng.range(1, 6) {
                let d = *rng.pick(&[0u64, 0, 0, 9, 1, 5]);
                for _ in 0..rng.range(1, 22) {
                    m = nat::add(&nat::mul(&m, &[10]), &[d]);
                }
            }
            Z::new(rng.chance(1, 2), m)
        } else if rng.chance(1, 40) {
            let most = if rng.chance(1, 30) { 50 } else { 14 };
            z(&mut rng, most)
        } else {
            z(&mut rng, 5)
        };
        let x = a.big();
        for k in ["dec", "debug", "lhex", "uhex", "bin"] {
            let head = format!("\"fmt\",\"{k}\",{}", a.j());
            s.val(&head, || {
                codes(&match k {
                    "dec" => format!("{x}"),
                    "debug" => format!("{x:?}"),
                    "lhex" => format!("{x:x}"),
                    "uhex" => format!("{x:X}"),
                    _ => format!("{x:b}"),
                })
            });
        }
    }
    for _ in 0..5000 * args.scale {
        let radix = match rng.below(12) {
            0 => *rng.pick(&[37u32, 38, 64, 100, 256, 1 << 16]),
            1 => 36,
            2 => 35,
            3 => 2,
            4 => 10,
            5 => 16,
            _ => rng.range(2, 36) as u32,
        };
        let len = match rng.below(6) {
            0 => 1,
            1 => rng.range(1, 4),
            2 => rng.range(60, 140),
            3 if rng.chance(1, 60) => rng.range(300, 500),
            _ => rng.range(1, 50),
        };
        let runs = rng.chance(1, 4);
        let mut t = String::new();
        if rng.chance(1, 3) {
            t.push('-');
        }
        if rng.chance(1, 6) {
            for _ in 0..rng.range(1, 20) {
                t.push('0');
            }
        }
        let mut last = 1;
        for _ in 0..len {
            let d = match rng.below(8) {
                _ if runs && rng.chance(7, 8) => last,
                0 => 0,
                1 | 2 => radix.min(36) - 1,
                _ => rng.below(radix.min(36) as usize) as u32,
            };
            last = d;
            let c = char::from_digit(d, 36).unwrap();
            t.push(if rng.chance(1, 2) { c.to_ascii_uppercase() } else { c });
        }
        if rng.chance(1, 4) {
            // one character that may not belong
            let bad = match rng.below(10) {
                0 if radix < 36 => char::from_digit(radix.min(35), 36).unwrap(),
                0 => '@',
                1 => '-',
                2 => '+',
                3 => ' ',
                4 => '_',
                5 => '.',
                6 => '/',
                7 => ':',
                8 => *rng.pick(&['@', '[', '`', '{', '\0', '\n']),
                _ => *rng.pick(&['é', '٣', '１', 'ß', 'ı', 'K']),
            };
            let pos = rng.below(t.chars().count() + 1);
            let at = t.char_indices().nth(pos).map(|p| p.0).unwrap_or(t.len());
            t.insert(at, bad);
        }
        let head = format!("\"parse\",{radix},{}", codes(&t));
        s.run(&head, || match BigInt::from_str_radix(&t, radix) {
            Ok(v) => ok(&v.j()),
            Err(_) => "[\"err\"]".into(),
        });
    }
    s.finish();
}

fn c12(args: &Args) {
    let mut s = args.sink(60);
    let mut rng = args.rng();
    let mut todo = vec![];
    for op in ["and", "or", "xor"] {
        todo.extend(ladder(&mut rng, 66).into_iter().map(|p| (p, op)));
    }
    for i in 0..6000 * args.scale {
        let op = *rng.pick(&["and", "or", "xor"]);
        let drawn = (pair(&mut rng, size(i, 10, 4, 80)), op);
        let ((a, b), op) = if i % 8 == 3 { todo.pop().unwrap_or(drawn) } else { drawn };
        let form = *rng.pick(REF_FORMS);
        let (x, y) = (a.big(), b.big());
        let head = format!("\"{op}\",\"{form}\",{},{}", a.j(), b.j());
        s.val(&head, || {
            match op {
                "and" => forms!(form, x, y, &),
                "or" => forms!(form, x, y, |),
                _ => forms!(form, x, y, ^),
            }
            .j()
        });
    }
    let g = grid();
    for (i, a) in g.iter().enumerate() {
        for (k, b) in g.iter().enumerate() {
            for (n, op) in ["and", "or", "xor"].iter().enumerate() {
                let form = REF_FORMS[(i + k + n + args.seed as usize) % 4];
                let (x, y) = (a.big(), b.big());
                s.val(&format!("\"{op}\",\"{form}\",{},{}", a.j(), b.j()), || {
                    match *op {
                        "and" => forms!(form, x, y, &),
                        "or" => forms!(form, x, y, |),
                        _ => forms!(form, x, y, ^),
                    }
                    .j()
                });
            }
        }
        let x = a.big();
        s.val(&format!("\"not\",\"o\",{}", a.j()), || (!x).j());
        for n in [0usize, 1, 7, 8, 31, 32, 33, 62, 63, 64, 65, 127, 128, 129, 191, 192, 193, 256, 300] {
            let form = REF_FORMS[(i + n) % 4];
            let (x, y) = (a.big(), BigInt::from(n));
            s.val(&format!("\"shl\",\"{form}\",{},{n}", a.j()), || forms!(form, x, y, <<).j());
            let (x, y) = (a.big(), BigInt::from(n));
            s.val(&format!("\"shr\",\"{form}\",{},{n}", a.j()), || forms!(form, x, y, >>).j());
            let x = a.big();
            s.val(&format!("\"shl\",\"u16\",{},{n}", a.j()), || (x << n as u16).j());
            let x = a.big();
            s.val(&format!("\"shr\",\"u32\",{},{n}", a.j()), || (x >> n as u32).j());
        }
    }
    for a in -64i64..=64 {
        let t = |op| Tab { pol: "x", op, w: 64, sg: 1 };
        let v = |x: BigInt| i32::try_from(x).ok().t();
        let b = |x: i64| BigInt::from(x);
        s.row(t("and"), a, -70, 70, |k| v(b(a) & b(k)));
        s.row(t("or"), a, -70, 70, |k| v(b(a) | b(k)));
        s.row(t("xor"), a, -70, 70, |k| v(b(a) ^ b(k)));
        s.row(t("shl"), a, 0, 11, |k| v(b(a) << b(k)));
        s.row(t("shr"), a, 0, 11, |k| v(b(a) >> b(k)));
    }
    // every amount up to two limbs and more, on every number of limbs up to six and some above
    for n in [1usize, 2, 3, 4, 5, 6, 8, 9, 16, 17, 33] {
        for k in 0..if n < 7 { 200usize } else { 132 } {
            for neg in [false, true] {
                let a = Z::new(neg, limbs(&mut rng, n));
                let form = REF_FORMS[(n + k) % 4];
                let (x, y) = (a.big(), BigInt::from(k));
                s.val(&format!("\"shl\",\"{form}\",{},{k}", a.j()), || forms!(form, x, y, <<).j());
                let (x, y) = (a.big(), BigInt::from(k));
                s.val(&format!("\"shr\",\"{form}\",{},{k}", a.j()), || forms!(form, x, y, >>).j());
                let k2 = (64 * n + 20).saturating_sub(k); // to and past the top bit
                let (x, y) = (a.big(), BigInt::from(k2));
                s.val(&format!("\"shr\",\"{form}\",{},{k2}", a.j()), || forms!(form, x, y, >>).j());
            }
        }
    }
    for i in 0..1500 * args.scale {
        let a = if i < 300 { Z::new(i % 2 == 1, limbs(&mut rng, i / 8 + 1)) } else { z(&mut rng, 5) };
        let x = a.big();
        let head = format!("\"not\",\"o\",{}", a.j());
        s.val(&head, || (!x).j());
    }
    fn amount(rng: &mut Rng) -> usize {
        match rng.below(6) {
            0 => 64 * rng.below(8),
            1 => (64 * rng.range(1, 7) + rng.below(3)).saturating_sub(1),
            2 => rng.below(4),
            3 => rng.below(64),
            _ => rng.below(400),
        }
    }
    for i in 0..5000 * args.scale {
        let a = z(&mut rng, size(i, 8, 5, 80));
        let n = amount(&mut rng);
        let op = *rng.pick(&["shl", "shr"]);
        let form = *rng.pick(REF_FORMS);
        let (x, y) = (a.big(), BigInt::from(n));
        let head = format!("\"{op}\",\"{form}\",{},{n}", a.j());
        s.val(&head, || {
            match op {
                "shl" => forms!(form, x, y, <<),
                _ => forms!(form, x, y, >>),
            }
            .j()
        });
    }
    // Left shifts by hundreds of limbs, and back by less
    for i in 0..8 * args.scale {
        let a = z(&mut rng, 4);
        let n = match i % 4 {
            0 => 64 * rng.range(255, 260) + rng.below(3),
            1 => 65536 + rng.below(130),
            _ => rng.range(3000, 30000),
        };
        let form = REF_FORMS[i % 4];
        let (x, y) = (a.big(), BigInt::from(n));
        s.val(&format!("\"shl\",\"{form}\",{},{n}", a.j()), || forms!(form, x, y, <<).j());
        let mut up = vec![0u64; n / 64];
        up.extend(&a.mag);
        let b = Z::new(a.neg, up);
        let m = if rng.chance(1, 2) { 64 * (n / 64) - rng.below(70) } else { rng.below(n) };
        let (x, y) = (b.big(), BigInt::from(m));
        s.val(&format!("\"shr\",\"{form}\",{},{m}", b.j()), || forms!(form, x, y, >>).j());
    }
    // Right shifts by far more than there are bits
    for i in 0..60 * args.scale {
        let a = z(&mut rng, 4);
        let top = rng.range(10, 63);
        let n = (1usize << top) + if rng.chance(1, 2) { rng.below(130) } else { (1usize << top) - 1 - rng.below(130) };
        let form = REF_FORMS[i % 4];
        let (x, y) = (a.big(), BigInt::from(n));
        s.val(&format!("\"shrfar\",\"{form}\",{},{}", a.j(), n.j()), || forms!(form, x, y, >>).j());
        let (x, y) = (a.big(), n);
        s.val(&format!("\"shrfar\",\"usize\",{},{}", a.j(), n.j()), || (x >> y).j());
    }
    for _ in 0..100 * args.scale {
        each_prim!(T, name, w, sg => {
            let a = z(&mut rng, 4);
            let n = amount(&mut rng).min(T::MAX as u128 as usize & 0xFFFF).min(if w == 8 { 127 } else { 4000 });
            let v = n as T;
            for op in ["shl", "shr"] {
                let x = a.big();
                let head = format!("\"{op}\",\"{name}\",{},{n}", a.j());
                s.val(&head, || (if op == "shl" { x << v } else { x >> v }).j());
            }
        });
    }
    s.finish();
}

fn main() {
    let args = Args::get();
    match args.prop.as_str() {
        "C07" => c07(&args),
        "C08" => c08(&args),
        "C09" => c09(&args),
        "C10" => c10(&args),
        "C11" => c11(&args),
        "C12" => c12(&args),
        p => panic!("unknown property {p}"),
    }
}
