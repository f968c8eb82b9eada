//! Slice arithmetic, in-place arithmetic and bit access: C16, C17, C18.

use numeric_bits::algos::*;
use numeric_bits::bit_slice::{BitLike, BitSliceExt, BitVecExt};
use numeric_bits::utils::{arr_to_int, const_reverse, int_to_arr, IntSlice};
use numeric_verif_harness::*;

trait El: BitLike + J + 'static {
    const NAME: &'static str;
    const W: usize;
    fn of(b: &[u8]) -> Self;
    fn bytes(self) -> Vec<u8>;
}
macro_rules! el {
    ($($t:ident),*) => { $(
        impl El for $t {
            const NAME: &'static str = stringify!($t);
            const W: usize = $t::BITS as usize;
            fn of(b: &[u8]) -> Self { $t::from_le_bytes(b.try_into().unwrap()) }
            fn bytes(self) -> Vec<u8> { self.to_le_bytes().to_vec() }
        }
    )* };
}
el!(u8, u16, u32, u64, u128, usize);

fn val<E: El>(v: &[E]) -> String {
    int_json(false, &v.iter().flat_map(|e| e.bytes()).collect::<Vec<_>>())
}

fn elems<E: El>(b: &[u8]) -> Vec<E> {
    b.chunks(E::W / 8).map(E::of).collect()
}

/// A slice of `n` elements, edge biased at element granularity
fn gen<E: El>(rng: &mut Rng, n: usize) -> Vec<E> {
    let eb = E::W / 8;
    let mut v: Vec<E> = match rng.below(8) {
        0..=2 => elems(&rng.bytes(n * eb)),
        _ => (0..n)
            .map(|_| match rng.below(8) {
                0 | 1 => E::of(&vec![0; eb]),
                2 | 3 => E::of(&vec![0xFF; eb]),
                4 => E::of(&nat::to_bytes(&[1], eb)),
                5 => E::of(&nat::to_bytes(&nat::pow2(E::W - 1), eb)),
                _ => E::of(&rng.bytes(eb)),
            })
            .collect(),
    };
    if rng.chance(1, 5) {
        // high zero elements
        let k = rng.below(n + 1);
        for e in v.iter_mut().skip(n - k) {
            *e = E::of(&vec![0; eb]);
        }
    }
    v
}

fn max_len<E: El>() -> usize {
    match E::W {
        8 => 9,
        16 => 7,
        32 => 6,
        64 => 5,
        _ => 4,
    }
}

const EMPTY: bool = true;

/// Two slices, of equal or different lengths, often correlated
fn two<E: El>(rng: &mut Rng) -> (Vec<E>, Vec<E>) {
    let m = match rng.below(240) {
        0..=2 => 40 * max_len::<E>(),
        3..=22 => 3 * max_len::<E>(),
        _ => max_len::<E>(),
    };
    let (n1, n2) = match rng.below(if EMPTY { 5 } else { 4 }) {
        4 => *rng.pick(&[(0, 0), (0, 1), (1, 0), (0, 2), (3, 0)]),
        0 => {
            let n = rng.range(1, m);
            (n, n)
        }
        1 => (1, rng.range(1, m)),
        2 => (rng.range(1, m), 1),
        _ => (rng.range(1, m), rng.range(1, m)),
    };
    let a: Vec<E> = gen(rng, n1);
    let eb = E::W / 8;
    let an = nat::from_bytes(&a.iter().flat_map(|e| e.bytes()).collect::<Vec<_>>());
    let b: Vec<E> = match rng.below(8) {
        0 => elems(&nat::to_bytes(&an, n2 * eb)),
        1 => elems(&nat::to_bytes(&nat::add(&an, &[1]), n2 * eb)),
        2 => elems(&nat::to_bytes(&nat::sub(&an, &[1]), n2 * eb)),
        3 => elems(&nat::to_bytes(&nat::sub(&nat::pow2(n1 * E::W), &an), n2 * eb)),
        _ => gen(rng, n2),
    };
    (a, b)
}

fn amount(rng: &mut Rng, w: usize, bits: usize) -> usize {
    match rng.below(6) {
        0 => w * rng.below(bits / w + 2),
        1 => (w * rng.range(1, bits / w + 1) + rng.below(3)).saturating_sub(1),
        2 => rng.below(3),
        3 => rng.below(w),
        4 => bits,
        _ => rng.below(bits + 2 * w),
    }
}

fn alloc<E: El>(s: &mut Sink, rng: &mut Rng, n: usize) {
    let t = E::NAME;
    for i in 0..n {
        let (a, b) = two::<E>(rng);
        let (ja, jb) = (val(&a), val(&b));
        let (sa, sb): (&[E], &[E]) = (&a, &b);
        let args = format!("\"{t}\",{ja},{jb}");
        s.val(&format!("\"add\",\"e\",{args}"), || val(&ElementAdd::add(sa, sb)));
        s.val(&format!("\"add\",\"b\",{args}"), || val(&BitwiseAdd::add(sa, sb)));
        let j2 = |(v, neg): (Vec<E>, bool)| format!("[{},{}]", val(&v), neg.j());
        s.val(&format!("\"sub\",\"e\",{args}"), || j2(ElementSub::sub(sa, sb)));
        s.val(&format!("\"sub\",\"b\",{args}"), || j2(BitwiseSub::sub(sa, sb)));
        s.val(&format!("\"mul\",\"e\",{args}"), || val(&ElementMul::mul(sa, sb)));
        s.val(&format!("\"mul\",\"b\",{args}"), || val(&BitwiseMul::mul(sa, &b)));
        s.val(&format!("\"and\",\"e\",{args}"), || val(&ElementBitand::bitand(sa, sb)));
        s.val(&format!("\"or\",\"e\",{args}"), || val(&ElementBitor::bitor(sa, sb)));
        s.val(&format!("\"xor\",\"e\",{args}"), || val(&ElementBitxor::bitxor(sa, sb)));
        s.val(&format!("\"cmp\",\"e\",{args}"), || ElementCmp::cmp(sa, sb).j());
        s.val(&format!("\"cmp\",\"e\",\"{t}\",{ja},{ja}"), || {
            let mut c = a.clone();
            c.push(E::zero());
            ElementCmp::cmp(sa, &c).j()
        });
        let k = amount(rng, E::W, a.len() * E::W);
        s.val(&format!("\"shl\",\"e\",\"{t}\",{ja},{k}"), || val(&ElementShl::shl(sa, k)));
        s.val(&format!("\"shl\",\"b\",\"{t}\",{ja},{k}"), || val(&BitwiseShl::shl(sa, k)));
        s.val(&format!("\"shr\",\"e\",\"{t}\",{ja},{k}"), || val(&ElementShr::shr(sa, k)));
        s.val(&format!("\"shr\",\"b\",\"{t}\",{ja},{k}"), || val(&BitwiseShr::shr(sa, k)));
        if i % 2 == 0 {
            let (a, b) = if rng.chance(1, 2) { div_operands(rng) } else { (a.clone(), b.clone()) };
            let args = format!("\"{t}\",{},{}", val(&a), val(&b));
            let (sa, sb): (&[E], &[E]) = (&a, &b);
            let q2 = |(q, r): (Vec<E>, Vec<E>)| format!("[{},{}]", val(&q), val(&r));
            s.val(&format!("\"div\",\"b\",{args}"), || q2(BitwiseDiv::div_long(sa, sb)));
            // the element version counts up: only feasible for small elements
            if E::W == 8 {
                s.val(&format!("\"div\",\"e\",{args}"), || q2(ElementDiv::div_long(sa, sb)));
            } else if !a.is_empty() && !b.is_empty() {
                let sm = |e: E| E::of(&nat::to_bytes(&[nat::from_bytes(&e.bytes()).first().copied().unwrap_or(0) & 0xFF], E::W / 8));
                // quotient digits stay small: a divisor whose top element is large
                let mut d = b.clone();
                let l = d.len();
                d[l - 1] = E::of(&vec![0xFF; E::W / 8]);
                let a2: Vec<E> = if rng.chance(1, 2) { a.clone() } else { vec![sm(a[0])] };
                let a2 = if a2.len() > d.len() { a2[..d.len()].to_vec() } else { a2 };
                let args = format!("\"{t}\",{},{}", val(&a2), val(&d));
                s.val(&format!("\"div\",\"e\",{args}"), || q2(ElementDiv::div_long(&a2[..], &d[..])));
            }
        }
        if i % 25 == 0 {
            let z = vec![E::zero(); rng.range(1, 3)];
            let args = format!("\"{t}\",{ja},{}", val(&z));
            let q2 = |(q, r): (Vec<E>, Vec<E>)| format!("[{},{}]", val(&q), val(&r));
            s.val(&format!("\"div\",\"b\",{args}"), || q2(BitwiseDiv::div_long(sa, &z[..])));
            s.val(&format!("\"div\",\"e\",{args}"), || q2(ElementDiv::div_long(sa, &z[..])));
        }
    }
}

fn div_operands<E: El>(rng: &mut Rng) -> (Vec<E>, Vec<E>) {
    let m = max_len::<E>();
    let eb = E::W / 8;
    let n = rng.range(1, m.div_ceil(2));
    let mut b: Vec<E> = gen(rng, n);
    if b.iter().all(|e| *e == E::zero()) {
        b[0] = E::one();
    }
    let bn = nat::from_bytes(&b.iter().flat_map(|e| e.bytes()).collect::<Vec<_>>());
    let nq = rng.range(1, m.div_ceil(2));
    let q: Vec<E> = gen(rng, nq);
    let qn = nat::from_bytes(&q.iter().flat_map(|e| e.bytes()).collect::<Vec<_>>());
    let p = nat::mul(&bn, &qn);
    let p = match rng.below(4) {
        0 => p,
        1 => nat::add(&p, &nat::sub(&bn, &[1])),
        2 => nat::sub(&p, &[1]),
        _ => nat::add(&p, &[1]),
    };
    (elems(&nat::to_bytes(&p, (n + nq) * eb)), b)
}

fn in_place<E: El>(s: &mut Sink, rng: &mut Rng, n: usize) {
    let t = E::NAME;
    for i in 0..n {
        let (a, b) = two::<E>(rng);
        let w = E::W;
        let bits = a.len() * w;
        let head = |op: &str, b: &[E]| format!("\"{op}\",\"{t}\",{bits},{},{}", val(&a), val(b));
        // overflowing: [left after, its bit length after, overflow, right after]
        macro_rules! over {
            ($op:literal, $tr:ident, $m:ident) => {
                s.val(&head($op, &b), || {
                    let mut l = a.clone();
                    let (out, f) = $tr::$m(&mut l[..], &b);
                    let o = val(out);
                    format!("[{o},{},{},{},{}]", l.len() * w, f.j(), val(&l), val(&b))
                });
            };
        }
        macro_rules! checked {
            ($op:literal, $tr:ident, $m:ident) => {
                s.run(&head($op, &b), || {
                    let mut l = a.clone();
                    let out = $tr::$m(&mut l[..], &b).map(|o| val(o));
                    match out {
                        Some(o) => ok(&format!("[{o},{},{},{}]", l.len() * w, val(&l), val(&b))),
                        None => format!("[\"none\",{}]", val(&b)),
                    }
                });
            };
        }
        macro_rules! wrapping {
            ($op:literal, $tr:ident, $m:ident) => {
                s.val(&head($op, &b), || {
                    let mut l = a.clone();
                    let o = val($tr::$m(&mut l[..], &b));
                    format!("[{o},{},{},{}]", l.len() * w, val(&l), val(&b))
                });
            };
        }
        over!("oadd", ElementAdd, add_overflowing);
        over!("osub", ElementSub, sub_overflowing);
        over!("omul", ElementMul, mul_overflowing);
        checked!("cadd", ElementAdd, add_checked);
        checked!("csub", ElementSub, sub_checked);
        checked!("cmul", ElementMul, mul_checked);
        wrapping!("wadd", ElementAdd, add_wrapping);
        wrapping!("wsub", ElementSub, sub_wrapping);
        wrapping!("wmul", ElementMul, mul_wrapping);
        wrapping!("wadd", BitwiseAdd, add_in_place);
        s.val(&format!("\"not\",\"{t}\",{bits},{}", val(&a)), || {
            let mut l = a.clone();
            ElementNot::not(&mut l[..]);
            format!("[{},{}]", val(&l), l.len() * w)
        });
        let k = amount(rng, w, bits);
        macro_rules! shift {
            ($op:literal, $tr:ident, $m:ident, $chk:tt) => {
                s.run(&format!("\"{}\",\"{t}\",{bits},{},{k}", $op, val(&a)), || {
                    let mut l = a.clone();
                    let o = $tr::$m(&mut l[..], k);
                    shift!(@ $chk, o, l, w)
                });
            };
            (@ true, $o:ident, $l:ident, $w:ident) => {
                match $o.map(|o| val(o)) {
                    Some(o) => ok(&format!("[{o},{},{}]", $l.len() * $w, val(&$l))),
                    None => "[\"none\"]".to_string(),
                }
            };
            (@ false, $o:ident, $l:ident, $w:ident) => {{
                let o = val($o);
                ok(&format!("[{o},{},{}]", $l.len() * $w, val(&$l)))
            }};
        }
        shift!("cshl", ElementShl, shl_checked, true);
        shift!("cshr", ElementShr, shr_checked, true);
        // an amount modulo zero bits means nothing
        if bits != 0 {
            shift!("wshl", ElementShl, shl_wrapping, false);
            shift!("wshr", ElementShr, shr_wrapping, false);
        }
        if i % 2 == 0 {
            let (a, b) = if rng.chance(1, 2) { div_operands::<E>(rng) } else { (a, b) };
            let b = if rng.chance(1, 20) { vec![E::zero(); b.len()] } else { b };
            let bits = a.len() * w;
            let head = format!("\"divs\",\"{t}\",{bits},{},{}", val(&a), val(&b));
            s.run(&head, || {
                let scratch = || vec![E::zero(); a.len()];
                let over = |f: &dyn Fn(&mut [E], &[E], &mut [E]) -> bool| {
                    outcome(|| {
                        let mut l = a.clone();
                        let fl = f(&mut l, &b, &mut scratch());
                        format!("[{},{},{}]", val(&l), fl.j(), l.len() * w)
                    })
                };
                list([
                    over(&|l, r, x| BitwiseDiv::div_long_overflowing(l, r, x).1),
                    over(&|l, r, x| BitwiseDiv::rem_long_overflowing(l, r, x).1),
                    over(&|l, r, x| BitwiseDiv::div_long_checked(l, r, x).is_none()),
                    over(&|l, r, x| BitwiseDiv::rem_long_checked(l, r, x).is_none()),
                    over(&|l, r, x| {
                        BitwiseDiv::div_long_wrapping(l, r, x);
                        false
                    }),
                    over(&|l, r, x| {
                        BitwiseDiv::rem_long_wrapping(l, r, x);
                        false
                    }),
                ])
            });
        }
    }
}

// ------------------------------------------------------------------ C18

fn ev<E: El>(v: &[E]) -> String {
    list(v.iter().map(|e| nat_json(&e.bytes())))
}

/// One history over a growable vector: every operation with its answer and the elements after it
fn history<E: El>(s: &mut Sink, rng: &mut Rng, steps: usize) {
    let n = rng.below(5);
    history_of::<E>(s, rng, n, steps)
}
fn history_of<E: El>(s: &mut Sink, rng: &mut Rng, n: usize, steps: usize) {
    let mut v: Vec<E> = if n == 0 { Vec::new() } else { gen(rng, n) };
    let head = format!("\"hist\",\"{}\",{},{}", E::NAME, E::W, ev(&v));
    s.begin(&head);
    let mut out = Vec::new();
    for _ in 0..steps {
        let len = v.len();
        let idx = match rng.below(5) {
            0 => len,
            1 => len + rng.below(3),
            _ => rng.below(len + 1),
        };
        let bits = len * E::W;
        let far = |rng: &mut Rng| match rng.below(3) {
            0 => (1usize << rng.range(8, 17)) + rng.below(2 * E::W),
            1 => E::W * *rng.pick(&[127, 128, 255, 256, 257, 1023, 1024]) + rng.below(E::W),
            _ => E::W * rng.below(len) + rng.below(E::W),
        };
        let bit = match rng.below(6) {
            _ if len > 40 && rng.chance(3, 4) => far(rng),
            0 => bits,
            1 => bits + rng.below(2 * E::W),
            2 => (E::W * rng.below(len + 1) + rng.below(2)).saturating_sub(1),
            _ => rng.below(bits + 1),
        };
        let e = gen::<E>(rng, 1)[0];
        let je = nat_json(&e.bytes());
        let b = rng.chance(1, 2);
        let jb = b.j();
        // reads go through every container type
        let via = rng.below(3);
        macro_rules! on {
            ($x:ident => $body:expr) => {
                match via {
                    0 => {
                        let $x: &mut [E] = &mut v[..];
                        $body
                    }
                    1 if v.len() == 2 => {
                        let mut arr: [E; 2] = [v[0], v[1]];
                        let r = {
                            let $x = &mut arr;
                            attempt(|| $body)
                        };
                        v.copy_from_slice(&arr);
                        match r {
                            Some(r) => r,
                            None => panic!(),
                        }
                    }
                    _ => {
                        let $x: &mut Vec<E> = &mut v;
                        $body
                    }
                }
            };
        }
        let jn = |o: Option<String>| match o {
            Some(x) => format!("[\"some\",{x}]"),
            None => "[\"none\"]".into(),
        };
        let nat = |e: E| nat_json(&e.bytes());
        let k = rng.below(19);
        let (op, arg) = match k {
            0 => ("get", format!("{idx}")),
            1 => ("get_opt", format!("{idx}")),
            2 => ("get_bit", format!("{bit}")),
            3 => ("get_bit_opt", format!("{bit}")),
            4 => ("set", format!("[{idx},{je}]")),
            5 => ("set_opt", format!("[{idx},{je}]")),
            6 | 17 => ("set_bit", format!("[{bit},{jb}]")),
            7 | 18 => ("set_bit_opt", format!("[{bit},{jb}]")),
            8 => ("set_ignore", format!("[{idx},{je}]")),
            9 => ("set_bit_ignore", format!("[{bit},{jb}]")),
            10 => ("extend", format!("[{idx},{je}]")),
            11 => ("set_push", format!("[{idx},{je}]")),
            12 => ("set_bit_push", format!("[{bit},{jb}]")),
            13 => ("len", "0".into()),
            14 => ("bit_len", "0".into()),
            15 => ("is_empty", "0".into()),
            _ => ("bits", "0".into()),
        };
        let r = attempt(|| match op {
            "get" => on!(x => nat(BitSliceExt::get(x, idx))),
            "get_opt" => on!(x => jn(x.get_opt(idx).map(nat))),
            "get_bit" => on!(x => x.get_bit(bit).j()),
            "get_bit_opt" => on!(x => jn(x.get_bit_opt(bit).map(|b| b.j()))),
            "set" => on!(x => { x.set(idx, e); "0".into() }),
            "set_opt" => on!(x => jn(x.set_opt(idx, e).map(|_| "0".into()))),
            "set_bit" => on!(x => { x.set_bit(bit, b); "0".into() }),
            "set_bit_opt" => on!(x => jn(x.set_bit_opt(bit, b).map(|_| "0".into()))),
            "set_ignore" => on!(x => { x.set_ignore(idx, e); "0".into() }),
            "set_bit_ignore" => on!(x => { x.set_bit_ignore(bit, b); "0".into() }),
            "extend" => {
                BitVecExt::extend(&mut v, idx, e);
                "0".into()
            }
            "set_push" => {
                v.set_push(idx, e);
                "0".into()
            }
            "set_bit_push" => {
                v.set_bit_push(bit, b);
                "0".into()
            }
            "len" => on!(x => BitSliceExt::len(x).to_string()),
            "bit_len" => on!(x => x.bit_len().to_string()),
            "is_empty" => on!(x => BitSliceExt::is_empty(x).j()),
            _ => on!(x => {
                let mut it = x.iter_bits();
                let mut items = Vec::new();
                let total = it.len();
                loop {
                    let l = it.len();
                    let h = it.size_hint();
                    let ok = h == (l, Some(l));
                    match it.next() {
                        Some(b) => items.push(format!("[{},{},{}]", b.j(), l, ok.j())),
                        None => break,
                    }
                    if items.len() > total + 200 {
                        break;
                    }
                }
                let after = it.next().is_none() && it.next().is_none() && it.len() == 0;
                format!("[{},{}]", list(items), after.j())
            }),
        });
        let res = match r {
            Some(x) => ok(&x),
            None => PANIC.into(),
        };
        out.push(format!("[\"{op}\",{arg},{res},{}]", ev(&v)));
    }
    s.end(&head, &list(out));
}

macro_rules! pack {
    ($s:ident, $rng:ident, $t:ident, $($u:ident),*) => { $({
        const N: usize = ($t::BITS as usize).div_ceil($u::BITS as usize);
        const M: usize = N + 2;
        let v = $t::of(&$rng.bytes($t::W / 8));
        let v = if $rng.chance(1, 4) { ($rng.below(600)) as $t } else { v };
        let h = format!("\"split\",{},{},{}", $t::W, $u::W, v.j());
        $s.val(&h, || ev(&int_to_arr::<$t, $u, N>(v)));
        $s.val(&h, || ev(&int_to_arr::<$t, $u, M>(v)));
        // joining elements $u into $t
        let k = $rng.range(1, N + 1);
        let mut a: Vec<$u> = gen($rng, k);
        if $rng.chance(1, 2) {
            for e in a.iter_mut().skip(N) { *e = 0; }
        }
        if $rng.chance(1, 3) {
            let l = a.len();
            a[l - 1] = ($rng.below(256)) as $u;
        }
        let h = format!("\"join\",{},{},{}", $u::W, $t::W, ev(&a));
        $s.run(&h, || arr_to_int::<$u, $t>(&a).j());
    })* };
}

fn rev<const N: usize>(s: &mut Sink, rng: &mut Rng) {
    let b: [u8; N] = std::array::from_fn(|_| rng.byte());
    s.val(&format!("\"reverse\",{}", list(b.iter().map(|x| x.to_string()))), || {
        list(const_reverse(b).iter().map(|x| x.to_string()))
    });
}

fn shrink<E: El>(s: &mut Sink, rng: &mut Rng) {
    let n = rng.range(0, 6);
    let a: Vec<E> = gen(rng, n);
    let h = format!("\"shrink\",{}", ev(&a));
    s.val(&h, || ev(IntSlice::shrink(&a[..])));
    s.val(&h, || ev(&IntSlice::shrink(a.clone())));
}

/// Small slices as table entries
fn tv(v: &[u8]) -> i64 {
    v.iter().rev().fold(0i64, |acc, b| (acc << 8 | *b as i64).min(900_000))
}
fn two_bytes(x: i64) -> [u8; 2] {
    (x as u16).to_le_bytes()
}
fn lefts() -> impl Iterator<Item = i64> {
    (250..262).chain((300..65536).step_by(1571)).chain([0x7FFF, 0x8000, 0xFF00, 0xFEFF, 0xFFFE, 0xFFFF])
}

/// Every pair of one-byte slices, and two-byte slices against every byte
fn alloc_tables(s: &mut Sink) {
    let x = |op| Tab { pol: "x", op, w: 8, sg: 0 };
    for a in 0..=255i64 {
        let l = [a as u8];
        let mut row = |op: &'static str, f: &dyn Fn(&[u8], &[u8]) -> i64| s.row(x(op), a, 0, 255, |b| f(&l, &[b as u8]));
        row("add", &|l, r| tv(&ElementAdd::add(l, r)));
        row("add", &|l, r| tv(&BitwiseAdd::add(l, r)));
        let sg = |(v, neg): (Vec<u8>, bool)| if neg { -tv(&v) } else { tv(&v) };
        row("sub", &|l, r| sg(ElementSub::sub(l, r)));
        row("sub", &|l, r| sg(BitwiseSub::sub(l, r)));
        row("mul", &|l, r| tv(&ElementMul::mul(l, r)));
        row("mul", &|l, r| tv(&BitwiseMul::mul(l, &r.to_vec())));
        row("and", &|l, r| tv(&ElementBitand::bitand(l, r)));
        row("or", &|l, r| tv(&ElementBitor::bitor(l, r)));
        row("xor", &|l, r| tv(&ElementBitxor::bitxor(l, r)));
        row("cmp", &|l, r| ElementCmp::cmp(l, r).t());
        row("div", &|l, r| tv(&BitwiseDiv::div_long(l, r).0));
        row("rem", &|l, r| tv(&BitwiseDiv::div_long(l, r).1));
        row("div", &|l, r| tv(&ElementDiv::div_long(l, r).0));
        row("rem", &|l, r| tv(&ElementDiv::div_long(l, r).1));
        s.row(x("shl"), a, 0, 11, |k| tv(&ElementShl::shl(&l[..], k as usize)));
        s.row(x("shl"), a, 0, 11, |k| tv(&BitwiseShl::shl(&l[..], k as usize)));
        s.row(x("shr"), a, 0, 11, |k| tv(&ElementShr::shr(&l[..], k as usize)));
        s.row(x("shr"), a, 0, 11, |k| tv(&BitwiseShr::shr(&l[..], k as usize)));
    }
    for a in lefts() {
        let l = two_bytes(a);
        let mut row = |op: &'static str, f: &dyn Fn(&[u8], &[u8]) -> i64| {
            s.row(x(op), a, 0, 255, |b| f(&l, &[b as u8]));
            s.row(x(op), a, 200, 511, |b| f(&l, &two_bytes(b)));
        };
        row("add", &|l, r| tv(&ElementAdd::add(l, r)));
        row("add", &|l, r| tv(&BitwiseAdd::add(l, r)));
        let sg = |(v, neg): (Vec<u8>, bool)| if neg { -tv(&v) } else { tv(&v) };
        row("sub", &|l, r| sg(ElementSub::sub(l, r)));
        row("sub", &|l, r| sg(BitwiseSub::sub(l, r)));
        row("cmp", &|l, r| ElementCmp::cmp(l, r).t());
        row("div", &|l, r| tv(&BitwiseDiv::div_long(l, r).0));
        row("rem", &|l, r| tv(&BitwiseDiv::div_long(l, r).1));
        row("div", &|l, r| tv(&ElementDiv::div_long(l, r).0));
        row("rem", &|l, r| tv(&ElementDiv::div_long(l, r).1));
        row("and", &|l, r| tv(&ElementBitand::bitand(l, r)));
        row("or", &|l, r| tv(&ElementBitor::bitor(l, r)));
        row("xor", &|l, r| tv(&ElementBitxor::bitxor(l, r)));
    }
}

fn in_place_tables(s: &mut Sink) {
    fn each(s: &mut Sink, w: usize, a: i64, lo: i64, hi: i64, l: &[u8], r: &dyn Fn(i64) -> Vec<u8>) {
        let t = |pol, op| Tab { pol, op, w, sg: 0 };
        macro_rules! over {
            ($op:literal, $tr:ident, $m:ident) => {
                s.row(t("o", $op), a, lo, hi, |b| {
                    let mut v = l.to_vec();
                    let (o, f) = $tr::$m(&mut v[..], &r(b));
                    (tv(o), f).t()
                });
            };
        }
        macro_rules! checked {
            ($op:literal, $tr:ident, $m:ident) => {
                s.row(t("c", $op), a, lo, hi, |b| {
                    let mut v = l.to_vec();
                    $tr::$m(&mut v[..], &r(b)).map(|o| tv(o)).t()
                });
            };
        }
        macro_rules! wrapping {
            ($op:literal, $tr:ident, $m:ident) => {
                s.row(t("w", $op), a, lo, hi, |b| {
                    let mut v = l.to_vec();
                    tv($tr::$m(&mut v[..], &r(b)))
                });
            };
        }
        over!("add", ElementAdd, add_overflowing);
        over!("sub", ElementSub, sub_overflowing);
        over!("mul", ElementMul, mul_overflowing);
        checked!("add", ElementAdd, add_checked);
        checked!("sub", ElementSub, sub_checked);
        checked!("mul", ElementMul, mul_checked);
        wrapping!("add", ElementAdd, add_wrapping);
        wrapping!("sub", ElementSub, sub_wrapping);
        wrapping!("mul", ElementMul, mul_wrapping);
        let (n0, n) = (0, w as i64 + 20);
        s.row(t("i", "shl"), a, n0, n, |k| {
            let mut v = l.to_vec();
            ElementShl::shl_checked(&mut v[..], k as usize).map(|o| tv(o)).t()
        });
        s.row(t("i", "shr"), a, n0, n, |k| {
            let mut v = l.to_vec();
            ElementShr::shr_checked(&mut v[..], k as usize).map(|o| tv(o)).t()
        });
        s.row(t("w", "shl"), a, n0, n, |k| {
            let mut v = l.to_vec();
            tv(ElementShl::shl_wrapping(&mut v[..], k as usize))
        });
        s.row(t("w", "shr"), a, n0, n, |k| {
            let mut v = l.to_vec();
            tv(ElementShr::shr_wrapping(&mut v[..], k as usize))
        });
        s.row(t("p", "div"), a, lo, hi, |b| {
            let mut v = l.to_vec();
            BitwiseDiv::div_long_wrapping(&mut v[..], &r(b), &mut vec![0; l.len()]);
            tv(&v)
        });
        s.row(t("p", "rem"), a, lo, hi, |b| {
            let mut v = l.to_vec();
            BitwiseDiv::rem_long_wrapping(&mut v[..], &r(b), &mut vec![0; l.len()]);
            tv(&v)
        });
    }
    for a in 0..=255i64 {
        each(s, 8, a, 0, 255, &[a as u8], &|b| vec![b as u8]);
    }
    for a in lefts() {
        each(s, 16, a, 0, 255, &two_bytes(a), &|b| vec![b as u8]);
        each(s, 16, a, 200, 511, &two_bytes(a), &|b| two_bytes(b).to_vec());
    }
    // a short left slice and a longer right one
    for a in (0..256i64).step_by(17).chain([1, 254]) {
        each(s, 8, a, 200, 511, &[a as u8], &|b| two_bytes(b).to_vec());
    }
}

fn main() {
    let args = Args::get();
    let mut rng = args.rng();
    let n = 60 * args.scale;
    let r = &mut rng;
    match args.prop.as_str() {
        "C16" => {
            let mut s = args.sink(100);
            let s0 = &mut s;
            alloc::<u8>(s0, r, 2 * n);
            alloc::<u16>(s0, r, n);
            alloc::<u32>(s0, r, n);
            alloc::<u64>(s0, r, n);
            alloc::<u128>(s0, r, n);
            alloc::<usize>(s0, r, n / 2);
            alloc_tables(s0);
            s.finish();
        }
        "C17" => {
            let mut s = args.sink(100);
            let s0 = &mut s;
            in_place::<u8>(s0, r, 2 * n);
            in_place::<u16>(s0, r, n);
            in_place::<u32>(s0, r, n);
            in_place::<u64>(s0, r, n);
            in_place::<u128>(s0, r, n);
            in_place::<usize>(s0, r, n / 2);
            in_place_tables(s0);
            s.finish();
        }
        "C18" => {
            let mut s = args.sink(20);
            let s0 = &mut s;
            for _ in 0..n {
                history::<u8>(s0, r, 25);
                match r.below(60) {
                    0..=2 => history_of::<u8>(s0, r, 300, 40),
                    3 => history_of::<u64>(s0, r, 1040, 20),
                    4 => history_of::<u128>(s0, r, 70, 40),
                    5 => history_of::<u16>(s0, r, 270, 40),
                    _ => (),
                }
                history::<u16>(s0, r, 20);
                history::<u32>(s0, r, 15);
                history::<u64>(s0, r, 15);
                history::<u128>(s0, r, 10);
                history::<usize>(s0, r, 10);
                pack!(s0, r, u8, u8, u16, u32, u64, u128, usize);
                pack!(s0, r, u16, u8, u16, u32, u64, u128, usize);
                pack!(s0, r, u32, u8, u16, u32, u64, u128, usize);
                pack!(s0, r, u64, u8, u16, u32, u64, u128, usize);
                pack!(s0, r, u128, u8, u16, u32, u64, u128, usize);
                pack!(s0, r, usize, u8, u16, u32, u64, u128, usize);
                rev::<1>(s0, r);
                rev::<2>(s0, r);
                rev::<3>(s0, r);
                rev::<4>(s0, r);
                rev::<7>(s0, r);
                rev::<8>(s0, r);
                rev::<16>(s0, r);
                shrink::<u8>(s0, r);
                shrink::<u64>(s0, r);
                shrink::<u128>(s0, r);
            }
            s.finish();
        }
        p => panic!("unknown property {p}"),
    }
}
