//! Random U<N> and I<N>: C28. Records how often bits, bytes, pairs of bits and whole values came up.

use numeric_ints::{I, U};
use numeric_verif_harness::{list, Args, Sink};
use rand::distr::{Distribution, StandardUniform};
use rand::{Fill, Rng as _, RngCore};

/// A source of uniform independent bits (splitmix64, or a multiplicative generator with its output mixed)
#[derive(Clone)]
struct Source {
    state: u64,
    mixed: bool,
}

impl Source {
    fn new(seed: u64, mixed: bool) -> Source {
        Source { state: seed.wrapping_mul(0x2545_F491_4F6C_DD1D) ^ 0x1234_5678_9ABC_DEF1, mixed }
    }
}

impl RngCore for Source {
    fn next_u32(&mut self) -> u32 {
        let x = self.next_u64();
        (if self.mixed { x >> 32 } else { x }) as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.state = self.state.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.state;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^= z >> 31;
        if self.mixed {
            z = z.wrapping_mul(0xD6E8_FEB8_6659_FD93);
            z ^= z >> 32;
        }
        z
    }
    fn fill_bytes(&mut self, dst: &mut [u8]) {
        for c in dst.chunks_mut(8) {
            let b = self.next_u64().to_le_bytes();
            c.copy_from_slice(&b[..c.len()]);
        }
    }
}

/// Both types are their bytes
fn bytes<T, const N: usize>(x: &T) -> [u8; N] {
    assert_eq!(std::mem::size_of::<T>(), N);
    unsafe { std::mem::transmute_copy::<T, [u8; N]>(x) }
}
fn make<T, const N: usize>(b: [u8; N]) -> T {
    assert_eq!(std::mem::size_of::<T>(), N);
    unsafe { std::mem::transmute_copy::<[u8; N], T>(&b) }
}

const KINDS: [&str; 6] = ["U.sample", "U.random", "U.fill", "I.sample", "I.random", "I.fill"];

/// One random value; `old` is what a value that is filled held before
fn draw<const N: usize>(kind: &str, src: &mut Source, old: [u8; N]) -> [u8; N] {
    match kind {
        "U.sample" => bytes::<U<N>, N>(&StandardUniform.sample(src)),
        "U.random" => bytes::<U<N>, N>(&src.random::<U<N>>()),
        "U.fill" => {
            let mut x: U<N> = make(old);
            Fill::fill(&mut x, src);
            bytes(&x)
        }
        "I.sample" => bytes::<I<N>, N>(&StandardUniform.sample(src)),
        "I.random" => bytes::<I<N>, N>(&src.random::<I<N>>()),
        _ => {
            let mut x: I<N> = make(old);
            src.fill(&mut x);
            bytes(&x)
        }
    }
}

fn bit(b: &[u8], i: usize) -> usize {
    (b[i / 8] >> (i % 8)) as usize & 1
}

const SAMPLES: usize = 8192;

fn width<const N: usize>(args: &Args, s: &mut Sink) {
    let mut rng = args.rng();
    for (k, kind) in KINDS.iter().enumerate() {
        for round in 0..args.scale {
            let mut src = Source::new(args.seed * 1000 + (round * 100 + k * 7 + N * 13) as u64, round % 2 == 1);
            let start = src.clone();
            s.begin(&format!("\"draws\",\"{kind}\",{N}"));
            let mut v: Vec<[u8; N]> = vec![];
            for t in 0..SAMPLES {
                let old = match t % 3 {
                    0 => [0; N],
                    1 => [0xFF; N],
                    _ => v[t - 1],
                };
                v.push(draw::<N>(kind, &mut src, old));
            }
            s.skip();
            let head = |what: &str| format!("\"{what}\",\"{kind}\",{N}");
            let nums = |xs: Vec<usize>| list(xs.iter().map(|x| x.to_string()));
            // the same source gives the same values
            s.run(&head("again"), || {
                let mut src = start.clone();
                let w: Vec<[u8; N]> = (0..20).map(|t| draw::<N>(kind, &mut src, v[t])).collect();
                let flat = |x: &[[u8; N]]| nums(x.iter().flatten().map(|b| *b as usize).collect());
                format!("[{},{}]", flat(&v[..20]), flat(&w))
            });
            s.run(&head("bits"), || nums((0..8 * N).map(|i| v.iter().map(|x| bit(x, i)).sum()).collect()));
            for byte in 0..N {
                s.run(&format!("{},{byte}", head("byte")), || {
                    let mut h = vec![0; 256];
                    v.iter().for_each(|x| h[x[byte] as usize] += 1);
                    nums(h)
                });
            }
            let bits = 8 * N;
            let mut pairs: Vec<(usize, usize)> = vec![];
            if bits <= 24 {
                pairs.extend((0..bits).flat_map(|i| (0..i).map(move |j| (i, j))));
            } else {
                for d in [1, 8, 16, 32, 64, 128] {
                    pairs.extend((0..bits.saturating_sub(d)).map(|i| (i + d, i)));
                }
                pairs.extend((0..300).map(|_| (rng.below(bits), rng.below(bits))).filter(|(i, j)| i != j));
            }
            for ch in pairs.chunks(100) {
                s.run(&format!("{},{}", head("pairs"), list(ch.iter().map(|(i, j)| format!("[{i},{j}]")))), || {
                    nums(ch.iter().map(|(i, j)| v.iter().map(|x| bit(x, *i) & bit(x, *j)).sum()).collect())
                });
            }
            let next: Vec<(usize, usize)> = (0..100).map(|_| (rng.below(bits), rng.below(bits))).collect();
            s.run(&format!("{},{}", head("next"), list(next.iter().map(|(i, j)| format!("[{i},{j}]")))), || {
                nums(next.iter().map(|(i, j)| (1..SAMPLES).map(|t| bit(&v[t - 1], *i) & bit(&v[t], *j)).sum()).collect())
            });
            // two bytes of a value are as often equal as chance has it
            if N > 1 {
                let mut pairs: Vec<(usize, usize)> = (0..N - 1).map(|i| (i + 1, i)).collect();
                for d in [4, 8, 16] {
                    pairs.extend((0..N.saturating_sub(d)).map(|i| (i + d, i)));
                }
                s.run(&format!("{},{}", head("equal"), list(pairs.iter().map(|(i, j)| format!("[{i},{j}]")))), || {
                    nums(pairs.iter().map(|(i, j)| v.iter().filter(|x| x[*i] == x[*j]).count()).collect())
                });
            }
        }
    }
}

fn main() {
    let args = Args::get();
    let mut s = args.sink(10);
    macro_rules! widths {
        ($($n:literal),*) => { $(width::<$n>(&args, &mut s);)* };
    }
    widths!(1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 20, 24, 31, 32, 33, 48, 64);
    // every two-byte value comes up, each as often as the others
    for (k, kind) in KINDS.iter().enumerate() {
        let mut src = Source::new(args.seed * 77 + k as u64, k % 2 == 0);
        let mut h = vec![0u32; 65536];
        s.begin(&format!("\"draws\",\"{kind}\",2"));
        let mut old = [0, 0];
        for _ in 0..1 << 21 {
            old = draw::<2>(kind, &mut src, old);
            h[u16::from_le_bytes(old) as usize] += 1;
        }
        s.skip();
        for base in (0..65536).step_by(1024) {
            s.run(&format!("\"all\",\"{kind}\",2,{base}"), || list(h[base..base + 1024].iter().map(|x| x.to_string())));
        }
    }
    s.finish();
}
