//! Shared parts of the conformance harness: value encoding, generators, and the case sink.
//!
//! The harness only executes the implementation and records what it did; every judgement about a
//! recorded case is made by TLC against the TLA+ specification in /verif/spec.

use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::fs::File;
use std::hash::{Hash, Hasher};
use std::io::{Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::Duration;

pub mod big;
pub mod nat;
pub mod q;
#[cfg(numeric_verif)]
pub mod sched;

#[derive(Clone, Debug)]
pub struct Rng(pub u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// A number below `n`
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn byte(&mut self) -> u8 {
        (self.next() >> 33) as u8
    }
    /// One edge-biased machine word
    pub fn word(&mut self) -> u64 {
        match self.below(12) {
            0 | 1 => 0,
            2 => 1,
            3 | 4 => u64::MAX,
            5 => u64::MAX - 1,
            6 => 1 << 63,
            7 => (1 << 63) - 1,
            8 => 1 << self.below(64),
            9 => self.next() >> self.below(64),
            _ => self.next(),
        }
    }
    /// One edge-biased byte
    pub fn ebyte(&mut self) -> u8 {
        match self.below(10) {
            0 | 1 => 0,
            2 => 1,
            3 | 4 => 0xFF,
            5 => 0x80,
            6 => 0x7F,
            7 => 1 << self.below(8),
            _ => self.byte(),
        }
    }
    /// `n` edge-biased bytes, little-endian, with a bias to significant runs of equal bytes
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        if n == 0 {
            return Vec::new();
        }
        match self.below(10) {
            0 => {
                // 2^k - 1, 2^k, 2^k + 1
                let k = self.below(8 * n);
                let mut v = nat::pow2(k);
                match self.below(3) {
                    0 => v = nat::sub(&v, &[1]),
                    1 => v = nat::add(&v, &[1]),
                    _ => (),
                }
                nat::to_bytes(&v, n)
            }
            1 => vec![*self.pick(&[0u8, 0xFF, 0x80, 1]); n],
            2 => {
                let mut v = vec![0u8; n];
                let top = self.below(n) + 1;
                for b in v.iter_mut().take(top) {
                    *b = self.ebyte();
                }
                v
            }
            3 => {
                let mut v = vec![0u8; n];
                v[0] = self.ebyte();
                v
            }
            4 => {
                let mut v = vec![0xFFu8; n];
                let i = self.below(n);
                v[i] = self.ebyte();
                v
            }
            5 | 6 => (0..n).map(|_| self.byte()).collect(),
            _ => (0..n).map(|_| self.ebyte()).collect(),
        }
    }
}

/// Digits in base 4096, least significant first, of little-endian bytes
pub fn nat_json(bytes: &[u8]) -> String {
    let top = match bytes.iter().rposition(|b| *b != 0) {
        None => return "[]".into(),
        Some(t) => t + 1,
    };
    let bytes = &bytes[..top];
    let mut s = String::with_capacity(top * 4 + 2);
    s.push('[');
    let mut acc = 0u32;
    let mut bits = 0;
    let mut digits: Vec<u32> = Vec::new();
    for b in bytes {
        acc |= (*b as u32) << bits;
        bits += 8;
        if bits >= 12 {
            digits.push(acc & 0xFFF);
            acc >>= 12;
            bits -= 12;
        }
    }
    if acc != 0 {
        digits.push(acc);
    }
    while digits.last() == Some(&0) {
        digits.pop();
    }
    for (i, d) in digits.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(&d.to_string());
    }
    s.push(']');
    s
}

pub fn int_json(neg: bool, bytes: &[u8]) -> String {
    format!("[{},{}]", neg as u8, nat_json(bytes))
}

pub fn words_bytes(words: &[u64]) -> Vec<u8> {
    words.iter().flat_map(|w| w.to_le_bytes()).collect()
}

/// The integer held in `bytes` in two's complement
pub fn twos_json(bytes: &[u8]) -> String {
    if bytes.last().copied().unwrap_or(0) & 0x80 == 0 {
        return int_json(false, bytes);
    }
    let mut v: Vec<u8> = bytes.iter().map(|b| !b).collect();
    for b in v.iter_mut() {
        let (n, c) = b.overflowing_add(1);
        *b = n;
        if !c {
            return int_json(true, &v);
        }
    }
    // the minimum: 2^(8n-1)... only reached when all bytes were zero, which is not negative
    unreachable!()
}

/// Values with a JSON form the specification reads
pub trait J {
    fn j(&self) -> String;
}

macro_rules! prim_j {
    ($($u:ty, $i:ty;)*) => { $(
        impl J for $u { fn j(&self) -> String { int_json(false, &self.to_le_bytes()) } }
        impl J for $i { fn j(&self) -> String { int_json(*self < 0, &self.unsigned_abs().to_le_bytes()) } }
    )* };
}
prim_j! { u8, i8; u16, i16; u32, i32; u64, i64; u128, i128; usize, isize; }

impl J for bool {
    fn j(&self) -> String {
        (*self as u8).to_string()
    }
}
impl J for f64 {
    fn j(&self) -> String {
        let bits = self.to_bits();
        let s = bits >> 63;
        let e = ((bits >> 52) & 0x7FF) as i64;
        let m = bits & ((1 << 52) - 1);
        if e == 0x7FF {
            if m == 0 { format!("[\"inf\",{s}]") } else { "[\"nan\"]".into() }
        } else if e == 0 {
            format!("[\"fin\",{s},{},-1074]", nat_json(&m.to_le_bytes()))
        } else {
            format!("[\"fin\",{s},{},{}]", nat_json(&(m | 1 << 52).to_le_bytes()), e - 1075)
        }
    }
}
impl J for f32 {
    fn j(&self) -> String {
        // Every f32 is exactly representable as f64
        (*self as f64).j()
    }
}
impl<T: J> J for Option<T> {
    fn j(&self) -> String {
        match self {
            Some(v) => ok(&v.j()),
            None => "[\"none\"]".into(),
        }
    }
}
impl<T: J + ?Sized> J for &T {
    fn j(&self) -> String {
        (**self).j()
    }
}
impl<T: J> J for [T] {
    fn j(&self) -> String {
        list(self.iter().map(|v| v.j()))
    }
}
impl<T: J> J for Vec<T> {
    fn j(&self) -> String {
        self[..].j()
    }
}
impl<T: J, const N: usize> J for [T; N] {
    fn j(&self) -> String {
        self[..].j()
    }
}
impl J for std::cmp::Ordering {
    fn j(&self) -> String {
        (*self as i8).to_string()
    }
}

pub fn list(items: impl IntoIterator<Item = String>) -> String {
    let mut s = String::from("[");
    for (i, x) in items.into_iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(&x);
    }
    s.push(']');
    s
}

pub fn codes(s: &str) -> String {
    list(s.chars().map(|c| (c as u32).to_string()))
}

pub fn ok(v: &str) -> String {
    format!("[\"ok\",{v}]")
}

pub const PANIC: &str = "[\"panic\"]";

pub fn attempt<R>(f: impl FnOnce() -> R) -> Option<R> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

/// `["ok", v]`, or `["panic"]` if the closure panics
pub fn outcome(f: impl FnOnce() -> String) -> String {
    match attempt(f) {
        Some(v) => ok(&v),
        None => PANIC.into(),
    }
}

pub fn quiet_panics() {
    if std::env::var_os("VERIF_LOUD").is_none() {
        std::panic::set_hook(Box::new(|_| ()));
    }
}

/// Where recorded cases go: NDJSON shards (each line a batch) for parallel TLC runs
pub struct Sink {
    dir: PathBuf,
    shards: Vec<File>,
    pending: Vec<String>,
    batch: usize,
    next_shard: usize,
    inflight: File,
    seen: HashSet<u64>,
    nontrivial: u64,
    count: u64,
    per_op: BTreeMap<String, u64>,
    samples: Vec<String>,
    beat: Arc<AtomicU64>,
    prefix: String,
}

impl Sink {
    /// `tag` distinguishes the build configurations writing to the same directory
    pub fn new(dir: &Path, shards: usize, batch: usize, tag: &str) -> Sink {
        std::fs::create_dir_all(dir).unwrap();
        let beat = Arc::new(AtomicU64::new(0));
        let limit: u64 = std::env::var("VERIF_CASE_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(20);
        let b = beat.clone();
        std::thread::spawn(move || {
            let mut last = 0;
            let mut same = 0;
            loop {
                std::thread::sleep(Duration::from_millis(500));
                let now = b.load(Ordering::Relaxed);
                // odd: a case is being executed
                if now % 2 == 1 && now == last {
                    same += 1;
                    if same > 2 * limit {
                        std::process::exit(97);
                    }
                } else {
                    same = 0;
                }
                last = now;
            }
        });
        Sink {
            shards: (0..shards)
                .map(|i| File::create(dir.join(format!("{tag}_{i}.ndjson"))).unwrap())
                .collect(),
            pending: Vec::new(),
            batch,
            next_shard: 0,
            inflight: File::create(dir.join(format!("{tag}_inflight"))).unwrap(),
            seen: HashSet::new(),
            nontrivial: 0,
            count: 0,
            per_op: BTreeMap::new(),
            samples: Vec::new(),
            beat,
            dir: dir.to_path_buf(),
            prefix: tag.to_string(),
        }
    }

    pub fn count(&self) -> u64 {
        self.count
    }

    /// Note that a case (whose text so far is `head`) is about to run
    pub fn begin(&mut self, head: &str) {
        self.inflight.seek(SeekFrom::Start(0)).unwrap();
        self.inflight.write_all(head.as_bytes()).unwrap();
        self.inflight.write_all(b"\n").unwrap();
        self.beat.fetch_add(1, Ordering::Relaxed);
    }

    /// The case that was begun is not recorded after all
    pub fn skip(&mut self) {
        self.beat.fetch_add(1, Ordering::Relaxed);
    }

    /// Record a finished case: `head` is `"op",arg,...` and `out` its outcome
    pub fn end(&mut self, head: &str, out: &str) {
        self.beat.fetch_add(1, Ordering::Relaxed);
        self.count += 1;
        let op = head.split(',').next().unwrap_or("").trim_matches('"').to_string();
        let n = self.per_op.entry(op).or_insert(0);
        *n += 1;
        let first = *n == 3;
        let mut h = DefaultHasher::new();
        head.hash(&mut h);
        if self.seen.insert(h.finish()) && nontrivial(head) {
            self.nontrivial += 1;
        }
        let case = format!("[{head},{out}]");
        if first && self.samples.len() < 12 && case.len() < 400 {
            self.samples.push(case.clone());
        }
        self.pending.push(case);
        if self.pending.len() >= self.batch {
            self.flush();
        }
    }

    /// Run a case whose outcome text the closure produces (`["panic"]` if it panics)
    pub fn run(&mut self, head: &str, f: impl FnOnce() -> String) {
        self.begin(head);
        let out = match attempt(f) {
            Some(s) => s,
            None => PANIC.into(),
        };
        self.end(head, &out);
    }

    /// Run a case recorded as `["ok", v]` or `["panic"]`
    pub fn val(&mut self, head: &str, f: impl FnOnce() -> String) {
        self.run(head, || ok(&f()));
    }

    fn flush(&mut self) {
        if self.pending.is_empty() {
            return;
        }
        let line = format!("[{}]\n", self.pending.join(","));
        self.pending.clear();
        self.shards[self.next_shard].write_all(line.as_bytes()).unwrap();
        self.next_shard = (self.next_shard + 1) % self.shards.len();
    }

    /// Write out everything and a summary
    pub fn finish(&mut self) {
        self.flush();
        self.inflight.set_len(0).unwrap();
        let ops = self
            .per_op
            .iter()
            .map(|(k, v)| format!("\"{k}\":{v}"))
            .collect::<Vec<_>>()
            .join(",");
        let text = format!(
            "{{\"evaluations\":{},\"distinct_nontrivial\":{},\"ops\":{{{}}},\"samples\":[{}]}}",
            self.count,
            self.nontrivial,
            ops,
            self.samples.join(",")
        );
        std::fs::write(self.dir.join(format!("{}_stats.json", self.prefix)), text).unwrap();
    }
}

/// Answers of a table that are not values
pub const T_NONE: i64 = 1_000_000;
pub const T_PANIC: i64 = 2_000_000;
pub const T_FLAG: i64 = 4_000_000;
pub const T_SKIP: i64 = 6_000_000;

/// An integer small enough for a table
pub trait Small {
    fn t(self) -> i64;
}
macro_rules! small {
    ($($t:ident),*) => { $( impl Small for $t { fn t(self) -> i64 { self as i64 } } )* };
}
small!(u8, u16, u32, u64, i8, i16, i32, i64, usize, isize);
impl Small for std::cmp::Ordering {
    fn t(self) -> i64 {
        self as i8 as i64
    }
}
impl<T: Small> Small for Option<T> {
    fn t(self) -> i64 {
        self.map_or(T_NONE, |v| v.t())
    }
}
impl<T: Small> Small for (T, bool) {
    fn t(self) -> i64 {
        self.0.t() + if self.1 { T_FLAG } else { 0 }
    }
}

/// The answers for every right operand in `lo..=hi`
pub fn answers(lo: i64, hi: i64, f: impl Fn(i64) -> i64) -> String {
    list((lo..=hi).map(|b| attempt(|| f(b)).unwrap_or(T_PANIC).to_string()))
}

/// What a table is of: policy, operation, type
#[derive(Clone, Copy)]
pub struct Tab<'a> {
    pub pol: &'a str,
    pub op: &'a str,
    pub w: usize,
    pub sg: u8,
}

impl Sink {
    /// Record one row of a table
    pub fn row(&mut self, t: Tab, a: i64, lo: i64, hi: i64, f: impl Fn(i64) -> i64) {
        let head = format!(
            "\"tab\",\"{}\",\"{}\",{},{},{},{a},{lo}",
            t.pol, t.op, cfg!(debug_assertions) as u8, t.w, t.sg
        );
        self.run(&head, || answers(lo, hi, f));
    }
    /// Record the table of all pairs of an eight-bit type
    pub fn pairs(&mut self, pol: &str, op: &str, sg: u8, f: impl Fn(i64, i64) -> i64) {
        let (lo, hi) = if sg == 1 { (-128, 127) } else { (0, 255) };
        for a in lo..=hi {
            self.row(Tab { pol, op, w: 8, sg }, a, lo, hi, |b| f(a, b));
        }
    }
}

/// Some number in the case is not 0, 1 or an empty digit list
fn nontrivial(head: &str) -> bool {
    let mut num = String::new();
    let mut instr = false;
    for c in head.chars().chain(",".chars()) {
        if c == '"' {
            instr = !instr;
        }
        if !instr && c.is_ascii_digit() {
            num.push(c);
        } else {
            if !num.is_empty() && num != "0" && num != "1" {
                return true;
            }
            num.clear();
        }
    }
    false
}

/// Command line of every harness program: PROPERTY SEED SCALE OUTDIR TAG
pub struct Args {
    pub prop: String,
    pub seed: u64,
    /// Multiplies the number of cases: 1 in quick runs
    pub scale: usize,
    pub out: PathBuf,
    pub tag: String,
    pub shards: usize,
}

impl Args {
    pub fn get() -> Args {
        let a: Vec<String> = std::env::args().collect();
        quiet_panics();
        Args {
            prop: a[1].clone(),
            seed: a[2].parse().unwrap(),
            scale: a[3].parse().unwrap(),
            out: PathBuf::from(&a[4]),
            tag: a[5].clone(),
            shards: std::env::var("VERIF_SHARDS").ok().and_then(|s| s.parse().ok()).unwrap_or(8),
        }
    }
    pub fn rng(&self) -> Rng {
        let mut h = DefaultHasher::new();
        self.prop.hash(&mut h);
        Rng::new(self.seed ^ h.finish())
    }
    pub fn sink(&self, batch: usize) -> Sink {
        Sink::new(&self.out, self.shards, batch, &self.tag)
    }
}
