//! C01 and C02 without the hooks: the machine's own schedules. Used only when the instrumented
//! build is not possible.

use numeric_utils::intern::InternId;
use numeric_utils::Interner;
use numeric_verif_harness::*;
use std::sync::{Barrier, Mutex};

fn main() {
    let a = Args::get();
    let extra: Vec<String> = std::env::args().skip(6).collect();
    let shard: u64 = extra[0].parse().unwrap();
    let mut rng = Rng::new(a.rng().next() ^ shard << 32);
    let mut s = Sink::new(&a.out, 1, 20, &format!("{}{shard}", a.tag));
    let (mut runs, mut steps) = (0, 0);
    for _ in 0..60 * a.scale {
        let n = rng.range(1, 3);
        let len = if n == 1 { 150 } else { 6 };
        let cap = *rng.pick(&[0usize, 0, 1, 33, 64]);
        let seeds: Vec<u64> = (0..n).map(|_| rng.next()).collect();
        let head = format!("\"int\",{cap}");
        s.begin(&format!("{head} {seeds:?}"));
        let int: Interner<u64> = if cap == 0 { Interner::new() } else { Interner::with_capacity(cap) };
        let log: Mutex<Vec<String>> = Mutex::new(Vec::new());
        let bar = Barrier::new(n);
        std::thread::scope(|sc| {
            for (t, seed) in seeds.iter().enumerate() {
                let (int, log, bar) = (&int, &log, &bar);
                sc.spawn(move || {
                    let mut r = Rng::new(*seed);
                    let mut held: Vec<usize> = Vec::new();
                    let call = |op: &str, arg: u64, f: &dyn Fn() -> u64| {
                        log.lock().unwrap().push(format!("[\"i\",{t},\"{op}\",{arg}]"));
                        let v = f();
                        log.lock().unwrap().push(format!("[\"r\",{t},{v}]"));
                        v
                    };
                    let id = |i: usize| InternId::from_usize(i);
                    bar.wait();
                    for _ in 0..len {
                        let k = if held.is_empty() { 0 } else { r.below(held.len()) };
                        match r.below(10) {
                            x if x < 4 || held.is_empty() => {
                                let v = r.below(if n == 1 { 60 } else { 4 }) as u64;
                                let i = call("add", v, &|| int.add::<u64, u64>(v).into_usize() as u64);
                                held.push(i as usize);
                            }
                            4 => {
                                let i = held[k];
                                call("dup", i as u64, &|| {
                                    int.incr(id(i));
                                    0
                                });
                                held.push(i);
                            }
                            5 => {
                                let i = held[k];
                                call("get", i as u64, &|| *int.get(id(i)));
                            }
                            6 => {
                                let i = held[k];
                                call("cnt", i as u64, &|| int.refcount(id(i)) as u64);
                            }
                            _ => {
                                let i = held.remove(k);
                                call("rel", i as u64, &|| {
                                    int.decr(id(i));
                                    0
                                });
                            }
                        }
                    }
                });
            }
        });
        let ev = log.into_inner().unwrap();
        runs += 1;
        steps += ev.len();
        s.end(&head, &list(ev));
    }
    s.finish();
    eprintln!("{{\"runs\":{runs},\"steps\":{steps},\"switches\":0}}");
}
