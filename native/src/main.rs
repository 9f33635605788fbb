//! Replays verifier counterexamples on the real code and searches for failing inputs.
use contracts::Entry;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};

mod gen;
mod refs;
use gen::{bits, gen, Rng};

const PANIC: u8 = 255;

fn run(e: &Entry, v: &[u32], panics_ok: bool) -> u8 {
    match catch_unwind(AssertUnwindSafe(|| (e.f)(v))) {
        Ok(r) => r,
        Err(_) if panics_ok => 1,
        Err(_) => PANIC,
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let panics_ok = a.iter().any(|x| x == "--panics-ok");
    let all: Vec<&Entry> = contracts::tables().iter().flat_map(|t| t.iter()).collect();
    match a.get(1).map(|x| x.as_str()) {
        Some("list") => {
            for e in all {
                println!("{} {}", e.name, e.kinds.join(","));
            }
        }
        Some("eval") => {
            let e = all.iter().find(|e| e.name == a[2]).expect("no such contract");
            let v: Vec<u32> = a[3..]
                .iter()
                .filter(|x| !x.starts_with("--"))
                .map(|x| match x.strip_prefix("0x") {
                    Some(h) => u32::from_str_radix(h, 16).expect("hex word"),
                    None => x.parse::<i64>().expect("word") as u32,
                })
                .collect();
            let panics_ok = panics_ok || e.name.ends_with("__panics");
            println!("{}", run(e, &v, panics_ok));
        }
        Some("search") => {
            let e = *all.iter().find(|e| e.name == a[2]).expect("no such contract");
            let panics_ok = panics_ok || e.name.ends_with("__panics");
            let secs: f64 = get("--secs").and_then(|x| x.parse().ok()).unwrap_or(5.0);
            let seed: u64 = get("--seed").and_then(|x| x.parse().ok()).unwrap_or(1);
            let exhaustive = a.iter().any(|x| x == "--exhaustive");
            let total: u32 = e.kinds.iter().map(|k| bits(k)).sum();
            let found: Mutex<Option<(Vec<u32>, u8)>> = Mutex::new(None);
            let stop = AtomicBool::new(false);
            let (tried, held) = (AtomicU64::new(0), AtomicU64::new(0));
            let threads = 8u64;
            let t0 = Instant::now();
            let complete = AtomicBool::new(true);
            if exhaustive && total <= 32 {
                let n: u64 = 1 << total;
                let next = AtomicU64::new(0);
                std::thread::scope(|s| {
                    for _ in 0..threads {
                        s.spawn(|| {
                            let chunk = 1u64 << 18;
                            let (mut t, mut h) = (0u64, 0u64);
                            loop {
                                let c = next.fetch_add(chunk, Relaxed);
                                if c >= n || stop.load(Relaxed) {
                                    break;
                                }
                                if t0.elapsed() > Duration::from_secs_f64(secs) {
                                    complete.store(false, Relaxed);
                                    break;
                                }
                                for i in c..(c + chunk).min(n) {
                                    let mut v = [0u32; 8];
                                    let mut w = i;
                                    for (j, k) in e.kinds.iter().enumerate() {
                                        let b = bits(k);
                                        v[j] = (w & ((1u64 << b) - 1)) as u32;
                                        w >>= b;
                                    }
                                    let r = run(e, &v[..e.kinds.len()], panics_ok);
                                    t += 1;
                                    if r == 1 {
                                        h += 1;
                                    } else if r != 2 {
                                        stop.store(true, Relaxed);
                                        *found.lock().unwrap() = Some((v[..e.kinds.len()].to_vec(), r));
                                        break;
                                    }
                                }
                            }
                            tried.fetch_add(t, Relaxed);
                            held.fetch_add(h, Relaxed);
                        });
                    }
                });
            } else {
                complete.store(false, Relaxed);
                std::thread::scope(|s| {
                    for k in 0..threads {
                        let (found, stop, tried, held) = (&found, &stop, &tried, &held);
                        s.spawn(move || {
                            let mut r = Rng(seed.wrapping_mul(0x1234_5678_9abc_def1).wrapping_add(k));
                            let (mut t, mut h) = (0u64, 0u64);
                            let mut v = vec![];
                            loop {
                                if t & 255 == 0 && (stop.load(Relaxed) || t0.elapsed() > Duration::from_secs_f64(secs)) {
                                    break;
                                }
                                v.clear();
                                let style = r.next() >> 20;
                                for k in e.kinds {
                                    let x = gen(k, &mut r, &v, style);
                                    v.push(x);
                                }
                                let c = run(e, &v, panics_ok);
                                t += 1;
                                if c == 1 {
                                    h += 1;
                                } else if c != 2 {
                                    stop.store(true, Relaxed);
                                    *found.lock().unwrap() = Some((v.clone(), c));
                                    break;
                                }
                            }
                            tried.fetch_add(t, Relaxed);
                            held.fetch_add(h, Relaxed);
                        });
                    }
                });
            }
            let f = found.into_inner().unwrap();
            print!("tried={} held={} complete={} ", tried.load(Relaxed), held.load(Relaxed), complete.load(Relaxed) && f.is_none());
            match f {
                Some((v, c)) => {
                    println!("found={} code={}", v.iter().map(|x| format!("{:#010x}", x)).collect::<Vec<_>>().join(","), c)
                }
                None => println!("found=none"),
            }
        }
        _ => {
            eprintln!("usage: native list | eval VC words... | search VC [--secs S] [--seed N] [--exhaustive] [--panics-ok]");
            std::process::exit(2);
        }
    }
}
