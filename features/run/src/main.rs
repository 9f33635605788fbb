//! Executes probes in the build of one feature set.
use std::panic::{catch_unwind, AssertUnwindSafe};
#[path = "../../../native/src/gen.rs"]
mod gen;
#[path = "../../../native/src/refs.rs"]
mod refs;

fn run(e: &probes::Entry, v: &[u32]) -> String {
    match catch_unwind(AssertUnwindSafe(|| (e.f)(v))) {
        Ok(r) => format!("{:#x}", r),
        Err(_) => "panic".into(),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let find = |n: &str| probes::tables().find(|e| e.name == n);
    match a.get(1).map(|x| x.as_str()) {
        Some("list") => probes::tables().for_each(|e| println!("{} {}", e.name, e.kinds.join(","))),
        Some("eval") => {
            let v: Vec<u32> = a[3..].iter().map(|x| x.parse::<i64>().expect("word") as u32).collect();
            println!("{}", find(&a[2]).map_or("missing".into(), |e| run(e, &v)));
        }
        // samples: the arguments and the result; the same arguments in every build
        Some("trace") => {
            let n: u64 = a[3].parse().expect("count");
            let seed: u64 = a[4].parse().expect("seed");
            for name in a[2].split(',') {
                let Some(e) = find(name) else { continue };
                let mut r = gen::Rng(seed.wrapping_mul(0x1234_5678_9abc_def1));
                for i in 0..n {
                    let mut v = vec![];
                    if i < 256 && e.kinds == ["u8"] {
                        v.push(i as u32);
                    } else {
                        let style = r.next() >> 20;
                        for (j, k) in e.kinds.iter().enumerate() {
                            // a last `u8` selects a component of the result
                            let x = if *k == "u8" && e.kinds[0] != "u8" && j + 1 == e.kinds.len() { (r.next() % 4) as u32 } else { gen::gen(k, &mut r, &v, style) };
                            v.push(x);
                        }
                    }
                    println!("{} {} {}", name, v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","), run(e, &v));
                }
            }
        }
        _ => std::process::exit(2),
    }
}
