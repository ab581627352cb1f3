#[path = "../../harness/ctx_native.rs"]
mod ctx;
#[path = "../../harness/mod.rs"]
mod harness;
#[path = "../../harness/refmath.rs"]
mod refmath;
use ctx::{Stop, with};
pub use harness::*;
use num_bigint::BigInt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

enum Out {
    Pass,
    Skip,
    Viol(String),
    Fact(String),
}
fn once(c: &Case) -> Out {
    with(|n| {
        n.cpos = 0;
        n.rec.clear();
        n.crec.clear();
    });
    match catch_unwind(AssertUnwindSafe(|| (c.run)())) {
        Ok(()) => Out::Pass,
        Err(p) => match p.downcast::<Stop>() {
            Ok(s) => match *s {
                Stop::Skip => Out::Skip,
                Stop::Violation(m) => Out::Viol(m),
                Stop::Fact(m) => Out::Fact(m),
            },
            Err(p) => Out::Viol(format!(
                "panic: {}",
                p.downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default()
            )),
        },
    }
}
fn dump() -> String {
    with(|n| {
        let mut s = String::new();
        for (k, v) in &n.rec {
            s += &format!("int {} {}\n", k, v);
        }
        for (k, v) in &n.crec {
            s += &format!("choice {} {}\n", k, v);
        }
        s
    })
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let cases = harness::all();
    let find = |n: &str| cases.iter().find(|c| c.name == n).expect("no such case");
    if std::env::var("SHOW_PANIC").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    match a.get(1).map(|s| s.as_str()) {
        // run CASE MODEL-FILE
        Some("run") => {
            let c = find(&a[2]);
            let t = std::fs::read_to_string(&a[3]).unwrap();
            with(|n| {
                for l in t.lines() {
                    let w: Vec<&str> = l.split_whitespace().collect();
                    if w.len() == 3 && w[0] == "int" {
                        n.model.insert(w[1].into(), w[2].parse::<BigInt>().unwrap());
                    }
                    if w.len() == 3 && w[0] == "choice" {
                        n.choices.push(w[2].parse().unwrap());
                    }
                }
            });
            match once(c) {
                Out::Pass => println!("PASS"),
                Out::Skip => println!("SKIP"),
                Out::Viol(m) => {
                    println!("VIOLATED {}", m.replace('\n', " "));
                    print!("{}", dump());
                    std::process::exit(1)
                }
                Out::Fact(m) => {
                    println!("FACT {}", m);
                    std::process::exit(3)
                }
            }
        }
        // rand CASE N SEED SECS: random inputs from the assumed domain
        Some("rand") => {
            let c = find(&a[2]);
            let n: u64 = a[3].parse().unwrap();
            let seed: u64 = a[4].parse().unwrap();
            let secs: u64 = a[5].parse().unwrap();
            let t0 = Instant::now();
            let (mut pass, mut skip) = (0u64, 0u64);
            for i in 0..n {
                if t0.elapsed() > Duration::from_secs(secs) {
                    break;
                }
                with(|x| {
                    x.random = true;
                    x.seed = seed.wrapping_mul(0x1000003).wrapping_add(i.wrapping_mul(0x9E3779B97F4A7C15));
                });
                match once(c) {
                    Out::Pass => pass += 1,
                    Out::Skip => skip += 1,
                    Out::Viol(m) => {
                        println!("VIOLATED {}", m.replace('\n', " "));
                        print!("{}", dump());
                        std::process::exit(1)
                    }
                    Out::Fact(m) => {
                        println!("FACT {}", m);
                        print!("{}", dump());
                        std::process::exit(3)
                    }
                }
            }
            println!("PASS {} SKIP {} CHECKS {}", pass, skip, with(|n| n.checks));
        }
        _ => eprintln!("usage: replay run CASE MODEL | rand CASE N SEED SECS"),
    }
}
