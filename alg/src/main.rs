#[path = "../../harness/ctx_sym.rs"]
mod ctx;
#[path = "../../harness/mod.rs"]
mod harness;
#[path = "../../harness/refmath.rs"]
mod refmath;
pub use harness::*;
use num_bigint::eng;
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let cases = harness::all();
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for c in &cases {
                println!(
                    "{{\"name\":{},\"prop\":{},\"thorough\":{},\"fns\":{},\"bound\":{}}}",
                    js(&c.name),
                    js(c.prop),
                    c.thorough,
                    js(c.fns),
                    js(c.bound)
                );
            }
        }
        Some("run") => {
            let name = &a[2];
            let secs: u64 = a.get(3).and_then(|s| s.parse().ok()).unwrap_or(600);
            let c = cases.iter().find(|c| &c.name == name).expect("no such case");
            if std::env::var("SYM_TRACE").is_err() {
                std::panic::set_hook(Box::new(|_| {}));
            }
            let t0 = Instant::now();
            eng::with(|e| {
                e.deadline = Some(t0 + Duration::from_secs(secs));
                if let Ok(t) = std::env::var("SYM_QMS") {
                    e.timeout_ms = t.parse().unwrap();
                }
                if let Ok(t) = std::env::var("SYM_CHECK_QMS") {
                    e.check_timeout_ms = t.parse().unwrap();
                }
            });
            eng::explore(&*c.run);
            eng::with(|e| {
                let s = e.stats.clone();
                let viols: Vec<String> = e
                    .viols
                    .iter()
                    .map(|v| {
                        format!(
                            "{{\"msg\":{},\"weak\":{},\"model\":{{{}}},\"choices\":[{}]}}",
                            js(&v.msg),
                            v.weak,
                            v.model
                                .iter()
                                .map(|(n, z)| format!("{}:\"{}\"", js(n), z))
                                .collect::<Vec<_>>()
                                .join(","),
                            v.choices
                                .iter()
                                .map(|(n, z)| format!("[{},{}]", js(n), z))
                                .collect::<Vec<_>>()
                                .join(",")
                        )
                    })
                    .collect();
                println!(
                    "{{\"case\":{},\"wall_s\":{:.3},\"paths\":{},\"dead\":{},\"decisions\":{},\"queries\":{},\"simplified\":{},\"witnessed\":{},\"settled\":{},\"confirmed\":{},\"cached\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"checks\":{},\"solver_ms\":{},\"max_query_ms\":{},\"nodes\":{},\"joins\":{},\"reached\":[{}],\"incon\":[{}],\"viols\":[{}]}}",
                    js(name),
                    t0.elapsed().as_secs_f64(),
                    s.paths, s.dead, s.decisions, s.queries, s.simplified, s.witnessed, s.settled, s.confirmed, s.cached, s.sat, s.unsat, s.unknown, s.checks, s.solver_ms, s.max_query_ms, s.nodes, s.joins,
                    e.reached.iter().map(|x| js(x)).collect::<Vec<_>>().join(","),
                    e.incon.iter().map(|x| js(x)).collect::<Vec<_>>().join(","),
                    viols.join(",")
                );
            });
        }
        _ => eprintln!("usage: alg list | run CASE [secs]"),
    }
}
