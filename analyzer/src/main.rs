mod bdd;
mod calls;
mod canon;
mod compare;
mod driver;
mod check;
mod eval;
mod expr;
mod grammar;
mod items;
mod macros;
mod pat;
mod program;
mod props;
mod rules;
mod term;

use eval::*;
use std::path::Path;
use std::rc::Rc;

fn main() {
    let h = std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap();
    std::process::exit(h.join().unwrap_or(3));
}

fn real_main() -> i32 {
    let args: Vec<String> = std::env::args().skip(1).collect();
    match args.first().map(|s| s.as_str()) {
        Some("dump") => {
            let repo = args.get(3).cloned().unwrap_or("/repo".into());
            let p = program::load(Path::new(&repo), Some(&[args[1].as_str()]));
            let mut ev = Ev::new(&p, Rc::new(|f| !f.is_pub));
            for (i, f) in p.fns.iter().enumerate() {
                if args[2] == "*" || f.name == args[2] || f.id() == args[2] {
                    println!("== {} {}:{}", f.id(), f.file, f.line);
                    ev.run_root(i);
                    let n = ev.effects.len();
                    for k in 0..n {
                        let e = ev.effects[k].clone();
                        let t = ev.show(e.term);
                        let g = ev.b.text(e.guard);
                        let ls: Vec<String> = e
                            .loops
                            .iter()
                            .map(|&l| {
                                let its = ev.loops[l].iters.clone();
                                let u = ev.loops[l].until;
                                let a = its.iter().map(|&x| ev.show(x).to_string()).collect::<Vec<_>>().join("*");
                                let u = if u == 0 { String::new() } else { format!(" until {}", ev.b.text(u)) };
                                format!("{}{}", a, u)
                            })
                            .collect();
                        println!("  {:?}@{} {} \n      FOR {:?}\n      IF {}", e.kind, e.line, t, ls, g);
                    }
                    println!("  steps {} truncated {} nodes {}", ev.steps, ev.truncated, ev.b.node_count());
                }
            }
            0
        }
        Some("diff") => {
            let a = args[1].clone();
            let b = args.get(2).cloned().unwrap_or("/repo".into());
            let names = std::env::var("CS_CRATES").unwrap_or_default();
            let only: Option<Vec<&'static str>> = if names.is_empty() {
                None
            } else {
                Some(names.split(',').map(|x| &*Box::leak(x.to_string().into_boxed_str())).collect())
            };
            let th = std::env::var("CS_THREADS").ok().and_then(|x| x.parse().ok()).unwrap_or(8);
            let o = driver::run(Path::new(&a), Path::new(&b), only, th);
            for e in &o.errors {
                println!("ERR {}", e);
            }
            println!("functions {} retired {:?} added {:?} absorbed {:?}", o.results.len(), o.retired, o.added, o.absorbed);
            for i in &o.items {
                println!("! {} {} {}", i.file, i.name, i.what);
            }
            for (k, v) in &o.results {
                if let Some(x) = &v.inconclusive {
                    println!("? {} {}", k, x);
                }
                for d in &v.diffs {
                    let s = |x: &str| x.chars().take(std::env::var("CS_CLIP").ok().and_then(|x| x.parse().ok()).unwrap_or(400)).collect::<String>();
                    println!("! {} {} @{} {}\n      {}", k, d.what, d.line, s(&d.key), s(&d.detail));
                }
            }
            0
        }
        Some("rules") => {
            let repo = args.get(1).cloned().unwrap_or_else(|| "/repo".into());
            let p = program::load(std::path::Path::new(&repo), None);
            for pr in props::PROPS {
                for r in rules::run(pr.id, &p) {
                    println!("{} {} obligations, {} failures{} — {}", pr.id, r.obligations, r.failures.len(), r.skipped.map(|s| format!(" (skipped: {s})")).unwrap_or_default(), r.rule);
                    for (id, at, t) in r.failures {
                        println!("    [{id}] {at}: {t}");
                    }
                }
            }
            0
        }
        Some("stats") => {
            let repo = args.get(2).cloned().unwrap_or("/repo".into());
            let p = program::load(Path::new(&repo), None);
            for e in &p.errors {
                println!("ERR {}", e);
            }
            for i in 0..p.fns.len() {
                let mut ev = Ev::new(&p, Rc::new(|_| false));
                let t0 = std::time::Instant::now();
                if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ev.run_root(i))).is_err() {
                    println!("PANIC {}", p.fns[i].id());
                }
                println!(
                    "{} eff={} steps={} trunc={} nodes={} ms={}",
                    p.fns[i].id(), ev.effects.len(), ev.steps, ev.truncated, ev.b.node_count(), t0.elapsed().as_millis()
                );
            }
            0
        }
        Some("check") => check::main(&args[1..]),
        Some("manifest") => check::manifest(),
        _ => {
            eprintln!("usage");
            0
        }
    }
}
