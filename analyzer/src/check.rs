//! `check <property>`: runs the analyses a property needs and reports.
use crate::driver::{self, Outcome};
use crate::props::{self, Prop};
use serde_json::{json, Value};
use std::collections::BTreeSet;
use std::io::Write as _;
use std::path::{PathBuf};
use std::time::Instant;

#[derive(Clone, Debug)]
pub struct Finding {
    /// stable identity (no line numbers)
    pub id: String,
    pub place: String,
    pub text: String,
}

fn verif() -> PathBuf {
    std::env::var("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|_| "/verif".into())
}
fn repo() -> PathBuf {
    std::env::var("VERIF_REPO").map(PathBuf::from).unwrap_or_else(|_| "/repo".into())
}

fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        s.chars().take(n).collect::<String>() + "…"
    }
}

/// findings of the contract comparison in the property's scope
fn contract(p: &Prop, o: &Outcome) -> (Vec<Finding>, Value, usize) {
    let mut out = vec![];
    let mut fns = 0usize;
    let mut effects = 0usize;
    let mut inconclusive = vec![];
    let mut samples: Vec<Value> = vec![];
    for (k, r) in &o.results {
        let (file, line) = o.files.get(k).cloned().unwrap_or_default();
        if !p.selects(&file, k) {
            continue;
        }
        fns += 1;
        effects += r.effects;
        if samples.len() < 5 && r.effects > 3 {
            samples.push(json!({"function": k, "at": format!("{}:{}", file, line), "effects": r.effects}));
        }
        if let Some(x) = &r.inconclusive {
            inconclusive.push(json!({"function": k, "reason": clip(x, 300)}));
        }
        for d in &r.diffs {
            let text = format!("{} {}", d.key, d.detail);
            if !p.counts(&text) {
                continue;
            }
            // a crash that can no longer happen is no violation of "never crashes"
            if p.id == "P47" && (d.what == "missing" || !d.key.starts_with("Panic") || d.detail.contains("no longer when") && !d.detail.contains("now also when")) {
                continue;
            }
            out.push(Finding {
                id: format!("{} {} {}", k, d.what, clip(&d.key, 300)),
                place: format!("{}:{}", d.file, d.line),
                text: format!("{}: {} {}", d.what, clip(&d.key, 600), clip(&d.detail, 600)),
            });
        }
    }
    for i in &o.items {
        if p.selects(&i.file, &i.name) && p.counts(&i.what) {
            out.push(Finding {
                id: format!("{} {}", i.name, i.what),
                place: i.file.clone(),
                text: format!("declaration {}: {}", i.name, i.what),
            });
        }
    }
    let inlined: BTreeSet<&String> = o
        .results
        .iter()
        .filter(|(k, _)| p.selects(&o.files.get(*k).cloned().unwrap_or_default().0, k))
        .flat_map(|(_, r)| r.inlined.iter())
        .collect();
    let v = json!({
        "functions_compared": fns,
        "observable_effects_compared": effects,
        "functions_inlined": inlined.len(),
        "helpers_opened_and_absorbed": o.absorbed.len(),
        "retired_functions": o.retired,
        "new_functions": o.added,
        "inconclusive": inconclusive,
        "samples": samples,
    });
    (out, v, fns)
}

fn known(p: &str) -> BTreeSet<String> {
    let f = verif().join("known_findings.txt");
    let t = std::fs::read_to_string(f).unwrap_or_default();
    t.lines()
        .filter_map(|l| l.strip_prefix(&format!("known: property={} ", p)).map(|x| x.trim().to_string()))
        .collect()
}

pub fn main(args: &[String]) -> i32 {
    let Some(id) = args.first() else {
        eprintln!("check <property>");
        return 2;
    };
    let Some(p) = props::find(id) else {
        eprintln!("unknown property {}", id);
        return 2;
    };
    let t0 = Instant::now();
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let o = driver::run(&verif().join("reference"), &repo(), None, 8);
    let mut findings = vec![];
    // fail closed: sources that cannot be read or parsed decide nothing
    for e in &o.errors {
        findings.push(Finding { id: format!("unreadable {}", e), place: String::new(), text: format!("cannot analyse: {}", e) });
    }
    let (f, cov, nf) = contract(p, &o);
    findings.extend(f);
    let mut rule_cov = vec![];
    let prog = crate::program::load(&repo(), None);
    for r in crate::rules::run(p.id, &prog) {
        rule_cov.push(json!({"rule": r.rule, "obligations": r.obligations, "failures": r.failures.len(), "not_decided": r.skipped}));
        for (id, place, text) in r.failures {
            findings.push(Finding { id: format!("rule {}", id), place, text });
        }
    }
    let floor = if nf == 0 { Some("no function of this property's scope was found in the sources") } else { None };
    if let Some(x) = floor {
        findings.push(Finding { id: "empty scope".into(), place: String::new(), text: x.into() });
    }
    findings.sort_by(|a, b| a.id.cmp(&b.id));
    findings.dedup_by(|a, b| a.id == b.id);
    let kn = known(p.id);
    let (old, new): (Vec<Finding>, Vec<Finding>) = findings.into_iter().partition(|f| kn.contains(&f.id));
    let evdir = verif().join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    let ev = json!({
        "property": p.id,
        "tier": if tier == "thorough" { "thorough" } else { "quick" },
        "seed": seed,
        "level": "other",
        "coverage": {
            "explanation": format!("{}. Every function of the scope in the current tree is summarised and compared; a difference in an observable effect, its arguments, its condition, its loop or its order is a violation.", p.technique),
            "scope": p.scope,
            "contracts": cov,
            "structural_rules": rule_cov,
            "violations_found": new.iter().map(|f| json!({"id": f.id, "at": f.place, "what": f.text})).collect::<Vec<_>>(),
            "known_findings": old.iter().map(|f| f.id.clone()).collect::<Vec<_>>(),
        },
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": new.len(),
        "assumptions": ["the reviewed reference contracts in /verif/reference state the intended behaviour",
            "calls into other crates outside this workspace behave as their documentation says"],
    });
    if let Err(e) = std::fs::write(evdir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap()) {
        eprintln!("cannot write evidence: {}", e);
        return 2;
    }
    for f in &old {
        println!("KNOWN-FINDING: property={} {}", p.id, f.text);
    }
    if new.is_empty() {
        println!(
            "ok property={} functions={} effects={} {:.1}s",
            p.id, ev["coverage"]["contracts"]["functions_compared"], ev["coverage"]["contracts"]["observable_effects_compared"],
            t0.elapsed().as_secs_f64()
        );
        return 0;
    }
    let rdir = verif().join("replay");
    let _ = std::fs::create_dir_all(&rdir);
    let rp = rdir.join(format!("{}.txt", p.id));
    let mut body = format!("property {}\nreproduce: cd /verif && ./check {}\n\n", p.id, p.id);
    for f in &new {
        body += &format!("{}\n  at {}\n  {}\n\n", f.id, f.place, f.text);
    }
    if let Ok(mut h) = std::fs::File::create(&rp) {
        let _ = h.write_all(body.as_bytes());
    }
    for f in new.iter().take(20) {
        println!("  {} [{}] {}", f.place, clip(&f.id, 120), clip(&f.text, 300));
    }
    println!("VIOLATION property={} replay={}", p.id, rp.display());
    1
}

/// writes MANIFEST.json from the property table and properties.jsonl
pub fn manifest() -> i32 {
    let declined: Value =
        serde_json::from_str(&std::fs::read_to_string(verif().join("not_applicable.json")).unwrap_or("[]".into())).unwrap();
    let checks: Vec<Value> = props::PROPS
        .iter()
        .map(|p| {
            json!({
                "property": p.id,
                "quick_cmd": format!("./check {}", p.id),
                "thorough_cmd": format!("./check {}", p.id),
                "technique": format!("static analysis: {}", p.technique),
                "level": "other",
                "level_note": if p.note.is_empty() { "Sound up to the engine's model for the functions listed as compared; constructs the engine does not model are listed as inconclusive in the evidence and not decided." } else { p.note },
            })
        })
        .collect();
    let m = json!({
        "version": 1,
        "setup_cmd": "cd analyzer && cargo +stable build --release --offline",
        "checks": checks,
        "not_applicable": declined,
    });
    std::fs::write(verif().join("MANIFEST.json"), serde_json::to_string_pretty(&m).unwrap() + "\n").unwrap();
    0
}
