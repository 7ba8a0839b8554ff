//! Runs the contract comparison over all functions, in parallel, then opens
//! private helpers whose contract moved to see whether any caller notices.
use crate::compare::*;
use crate::eval::Ev;
use crate::program::{self, Program};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::sync::{Arc, Barrier, Mutex};

pub struct Outcome {
    pub results: BTreeMap<String, FnResult>,
    /// functions of the reference with no counterpart of the same interface
    pub retired: Vec<String>,
    /// functions only in the current tree
    pub added: Vec<String>,
    pub errors: Vec<String>,
    /// helper -> callers in which it was opened and found equivalent
    pub absorbed: BTreeMap<String, Vec<String>>,
    pub items: Vec<crate::items::ItemDiff>,
    /// function -> where it is now
    pub files: BTreeMap<String, (String, usize)>,
}

fn heads(ev: &mut Ev, f: usize) -> (bool, Vec<CallShape>) {
    let s = summarise(ev, f);
    let mut store = false;
    let mut calls = BTreeSet::new();
    for e in s.effs {
        match e.kind {
            Kind::Store => store = true,
            Kind::Call => {
                let fresh = fresh_receiver(ev.p, &e.term);
                calls.insert((e.head, fresh));
            }
            _ => {}
        }
    }
    (store, calls.into_iter().collect())
}

/// names of functions each function may call (by name, over-approximate)
pub fn call_names(p: &Program) -> HashMap<String, HashSet<String>> {
    let mut m = HashMap::new();
    for f in &p.fns {
        let mut w = HashSet::new();
        words(&f.body_text, &mut w);
        m.insert(f.key.clone(), w.into_iter().filter(|x| p.by_name.contains_key(x)).collect());
    }
    m
}

pub fn run(reference: &Path, repo: &Path, crates: Option<Vec<&'static str>>, threads: usize) -> Outcome {
    let results: Arc<Mutex<BTreeMap<String, FnResult>>> = Default::default();
    let sums: Arc<Mutex<HashMap<String, (bool, Vec<CallShape>)>>> = Default::default();
    let bar = Arc::new(Barrier::new(threads));
    let mut hs = vec![];
    for i in 0..threads {
        let (results, sums, bar) = (results.clone(), sums.clone(), bar.clone());
        let (a, b): (PathBuf, PathBuf) = (reference.into(), repo.into());
        let crates = crates.clone();
        let h = std::thread::Builder::new()
            .stack_size(1 << 30)
            .spawn(move || {
                let r = program::load(&a, crates.as_deref());
                let c = program::load(&b, crates.as_deref());
                let w = World::new(r, c);
                let bd = Rc::new(w.boundary.clone());
                let closed = HashSet::new();
                let none: Rc<dyn Fn(&program::FnInfo) -> bool> = Rc::new(|_| false);
                let n = w.reference.fns.len();
                for f in (0..n).filter(|f| f % threads == i) {
                    let mut ev = Ev::new(&w.reference, none.clone());
                    let h = heads(&mut ev, f);
                    sums.lock().unwrap().insert(w.reference.fns[f].key.clone(), h);
                }
                let nc = w.current.fns.len();
                for f in (0..nc).filter(|f| f % threads == i && !w.boundary.contains(&w.current.fns[*f].key)) {
                    let mut ev = Ev::new(&w.current, none.clone());
                    let h = heads(&mut ev, f);
                    sums.lock().unwrap().entry(w.current.fns[f].key.clone()).or_insert(h);
                }
                bar.wait();
                let eff = {
                    let s = sums.lock().unwrap().clone();
                    effectful_names(&w.reference, &s)
                };
                let vocab = Vocab::of(&w.reference);
                for f in (0..n).filter(|f| f % threads == i) {
                    let key = w.reference.fns[f].key.clone();
                    if !w.boundary.contains(&key) {
                        continue;
                    }
                    let cf = w.cur_idx[&key];
                    let x = compare_fn(&w, &key, f, cf, &bd, &closed, &vocab, &eff);
                    results.lock().unwrap().insert(key, x);
                }
            })
            .unwrap();
        hs.push(h);
    }
    let mut errors = vec![];
    for h in hs {
        if h.join().is_err() {
            errors.push("analysis thread failed".into());
        }
    }
    let mut results = results.lock().unwrap().clone();
    let sums = sums.lock().unwrap().clone();
    // --- opening ---
    let r = program::load(reference, crates.as_deref());
    let c = program::load(repo, crates.as_deref());
    errors.extend(r.errors.iter().map(|e| format!("reference: {}", e)));
    errors.extend(c.errors.iter().map(|e| format!("current: {}", e)));
    let w = World::new(r, c);
    let retired: Vec<String> =
        w.reference.fns.iter().filter(|f| !w.boundary.contains(&f.key)).map(|f| f.key.clone()).collect();
    let added: Vec<String> =
        w.current.fns.iter().filter(|f| !w.boundary.contains(&f.key)).map(|f| f.key.clone()).collect();
    let eff = effectful_names(&w.reference, &sums);
    let vocab = Vocab::of(&w.reference);
    let calls = call_names(&w.current);
    let mut absorbed: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let bd = Rc::new(w.boundary.clone());
    let rix: HashMap<String, usize> = w.reference.fns.iter().enumerate().map(|(i, f)| (f.key.clone(), i)).collect();
    let openable = |k: &str| -> bool {
        let f = &w.current.fns[w.cur_idx[k]];
        !f.is_pub && f.trait_.is_none() && !calls[k].contains(&f.name)
    };
    let changed: Vec<String> =
        results.iter().filter(|(_, v)| !v.diffs.is_empty() || v.inconclusive.is_some()).map(|(k, _)| k.clone()).collect();
    let mut open: HashSet<String> = changed.iter().filter(|k| openable(k)).cloned().collect();
    if !open.is_empty() {
        for _ in 0..4 {
            let names: HashSet<String> =
                open.iter().map(|k| w.current.fns[w.cur_idx[k]].name.clone()).collect();
            let mut opened: BTreeMap<String, FnResult> = BTreeMap::new();
            for (k, ws) in &calls {
                if !w.boundary.contains(k) || ws.is_disjoint(&names) {
                    continue;
                }
                opened.insert(k.clone(), compare_fn(&w, k, rix[k], w.cur_idx[k], &bd, &open, &vocab, &eff));
            }
            // which callers changed through an opened helper
            let mut next = open.clone();
            for (k, v) in &opened {
                if (!v.diffs.is_empty() || v.inconclusive.is_some()) && openable(k) {
                    next.insert(k.clone());
                }
            }
            let grew = next.len() > open.len();
            open = next;
            if grew {
                continue;
            }
            for h in open.clone() {
                let callers: Vec<&String> =
                    opened.iter().filter(|(_, v)| v.inlined.contains(&h)).map(|(k, _)| k).collect();
                if callers.is_empty() {
                    continue; // unused or never opened: its own contract decides
                }
                // what differed in the helper must still be visible in some caller
                let visible = results.get(&h).is_none_or(|x| {
                    x.diffs.iter().all(|d| {
                        d.head.is_empty()
                            || !x.heads.contains(&d.head)
                            || matches!(d.kind, Kind::Return | Kind::Panic)
                            || callers.iter().any(|k| opened[*k].heads.contains(&d.head))
                    })
                });
                if visible && callers.iter().all(|k| opened[*k].diffs.is_empty() && opened[*k].inconclusive.is_none()) {
                    absorbed.insert(h.clone(), callers.iter().map(|s| s.to_string()).collect());
                    if let Some(x) = results.get_mut(&h) {
                        x.diffs.clear();
                        x.inconclusive = None;
                    }
                    for k in callers {
                        if !open.contains(k) {
                            if let Some(x) = results.get_mut(k) {
                                x.diffs.clear();
                                x.inconclusive = None;
                            }
                        }
                    }
                }
            }
            break;
        }
    }
    // --- trait methods that stopped, or started, overriding the trait's default ---
    let head = |t: &str| t.split('<').next().unwrap_or(t).to_string();
    let closed = HashSet::new();
    let default_of = |p: &Program, f: &program::FnInfo| -> Option<usize> {
        let t = head(f.trait_.as_ref()?);
        p.fns.iter().position(|d| {
            d.trait_.as_deref() == Some("default") && d.self_ty.as_deref() == Some(t.as_str()) && d.name == f.name
        })
    };
    for (i, f) in w.reference.fns.iter().enumerate() {
        if w.boundary.contains(&f.key) || f.trait_.is_none() || f.trait_.as_deref() == Some("default") {
            continue;
        }
        if let (Some(d), Some(st)) = (default_of(&w.current, f), &f.self_ty) {
            if w.current.structs.contains_key(st) || w.current.enums.contains_key(st) {
                let mut x = compare_fn(&w, &f.key, i, d, &bd, &closed, &vocab, &eff);
                for e in x.diffs.iter_mut() {
                    e.detail = format!("override of {} is gone, the default applies: {}", f.id(), e.detail);
                }
                results.insert(f.key.clone(), x);
            }
        }
    }
    for (i, f) in w.current.fns.iter().enumerate() {
        if w.boundary.contains(&f.key) || f.trait_.is_none() || f.trait_.as_deref() == Some("default") {
            continue;
        }
        if let (Some(d), Some(st)) = (default_of(&w.reference, f), &f.self_ty) {
            if w.reference.structs.contains_key(st) || w.reference.enums.contains_key(st) {
                let mut x = compare_fn(&w, &f.key, d, i, &bd, &closed, &vocab, &eff);
                for e in x.diffs.iter_mut() {
                    e.detail = format!("{} now overrides the default: {}", f.id(), e.detail);
                }
                results.insert(f.key.clone(), x);
            }
        }
    }
    let items = crate::items::diff(&w.reference, &w.current);
    let mut files: BTreeMap<String, (String, usize)> = BTreeMap::new();
    for f in w.reference.fns.iter().chain(w.current.fns.iter()) {
        files.insert(f.key.clone(), (f.file.clone(), f.line));
    }
    Outcome { results, retired, added, errors, absorbed, items, files }
}
