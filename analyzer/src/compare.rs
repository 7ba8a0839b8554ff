//! Guarded-effect contracts: the summary of each function of the current tree
//! against the summary of the same function in the reviewed reference.
use crate::bdd::{Bdd, Bid, F};
use crate::eval::*;
use crate::program::{FnInfo, Program};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use crate::term::Tid;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Kind {
    Call,
    Store,
    Return,
    Panic,
}

#[derive(Clone, Debug)]
pub struct Eff {
    pub kind: Kind,
    pub head: String,
    pub term: String,
    pub loops: String,
    pub untils: Vec<Bid>,
    pub guard: Bid,
    /// when it happens more than once
    pub twice: Bid,
    pub line: usize,
    pub ord: usize,
    pub file: String,
}
impl Eff {
    pub fn key(&self) -> String {
        if self.loops.is_empty() {
            format!("{:?} {}", self.kind, self.term)
        } else {
            format!("{:?} {} for {}", self.kind, self.term, self.loops)
        }
    }
}

pub struct Summary {
    pub effs: Vec<Eff>,
    pub truncated: bool,
    pub inlined: BTreeSet<String>,
    pub steps: usize,
}

#[derive(Clone, Debug)]
pub struct Diff {
    pub what: &'static str,
    pub kind: Kind,
    pub head: String,
    pub key: String,
    pub line: usize,
    pub file: String,
    pub detail: String,
    /// the difference involves a construct the engine does not model
    pub novel: bool,
}

#[derive(Clone, Debug, Default)]
pub struct FnResult {
    pub key: String,
    pub effects: usize,
    pub diffs: Vec<Diff>,
    pub inconclusive: Option<String>,
    pub inlined: BTreeSet<String>,
    pub opened: BTreeSet<String>,
    pub ref_lines: BTreeSet<(usize, String)>,
    pub cur_lines: BTreeSet<(usize, String)>,
    pub heads: BTreeSet<String>,
}

/// library calls whose execution is observable although the result is not used
const IMPURE_STD: &[&str] = &[
    "push", "push_str", "insert", "remove", "extend", "write", "write_all", "write!", "writeln!", "create_dir",
    "create_dir_all", "write_fmt", "flush", "send", "set", "emit", "accumulate", "read_to_string", "exit",
    "process::exit", "fs::write", "fs::create_dir", "fs::create_dir_all", "fs::read_to_string", "print!", "eprint!",
    "clear", "truncate", "pop", "drain", "retain", "sort", "sort_by", "sort_by_key", "sort_unstable", "dedup",
    "append", "swap", "reverse",
    // stateful libraries: channels, constraint evaluators, commitment trees, readers, cursors
    "mix_u32s", "mix_u64", "mix_felts", "mix_root", "draw_felt", "draw_felts", "finalize_logup", "finalize_logup_in_pairs",
    "finalize_logup_batched", "add_to_relation", "add_constraint", "next_trace_mask", "next_interaction_mask",
    "get_preprocessed_column", "add_intermediate", "extend_evals", "extend_blocks", "commit", "resize", "read_exact", "read_line",
    "advance_by", "extend_from_slice", "fill", "copy_from_slice", "push_front", "push_back", "pop_front", "pop_back", "set_entry",
    "write_frac", "finalize_col", "finalize_last", "fetch_add", "store", "prove_values", "verify_values", "save", "start_cell", "finalize_cell",
];
/// diagnostics of the tool itself, not of the program being compiled
const LOG: &[&str] = &[
    "debug!", "trace!", "info!", "warn!", "error!", "tracing::debug!", "tracing::info!", "tracing::warn!",
    "tracing::error!", "tracing::trace!", "log::debug!", "event!", "span!", "instrument", "eprint!", "eprintln!",
    "tracing::span!", "enter",
];
/// library adapters that change which elements or values flow: never a mere rewriting
const SEMANTIC: &[&str] = &[
    "saturating_sub", "saturating_add", "wrapping_add", "wrapping_sub", "skip", "take", "step_by", "dedup",
    "truncate", "pop", "skip_while", "take_while", "to_lowercase", "to_uppercase", "trim", "sort", "sort_by",
    "reverse", "checked_add", "checked_sub", "abs", "min", "max", "unwrap_or_default", "nth", "last", "first", "clamp",
    "saturating_mul", "wrapping_mul", "rem_euclid", "trim_end", "trim_start", "swap", "starts_with", "ends_with",
    "pow", "len", "is_empty", "chars", "contains", "count_ones", "leading_zeros", "trailing_zeros", "is_ascii",
    "is_ascii_digit", "is_alphabetic", "is_alphanumeric", "is_ascii_alphanumeric", "is_ascii_alphabetic", "is_numeric", "is_uppercase", "is_lowercase",
    "strip_prefix", "strip_suffix", "replace", "replacen", "split", "splitn", "rsplit", "rsplitn", "split_once", "rsplit_once", "lines", "eq_ignore_ascii_case",
    "to_ascii_lowercase", "to_ascii_uppercase", "is_dir", "is_file", "exists", "is_symlink", "metadata", "symlink_metadata", "try_exists", "canonicalize",
    "count", "sum", "product", "position", "rposition", "max_by_key", "min_by_key", "partition", "retain", "clear", "remove", "drain", "swap_remove", "or_insert",
    "or_insert_with", "or_default", "unwrap_or", "sort_unstable", "sort_by_key", "sort_unstable_by_key", "dedup_by_key", "chunks", "windows", "split_at", "split_first", "split_last",
    "overflowing_add", "overflowing_sub", "overflowing_mul", "wrapping_neg", "checked_mul", "checked_div", "saturating_pow", "wrapping_shl", "wrapping_shr", "abs_diff",
    "reverse_bits", "swap_bytes", "to_be_bytes", "to_le_bytes", "from_be_bytes", "from_le_bytes", "to_be", "from_be", "ilog2", "isqrt", "signum", "is_power_of_two",
    "MAX", "MIN", "BITS", "i32", "i64", "u8", "u16", "u64", "u128", "usize", "from_str_lossy", "from_utf8_lossy", "to_string_lossy", "kind", "ErrorKind", "NotFound",
    "InvalidData", "PermissionDenied", "AlreadyExists", "Interrupted", "is_ok", "is_err", "is_some", "is_none", "Less", "Greater", "Equal", "cmp", "partial_cmp",
];

pub fn head_of(term: &str) -> String {
    let i = term.find(|c: char| c == '(' || c == '{' || c == '[').unwrap_or(term.len());
    term[..i].to_string()
}

pub struct Policy {
    /// functions present with the same interface in both trees: kept closed
    pub boundary: HashSet<String>,
    /// functions opened in both trees
    pub open: HashSet<String>,
}

pub fn summarise<'p>(ev: &mut Ev<'p>, f: usize) -> Summary {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ev.run_root(f)));
    if r.is_err() {
        return Summary { effs: vec![], truncated: true, inlined: BTreeSet::new(), steps: 0 };
    }
    let mut m: BTreeMap<(Kind, String, String), Eff> = BTreeMap::new();
    let mut flat: Vec<(usize, Effect)> = vec![];
    for k in 0..ev.effects.len() {
        let mut e = ev.effects[k].clone();
        // an iteration exists only when the source is not empty
        let its: Vec<Tid> = e.loops.iter().flat_map(|&l| ev.loops[l].iters.clone()).collect();
        for &it in &its {
            let (src, from) = ev.loop_src(it);
            e.guard = ev.b.and(e.guard, from);
            let ne = ev.long_enough(src, e.guard);
            if !ev.mentions_elem(ne, &its) {
                e.guard = ev.b.and(e.guard, ne);
            }
        }
        let alts = ev.canon(e.term);
        let many = alts.len() > 1;
        for (g, t) in alts {
            let guard = ev.b.and(e.guard, g);
            if guard == F || (many && ev.b.unsat(guard)) {
                continue;
            }
            flat.push((k, Effect { term: t, guard, ..e.clone() }));
        }
    }
    for (k, e) in flat {
        let term = ev.show(e.term).to_string();
        let mut e = e;
        // "the first element such that c: effect, leave" where the effect does not
        // mention the element is the effect under "some element such that c"
        while let Some(&l) = e.loops.last() {
            let its = ev.loops[l].iters.clone();
            let until = ev.loops[l].until;
            if until == F || its.len() != 1 || matches!(e.kind, EffKind::Return) {
                break;
            }
            let bases = ev.elem_bases(its[0]);
            if bases.iter().any(|b| free_elem(&term, b)) || term.contains("lv(") {
                break;
            }
            // guard = outer & until
            let sup = ev.b.support(e.guard);
            let dep: BTreeSet<u32> = sup
                .into_iter()
                .filter(|v| {
                    let s = ev.b.atoms[*v as usize].show();
                    bases.iter().any(|b| free_elem(&s, b)) || s.contains("lv(")
                })
                .collect();
            let outer = ev.b.exists(e.guard, &dep);
            let both = ev.b.and(outer, until);
            if !ev.b.equiv(both, e.guard) {
                break;
            }
            e.guard = ev.exists_over(&its, e.guard);
            e.loops.pop();
        }
        let mut ls = vec![];
        let mut us = vec![];
        for &l in &e.loops {
            let its = ev.loops[l].iters.clone();
            let mut names = vec![];
            for x in its {
                let (x, _) = ev.loop_src(x);
                names.push(ev.show(x).to_string());
            }
            ls.push(names.join("*"));
            us.push(ev.loops[l].until);
        }
        let loops = ls.join(" for ");
        let kind = match e.kind {
            EffKind::Call => Kind::Call,
            EffKind::Store => Kind::Store,
            EffKind::Return => Kind::Return,
            EffKind::Panic => Kind::Panic,
        };
        let file = ev.p.fns[e.func].file.clone();
        match m.entry((kind, term.clone(), loops.clone())) {
            std::collections::btree_map::Entry::Vacant(v) => {
                v.insert(Eff { kind, head: head_of(&term), term, loops, untils: us, guard: e.guard, twice: F, line: e.line, ord: k, file });
            }
            std::collections::btree_map::Entry::Occupied(mut o) => {
                let g = ev.b.or(o.get().guard, e.guard);
                let both = ev.b.and(o.get().guard, e.guard);
                let both = ev.b.or(o.get().twice, both);
                let x = o.get_mut();
                x.guard = g;
                x.twice = both;
                for (a, b) in x.untils.iter_mut().zip(us) {
                    if *a != b {
                        *a = ev.b.or(*a, b);
                    }
                }
            }
        }
    }
    let mut effs: Vec<Eff> = m.into_values().collect();
    effs.sort_by_key(|e| e.ord);
    Summary {
        effs,
        truncated: ev.truncated,
        inlined: ev.inlined.iter().map(|&i| ev.p.fns[i].key.clone()).collect(),
        steps: ev.steps,
    }
}

pub fn words(s: &str, out: &mut HashSet<String>) {
    let mut cur = String::new();
    let mut q = false;
    let mut prev = ' ';
    for c in s.chars() {
        if c == '"' && prev != '\\' {
            q = !q;
        }
        prev = c;
        if q {
            continue;
        }
        if c.is_alphanumeric() || c == '_' || (c == '!' && !cur.is_empty()) {
            cur.push(c);
        } else if !cur.is_empty() {
            out.insert(std::mem::take(&mut cur));
        }
    }
    if !cur.is_empty() {
        out.insert(cur);
    }
}

fn unmodelled(s: &str) -> bool {
    s.contains("lv(") || s.contains("while(") || s.contains("closure#") || s.contains("ref#") || s.contains("truncated") || s.contains("after(")
}

/// a collection is changed by a method that the other version does not use
fn taken_otherwise(own: &str, other: &str) -> bool {
    own.split("shrunk(").skip(1).any(|r| {
        let m = r.split('(').next().unwrap_or("");
        !other.contains(&format!("{m}("))
    })
}

pub struct Vocab {
    pub words: HashSet<String>,
}
impl Vocab {
    pub fn of(p: &Program) -> Vocab {
        let mut w = HashSet::new();
        for f in &p.files {
            words(&f.text, &mut w);
        }
        Vocab { words: w }
    }
    /// names the reference sources never use, and that are not known to change behaviour
    pub fn novel(&self, s: &str, cur: &Program) -> bool {
        let mut w = HashSet::new();
        words(s, &mut w);
        let r = w.iter().find(|x| {
            !x.chars().next().is_some_and(|c| c.is_ascii_digit())
                && !(x.len() == 16 && x.chars().all(|c| c.is_ascii_hexdigit()))
                && !self.words.contains(*x)
                && !SEMANTIC.contains(&x.as_str())
                && !ENGINE_WORDS.contains(&x.as_str())
                && !x.starts_with("each")
                && !x.starts_with("idx")
                && !x.starts_with('λ')
                && !matches!(x.strip_prefix("as_"), Some(t) if NUMS.contains(&t))
                && !x.starts_with('π')
                && !x.starts_with('ρ')
                && !(x.starts_with('p') && x[1..].chars().all(|c| c.is_ascii_digit()))
                && !cur.by_name.contains_key(*x)
        });
        if let (Some(x), true) = (r, std::env::var("CS_NOV").is_ok()) {
            eprintln!("novel word {x}");
        }
        r.is_some()
    }
}
const NUMS: &[&str] = &[
    "u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "f32", "f64", "char",
];
const ENGINE_WORDS: &[&str] = &[
    "print!", "println!", "eprintln!", "todo",     "P", "seq", "with", "choice", "tok", "rec", "ε", "separated_by",     "is", "ok", "eq", "eqc", "lt", "ltc", "exists", "holds", "at", "mux", "lambda", "fmt", "iter", "single", "true",
    "false", "if", "for", "zip", "range", "len", "Ok", "Err", "nonempty", "self", "or_then", "neg", "cmp", "piece", "sorted", "sorted_by", "contains", "default", "get", "slice",
    "slice_from", "skip", "from_end", "last_such", "nth_index", "until", "repeat", "changed", "wide", "lv", "while", "acc", "after_loop", "shrunk", "mux", "out", "rest_after", "try_collect", "unwrap_fails", "Call", "Return", "Store", "Panic",
];

/// which functions have effects their caller can observe
#[derive(Clone, Default)]
pub struct Effectful {
    /// names under which some function of the program is effectful
    names: HashSet<String>,
    types: HashSet<String>,
    traits: HashSet<String>,
    /// `T::m` of effectful associated functions, and of all associated functions
    qual: HashSet<String>,
    known: HashSet<String>,
}
impl Effectful {
    pub fn has(&self, head: &str) -> bool {
        let mut it = head.rsplit("::");
        let last = it.next().unwrap_or(head);
        if let Some(q) = it.next() {
            let t = format!("{}::{}", q.split('<').next().unwrap_or(q), last);
            if self.known.contains(&t) || (matches!(last, "default" | "clone") && self.types.contains(q)) {
                return self.qual.contains(&t);
            }
            // an associated function of a type whose impl is generated or external
            if q.starts_with(|c: char| c.is_uppercase()) && !self.traits.contains(q) {
                return false;
            }
        }
        self.names.contains(last)
    }
}

/// what the caller of a function can observe of a call it makes: (head, the receiver is its own fresh object)
pub type CallShape = (String, bool);

pub fn effectful_names(p: &Program, sums: &HashMap<String, (bool, Vec<CallShape>)>) -> Effectful {
    // a function is effectful when it stores, takes &mut, or calls something effectful
    let mut eff = Effectful { types: p.structs.keys().chain(p.enums.keys()).map(|s| s.to_string()).collect(), ..Default::default() };
    for f in &p.fns {
        if let Some(t) = &f.trait_ {
            let t = if t == "default" { f.self_ty.clone().unwrap_or_default() } else { t.clone() };
            eff.traits.insert(t.split('<').next().unwrap_or("").to_string());
        }
    }
    let q = |f: &FnInfo| f.self_ty.as_ref().map(|t| format!("{}::{}", t.split('<').next().unwrap_or(t), f.name));
    let add = |eff: &mut Effectful, f: &FnInfo| {
        eff.names.insert(f.name.clone());
        if let Some(x) = q(f) {
            eff.qual.insert(x);
        }
    };
    let mut other_mut: HashSet<&str> = HashSet::new();
    for f in &p.fns {
        if let Some(x) = q(f) {
            eff.known.insert(x);
        }
        if f.has_mut {
            add(&mut eff, f);
            // a `&mut` beyond the receiver
            if f.sig.matches("mut").count() > f.sig.split(',').next().unwrap_or("").matches("mut").count() || !f.has_self {
                other_mut.insert(&f.name);
            }
        }
    }
    let mut done: HashSet<&str> = p.fns.iter().filter(|f| f.has_mut).map(|f| f.key.as_str()).collect();
    loop {
        let mut ch = false;
        for f in &p.fns {
            // a tracked query is memoised: its callers only see its value (its own body is compared as it is)
            if done.contains(f.key.as_str()) || f.attrs.iter().any(|a| a.contains("tracked")) {
                continue;
            }
            if let Some((store, calls)) = sums.get(&f.key) {
                let e = *store
                    || calls.iter().any(|(h, fresh)| {
                        let last = h.rsplit("::").next().unwrap_or(h);
                        if *fresh && !other_mut.contains(last) {
                            return false;
                        }
                        IMPURE_STD.contains(&h.as_str()) || eff.has(h)
                    });
                if e {
                    if std::env::var("CS_EFF").is_ok() {
                        eprintln!("effectful {} store {} via {:?}", f.key, store, calls.iter().filter(|(h, fresh)| !*fresh && (IMPURE_STD.contains(&h.as_str()) || eff.has(h))).collect::<Vec<_>>());
                    }
                    add(&mut eff, f);
                    done.insert(&f.key);
                    ch = true;
                }
            }
        }
        if !ch {
            return eff;
        }
    }
}

/// the receiver is an object this function has just made
pub fn fresh_receiver(p: &Program, term: &str) -> bool {
    let r = receiver(term);
    let h = head_of(&r);
    let Some(i) = h.rfind("::") else { return r == "[]" || r == "[..]" };
    // a trailing field chain still belongs to the object
    let tail = r.rfind([')', '}']).map_or("", |j| &r[j + 1..]);
    if (!r.contains('(') && !r.contains('{')) || !tail.chars().all(|c| c.is_alphanumeric() || c == '_' || c == '.' || c == '#') {
        return false;
    }
    let ty = h[..i].rsplit("::").next().unwrap_or("");
    (p.structs.contains_key(ty) || matches!(ty, "HashMap" | "HashSet" | "BTreeMap" | "BTreeSet" | "Vec" | "String"))
        && matches!(&h[i + 2..], "new" | "default" | "with_capacity" | "from")
}

/// the function given as a parameter is called
fn calls_parameter(h: &str) -> bool {
    h.strip_prefix('p').is_some_and(|d| !d.is_empty() && d.chars().all(|c| c.is_ascii_digit()))
}

pub fn is_log(h: &str) -> bool {
    LOG.contains(&h)
}

pub struct Cmp<'a> {
    pub vocab: &'a Vocab,
    pub effectful: &'a Effectful,
    pub cur: &'a Program,
}

/// doing it once more leaves the same state
const IDEMPOTENT: &[&str] = &[
    "insert", "remove", "create_dir", "create_dir_all", "clear", "sort", "sort_by", "sort_by_key", "sort_unstable", "dedup",
    "retain", "set", "truncate", "exit", "process::exit", "fs::write", "fs::create_dir", "fs::create_dir_all",
    "fs::read_to_string", "flush", "resize", "store", "fill", "copy_from_slice", "prove_values", "verify_values",
    "get_preprocessed_column", "save",
];
fn repeatable(e: &Eff) -> bool {
    let last = e.head.rsplit("::").next().unwrap_or(&e.head);
    e.kind == Kind::Call && !IDEMPOTENT.contains(&e.head.as_str()) && !IDEMPOTENT.contains(&last)
}

impl<'a> Cmp<'a> {
    fn observed(&self, e: &Eff, all: &[Eff], b: &mut Bdd) -> bool {
        match e.kind {
            Kind::Store | Kind::Return | Kind::Panic => true,
            Kind::Call => {
                if is_log(&e.head) {
                    return false;
                }
                if calls_parameter(&e.head) {
                    return true;
                }
                let last = e.head.rsplit("::").next().unwrap_or(&e.head);
                if IMPURE_STD.contains(&e.head.as_str()) || IMPURE_STD.contains(&last) || self.effectful.has(&e.head) {
                    return true;
                }
                let _ = (all, b);
                false
            }
        }
    }

    pub fn diff(&self, b: &mut Bdd, r: &Summary, c: &Summary) -> Vec<Diff> {
        let mut out = vec![];
        let ro: Vec<&Eff> = r.effs.iter().filter(|e| self.observed(e, &r.effs, b)).collect();
        let co: Vec<&Eff> = c.effs.iter().filter(|e| self.observed(e, &c.effs, b)).collect();
        let rm: HashMap<String, &Eff> = ro.iter().map(|e| (e.key(), *e)).collect();
        let cm: HashMap<String, &Eff> = co.iter().map(|e| (e.key(), *e)).collect();
        let mut rtext = String::new();
        for e in &r.effs {
            rtext += &e.key();
            rtext += &b.text(e.guard);
        }
        let r_unm = unmodelled(&rtext);
        let mut catoms: BTreeSet<u32> = BTreeSet::new();
        let mut ratoms: BTreeSet<u32> = BTreeSet::new();
        for e in &r.effs {
            ratoms.extend(b.support(e.guard));
        }
        for e in &c.effs {
            catoms.extend(b.support(e.guard));
        }
        let feasible = |b: &mut Bdd, g: Bid| !b.unsat(g);
        // an unwrap that is no longer reached is not a difference of its own
        let mere_unwrap = |e: &Eff| e.kind == Kind::Panic && e.head == "unwrap_fails";
        let mut ctext = String::new();
        for e in &c.effs {
            ctext += &e.key();
            ctext += &b.text(e.guard);
        }
        let is_novel = |s: &str| self.vocab.novel(s, self.cur) || (!r_unm && unmodelled(s)) || taken_otherwise(s, &rtext);
        if std::env::var_os("CS_SELFNOV").is_some() {
            for e in &ro {
                let t = b.text(e.guard);
                if self.vocab.novel(&e.key(), self.cur) || self.vocab.novel(&t, self.cur) {
                    eprintln!("selfnov {} {}", e.file, e.key().chars().take(150).collect::<String>());
                }
            }
        }
        // where the current version returns something that cannot be read
        let mut unread = F;
        for e in &co {
            if e.kind == Kind::Return && !rm.contains_key(&e.key()) && is_novel(&e.key()) {
                unread = b.or(unread, e.guard);
            }
        }
        for e in &ro {
            match cm.get(&e.key()) {
                None => {
                    if feasible(b, e.guard) && !mere_unwrap(e) {
                        out.push(Diff {
                            what: "missing",
                            kind: e.kind,
                            head: e.head.clone(),
                            key: e.key(),
                            line: e.line,
                            file: e.file.clone(),
                            detail: format!("when {}", b.text(e.guard)),
                            novel: false,
                        });
                    }
                }
                Some(x) => {
                    if !b.equiv(e.guard, x.guard) {
                        let nv: BTreeSet<u32> = b
                            .support(x.guard)
                            .into_iter()
                            .filter(|v| !ratoms.contains(v) && is_novel(&b.atoms[*v as usize].show()))
                            .collect();
                        let mut novel = false;
                        if !nv.is_empty() {
                            let hi = b.exists(x.guard, &nv);
                            let lo = b.forall(x.guard, &nv);
                            let d1 = b.diff(e.guard, hi);
                            let d2 = b.diff(lo, e.guard);
                            novel = b.unsat(d1) && b.unsat(d2);
                            // a further condition on, or exception to, what the reference does
                            let added = b.equiv(hi, e.guard) || b.equiv(lo, e.guard);
                            if novel && added && nv.iter().all(|v| !unmodelled(&b.atoms[*v as usize].show())) {
                                novel = false;
                            }
                        }
                        let lost = b.diff(e.guard, x.guard);
                        let gained = b.diff(x.guard, e.guard);
                        if mere_unwrap(e) && b.unsat(gained) {
                            continue;
                        }
                        if e.kind == Kind::Return && unread != F && b.unsat(gained) {
                            let rest = b.diff(lost, unread);
                            novel |= b.unsat(rest);
                        }
                        let d = if !b.unsat(lost) {
                            format!("no longer when {}", b.text(lost))
                        } else {
                            format!("now also when {}", b.text(gained))
                        };
                        out.push(Diff {
                            what: "guard",
                            kind: e.kind,
                            head: e.head.clone(),
                            key: e.key(),
                            line: x.line,
                            file: x.file.clone(),
                            detail: d,
                            novel: novel || b.overflow,
                        });
                    } else if e.untils.iter().zip(&x.untils).any(|(u, v)| !b.equiv(*u, *v)) {
                        let t: String = x.untils.iter().map(|u| b.text(*u)).collect::<Vec<_>>().join(" / ");
                        out.push(Diff {
                            what: "loop-exit",
                            kind: e.kind,
                            head: e.head.clone(),
                            key: e.key(),
                            line: x.line,
                            file: x.file.clone(),
                            novel: is_novel(&t),
                            detail: format!("loop now left when {}", t),
                        });
                    } else if repeatable(e) && !b.equiv(e.twice, x.twice) {
                        let nv = b.support(x.twice).into_iter().any(|v| !ratoms.contains(&v) && is_novel(&b.atoms[v as usize].show()));
                        let lost = b.diff(e.twice, x.twice);
                        let gained = b.diff(x.twice, e.twice);
                        let d = if !b.unsat(lost) {
                            format!("no longer happens again when {}", b.text(lost))
                        } else if !b.unsat(gained) {
                            format!("now happens again when {}", b.text(gained))
                        } else {
                            continue;
                        };
                        out.push(Diff {
                            what: "times",
                            kind: e.kind,
                            head: e.head.clone(),
                            key: e.key(),
                            line: x.line,
                            file: x.file.clone(),
                            novel: nv || b.overflow,
                            detail: d,
                        });
                    }
                }
            }
        }
        for e in &co {
            if !rm.contains_key(&e.key()) && feasible(b, e.guard) {
                out.push(Diff {
                    what: "extra",
                    kind: e.kind,
                    head: e.head.clone(),
                    key: e.key(),
                    line: e.line,
                    file: e.file.clone(),
                    novel: is_novel(&e.key()),
                    detail: format!("when {}", b.text(e.guard)),
                });
            }
        }
        // order of observable effects under the same loops
        if out.is_empty() {
            let mut last: HashMap<&str, usize> = HashMap::new();
            let pos: HashMap<String, usize> = ro.iter().enumerate().map(|(i, e)| (e.key(), i)).collect();
            let seq: Vec<(usize, &&Eff)> = co
                .iter()
                .filter(|e| matches!(e.kind, Kind::Call | Kind::Store))
                .filter_map(|e| pos.get(&e.key()).map(|&i| (i, e)))
                .collect();
            let _ = &mut last;
            for (n, (i, e)) in seq.iter().enumerate() {
                for (j, d) in seq[n + 1..].iter() {
                    let param = calls_parameter(&e.head) || calls_parameter(&d.head);
                    if j < i && e.loops == d.loops && (param || receiver(&e.term) == receiver(&d.term)) {
                        let both = b.and(e.guard, d.guard);
                        if !b.unsat(both) {
                            out.push(Diff {
                                what: "order",
                                kind: e.kind,
                                head: e.head.clone(),
                                key: e.key(),
                                line: e.line,
                                file: e.file.clone(),
                                novel: false,
                                detail: format!("now precedes {}", d.key()),
                            });
                        }
                    }
                }
            }
        }
        // loops rewritten from the ground up: neither the first value nor the step of a carried
        // variable is one the reference has
        let ids = |e: &[Eff], b: &mut Bdd| {
            let mut s: BTreeSet<usize> = BTreeSet::new();
            for e in e {
                carried_ids(&e.key(), &mut s);
                carried_ids(&b.text(e.guard), &mut s);
            }
            s
        };
        let (rid, cid) = (ids(&r.effs, b), ids(&c.effs, b));
        let rewritten = cid.difference(&rid).any(|n| {
            let (ci, cs) = &b.carried[*n];
            !rid.iter().any(|m| {
                let (ri, rs) = &b.carried[*m];
                ri == ci || rs == cs
            })
        });
        if rewritten {
            for d in out.iter_mut() {
                d.novel = true;
            }
        }
        // elements taken out of a collection by other means
        if taken_otherwise(&rtext, &ctext) {
            for d in out.iter_mut() {
                d.novel = true;
            }
        }
        // a counting loop written as an iteration, or the other way round
        let counting = c.effs.iter().any(|e| e.key().contains("while(") || b.text(e.guard).contains("while("));
        if rtext.contains("while(") && !counting {
            for d in out.iter_mut() {
                d.novel = true;
            }
        }
        // a missing effect only counts as certain when nothing unmodelled could stand for it
        let novel_extra = out.iter().any(|d| d.what != "missing" && d.novel);
        if novel_extra {
            let sure = out.iter().any(|d| d.what == "guard" && !d.novel);
            for d in out.iter_mut() {
                if d.what == "missing" && !sure {
                    d.novel = true;
                }
            }
        }
        out
    }
}

fn carried_ids(s: &str, out: &mut BTreeSet<usize>) {
    for p in s.split("lv(").skip(1) {
        if let Some(n) = p.split(')').next().and_then(|x| x.parse().ok()) {
            out.insert(n);
        }
    }
}

/// first argument of a call or the root of a store's place
pub fn receiver(term: &str) -> String {
    let Some(i) = term.find('(') else { return term.to_string() };
    let mut depth = 0;
    let mut s = String::new();
    for c in term[i + 1..].chars() {
        match c {
            '(' | '[' | '{' => depth += 1,
            ')' | ']' | '}' if depth == 0 => break,
            ')' | ']' | '}' => depth -= 1,
            ',' if depth == 0 => break,
            _ => {}
        }
        s.push(c);
    }
    s
}

pub struct World {
    pub reference: Program,
    pub current: Program,
    pub cur_idx: HashMap<String, usize>,
    pub boundary: HashSet<String>,
}

impl World {
    pub fn new(reference: Program, current: Program) -> World {
        let cur_idx: HashMap<String, usize> =
            current.fns.iter().enumerate().map(|(i, f)| (f.key.clone(), i)).collect();
        let boundary = reference
            .fns
            .iter()
            .filter(|f| cur_idx.get(&f.key).is_some_and(|&i| current.fns[i].sig == f.sig))
            .map(|f| f.key.clone())
            .collect();
        World { reference, current, cur_idx, boundary }
    }
}

pub fn policy_fn(boundary: Rc<HashSet<String>>, open: Rc<HashSet<String>>) -> Rc<dyn Fn(&FnInfo) -> bool> {
    Rc::new(move |f: &FnInfo| !boundary.contains(&f.key) || open.contains(&f.key) || doc_builder(f))
}

/// the pretty-printer's document constructors: values are compared in their terms
pub fn doc_builder(f: &FnInfo) -> bool {
    f.file.contains("formatter/src/")
        && f.trait_.is_none()
        && matches!(&f.ret, crate::program::Ty::Named(n, _) if n == "Doc" || n == "Self")
        && !f.has_mut
        && !matches!(f.name.as_str(), "join" | "strip_trailing_semicolon")
        && f.end_line - f.line <= 15
}

/// compare one function; when the summaries differ, look again with the functions
/// named by the differing calls opened on both sides, and with local objects
/// identified by their variable instead of by creation
pub fn compare_fn(
    w: &World,
    key: &str,
    rf: usize,
    cf: usize,
    bd: &Rc<HashSet<String>>,
    open: &HashSet<String>,
    vocab: &Vocab,
    effectful: &Effectful,
) -> FnResult {
    let pol = policy_fn(bd.clone(), Rc::new(open.clone()));
    let first = compare_once(w, key, rf, cf, &pol, vocab, effectful, false);
    if first.diffs.is_empty() || first.inconclusive.is_some() {
        return first;
    }
    // what differed must still be there to be compared: opening a callee may not make it vanish
    let kept = |x: &FnResult| {
        first.diffs.iter().all(|d| {
            if matches!(d.kind, Kind::Return) {
                let side = if d.what == "missing" { &x.ref_lines } else { &x.cur_lines };
                return side.contains(&(d.line, "Return".into()));
            }
            if x.opened.iter().any(|o| d.head.rsplit("::").next() == Some(o.as_str())) {
                return true;
            }
            let side = if d.what == "missing" { &x.ref_lines } else { &x.cur_lines };
            side.contains(&(d.line, d.head.clone()))
        })
    };
    let clean = |x: &FnResult| x.diffs.is_empty() && x.inconclusive.is_none() && kept(x);
    let second = compare_once(w, key, rf, cf, &pol, vocab, effectful, true);
    if clean(&second) {
        return second;
    }
    let mut more = open.clone();
    let mut last = first.clone();
    for _ in 0..3 {
        let mut cand: Vec<String> = vec![];
        for d in &last.diffs {
            let mut ws = HashSet::new();
            words(&d.key, &mut ws);
            if d.what == "guard" {
                words(&d.detail, &mut ws);
            }
            for f in &w.current.fns {
                if ws.contains(&f.name)
                    && f.key != key
                    && bd.contains(&f.key)
                    && f.end_line - f.line <= 60
                    && (w.current.by_name.get(&f.name).is_some_and(|v| v.len() <= 8) 
                        || f.self_ty.as_ref().is_some_and(|t| {
                            d.key.contains(&format!("{}::{}(", t.split('<').next().unwrap_or(t).trim(), f.name))
                        }))
                    && !more.contains(&f.key)
                    && !cand.contains(&f.key)
                {
                    cand.push(f.key.clone());
                }
            }
        }
        cand.sort_by_key(|k| {
            let f = &w.current.fns[w.cur_idx[k]];
            f.end_line - f.line
        });
        cand.truncate(10);
        let mut next = None;
        for k in &cand {
            let mut o = more.clone();
            o.insert(k.clone());
            let mut x = compare_once(w, key, rf, cf, &policy_fn(bd.clone(), Rc::new(o.clone())), vocab, effectful, false);
            if clean(&x) {
                x.inlined = first.inlined;
                return x;
            }
            if x.inconclusive.is_none() && next.as_ref().map_or(true, |(n, _, _)| x.diffs.len() < *n) {
                next = Some((x.diffs.len(), o, x));
            }
        }
        match next {
            Some((_, o, x)) => {
                more = o;
                last = x;
            }
            None => break,
        }
    }
    first
}

#[allow(clippy::too_many_arguments)]
fn compare_once(
    w: &World,
    key: &str,
    rf: usize,
    cf: usize,
    pol: &Rc<dyn Fn(&FnInfo) -> bool>,
    vocab: &Vocab,
    effectful: &Effectful,
    name_locals: bool,
) -> FnResult {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        compare_once_(w, key, rf, cf, pol, vocab, effectful, name_locals)
    }));
    r.unwrap_or_else(|_| FnResult { key: key.into(), inconclusive: Some("too large to compare".into()), ..Default::default() })
}

#[allow(clippy::too_many_arguments)]
fn compare_once_(
    w: &World,
    key: &str,
    rf: usize,
    cf: usize,
    pol: &Rc<dyn Fn(&FnInfo) -> bool>,
    vocab: &Vocab,
    effectful: &Effectful,
    name_locals: bool,
) -> FnResult {
    let mut ev = Ev::new(&w.reference, pol.clone());
    ev.name_locals = name_locals;
    ev.t.fn_names = w.reference.fns.iter().map(|f| f.id().into()).collect();
    let r = summarise(&mut ev, rf);
    ev.switch(&w.current);
    let c = summarise(&mut ev, cf);
    let mut res = FnResult { key: key.into(), effects: c.effs.len(), ..Default::default() };
    res.inlined = r.inlined.union(&c.inlined).cloned().collect();
    res.opened = res.inlined.iter().filter_map(|k| w.current.fns.iter().find(|f| f.key == *k)).map(|f| f.name.clone()).collect();
    for e in &r.effs {
        res.heads.insert(e.head.clone());
        res.ref_lines.insert((e.line, if e.kind == Kind::Return { "Return".into() } else { e.head.clone() }));
    }
    for e in &c.effs {
        res.heads.insert(e.head.clone());
        res.cur_lines.insert((e.line, if e.kind == Kind::Return { "Return".into() } else { e.head.clone() }));
    }
    if r.truncated {
        res.inconclusive = Some("reference summary incomplete".into());
        return res;
    }
    if c.truncated {
        res.inconclusive = Some("summary incomplete".into());
        return res;
    }
    if ev.b.overflow {
        res.inconclusive = Some("too large to compare".into());
        return res;
    }
    let cmp = Cmp { vocab, effectful, cur: &w.current };
    let d = cmp.diff(&mut ev.b, &r, &c);
    if std::env::var("CS_DEBUG").is_ok_and(|x| key.contains(&x)) {
        eprintln!("{key} name_locals={name_locals} diffs {:?}", d.iter().map(|x| (x.what, x.novel, x.detail.clone())).collect::<Vec<_>>());
        if std::env::var("CS_FULL").is_ok() {
            for (side, l) in [("ref", &r.effs), ("cur", &c.effs)] {
                for e in l.iter() {
                    eprintln!("   {side} @{} {} guard {} {} untils {:?}", e.line, e.key(), e.guard, ev.b.text(e.guard), e.untils);
                }
            }
        }
    }
    if ev.b.overflow && d.iter().all(|x| x.novel) {
        res.inconclusive = Some("too large to compare".into());
    } else if !d.is_empty() && d.iter().all(|x| x.novel) {
        res.inconclusive = Some(format!("unmodelled construct: {}", d[0].key.chars().take(160).collect::<String>()));
    } else {
        res.diffs = d.into_iter().filter(|x| !x.novel).collect();
    }
    let _ = F;
    res
}
