//! Declarations that decide behaviour without a body: token tables, serialisation
//! and query attributes, discriminants, derived comparisons.
use crate::program::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub struct ItemDiff {
    pub file: String,
    pub name: String,
    pub what: String,
}

fn squash(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

const DERIVES: &[&str] = &["PartialEq", "Eq", "Hash", "PartialOrd", "Ord", "Default", "Clone"];

fn is_lint(a: &str) -> bool {
    let a = squash(a);
    ["#[allow", "#[expect", "#[warn", "#[must_use", "#[inline", "#[doc", "#[derive", "#[deprecated", "#[non_exhaustive", "#[cold", "#[track_caller", "#[rustfmt", "#[clippy", "#[cfg_attr", "#[automatically"]
        .iter()
        .any(|p| a.starts_with(p))
}

/// behaviour-deciding attributes, normalised (argument order does not matter)
pub fn attr_set(attrs: &[String]) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    for a in attrs {
        if is_lint(a) {
            continue;
        }
        let s = squash(a);
        // split top-level commas of one argument list
        let body = s.trim_start_matches("#[").trim_end_matches(']').to_string();
        match body.find('(') {
            Some(i) if body.ends_with(')') => {
                let head = &body[..i];
                let mut d = 0;
                let mut q = false;
                let mut cur = String::new();
                let mut parts = vec![];
                let mut prev = ' ';
                for c in body[i + 1..body.len() - 1].chars() {
                    if c == '"' && prev != '\\' {
                        q = !q;
                    }
                    prev = c;
                    if !q {
                        match c {
                            '(' | '[' | '{' => d += 1,
                            ')' | ']' | '}' => d -= 1,
                            ',' if d == 0 => {
                                parts.push(std::mem::take(&mut cur));
                                continue;
                            }
                            _ => {}
                        }
                    }
                    cur.push(c);
                }
                if !cur.is_empty() {
                    parts.push(cur);
                }
                parts.retain(|p| !p.starts_with("help=") && !p.starts_with("about"));
                if head == "token" || head == "regex" || head == "logos" {
                    out.insert(format!("{}({})", head, parts.join(",")));
                } else {
                    for p in parts {
                        out.insert(format!("{}({})", head, p));
                    }
                }
            }
            _ => {
                out.insert(body);
            }
        }
    }
    out
}

pub fn derives(attrs: &[String]) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    for a in attrs {
        let s = squash(a);
        if let Some(b) = s.strip_prefix("#[derive(") {
            for d in b.trim_end_matches(")]").split(',') {
                let d = d.rsplit("::").next().unwrap_or(d);
                if DERIVES.contains(&d) {
                    out.insert(d.to_string());
                }
            }
        }
    }
    out
}

fn int_width(s: &str) -> Option<u32> {
    Some(match s {
        "u8" | "i8" => 8,
        "u16" | "i16" => 16,
        "u32" | "i32" => 32,
        "u64" | "i64" | "usize" | "isize" => 64,
        "u128" | "i128" => 128,
        _ => return None,
    })
}

pub fn unordered(raw: &str) -> bool {
    ["HashMap", "HashSet", "FxHashMap", "FxHashSet", "DashMap", "DashSet", "AHashMap", "AHashSet"].iter().any(|t| {
        raw.match_indices(t).any(|(i, _)| {
            let before = raw[..i].chars().last();
            let after = raw[i + t.len()..].chars().next();
            !before.is_some_and(|c| c.is_alphanumeric() || c == '_') && !after.is_some_and(|c| c.is_alphanumeric() || c == '_')
        })
    })
}

fn field_diffs(rf: &[FieldInfo], cf: &[FieldInfo], out: &mut Vec<String>) {
    for f in rf {
        let Some(c) = cf.iter().find(|x| x.name == f.name) else { continue };
        let (a, b) = (squash(&f.raw), squash(&c.raw));
        if a != b {
            if !unordered(&a) && unordered(&b) {
                out.push(format!("field {}: {} became unordered {}", f.name, f.raw, c.raw));
            }
            if let (Some(x), Some(y)) = (int_width(&a), int_width(&b)) {
                if y < x {
                    out.push(format!("field {}: narrowed from {} to {}", f.name, f.raw, c.raw));
                }
            }
        }
    }
}

pub fn diff(r: &Program, c: &Program) -> Vec<ItemDiff> {
    let mut out = vec![];
    let manual: BTreeMap<(String, String), &FnInfo> = c
        .fns
        .iter()
        .filter_map(|f| {
            let t = f.trait_.as_ref()?;
            Some(((f.self_ty.clone()?, t.clone()), f))
        })
        .collect();
    let mut common = |name: &str, file: &str, ra: &[String], ca: &[String], out: &mut Vec<ItemDiff>| {
        let (a, b) = (attr_set(ra), attr_set(ca));
        for x in a.difference(&b) {
            out.push(ItemDiff { file: file.into(), name: name.into(), what: format!("attribute {} is gone", x) });
        }
        for x in b.difference(&a) {
            out.push(ItemDiff { file: file.into(), name: name.into(), what: format!("attribute {} is new", x) });
        }
        let (a, b) = (derives(ra), derives(ca));
        for x in a.difference(&b) {
            if manual.contains_key(&(name.to_string(), x.clone())) && x != "Clone" && x != "Default" {
                out.push(ItemDiff {
                    file: file.into(),
                    name: name.into(),
                    what: format!("derived {} replaced by a hand-written one", x),
                });
            }
        }
    };
    for (n, e) in &r.enums {
        if r.dup_types.contains(n) {
            continue;
        }
        let Some(ce) = c.enums.get(n) else { continue };
        common(n, &e.file, &e.attrs, &ce.attrs, &mut out);
        for v in &e.variants {
            let Some(cv) = ce.variants.iter().find(|x| x.name == v.name) else { continue };
            let (a, b) = (attr_set(&v.attrs), attr_set(&cv.attrs));
            if a != b {
                out.push(ItemDiff {
                    file: e.file.clone(),
                    name: format!("{}::{}", n, v.name),
                    what: format!("attributes changed from {:?} to {:?}", a, b),
                });
            }
            if v.disc != cv.disc {
                out.push(ItemDiff {
                    file: e.file.clone(),
                    name: format!("{}::{}", n, v.name),
                    what: format!("discriminant changed from {:?} to {:?}", v.disc, cv.disc),
                });
            }
            let mut w = vec![];
            field_diffs(&v.fields, &cv.fields, &mut w);
            for x in w {
                out.push(ItemDiff { file: e.file.clone(), name: format!("{}::{}", n, v.name), what: x });
            }
        }
        if derives(&e.attrs).contains("Ord") || derives(&e.attrs).contains("PartialOrd") {
            let ro: Vec<&String> =
                e.variants.iter().map(|v| &v.name).filter(|v| ce.variants.iter().any(|x| &x.name == *v)).collect();
            let co: Vec<&String> =
                ce.variants.iter().map(|v| &v.name).filter(|v| e.variants.iter().any(|x| &x.name == *v)).collect();
            if ro != co {
                out.push(ItemDiff {
                    file: e.file.clone(),
                    name: n.clone(),
                    what: format!("order of variants (derived ordering) changed from {:?} to {:?}", ro, co),
                });
            }
        }
    }
    for (n, s) in &r.structs {
        if r.dup_types.contains(n) {
            continue;
        }
        let Some(cs) = c.structs.get(n) else { continue };
        common(n, &s.file, &s.attrs, &cs.attrs, &mut out);
        let mut w = vec![];
        field_diffs(&s.fields, &cs.fields, &mut w);
        for f in &s.fields {
            let Some(cf) = cs.fields.iter().find(|x| x.name == f.name) else { continue };
            let (a, b) = (attr_set(&f.attrs), attr_set(&cf.attrs));
            if a != b {
                w.push(format!("attributes of field {} changed from {:?} to {:?}", f.name, a, b));
            }
        }
        for x in w {
            out.push(ItemDiff { file: s.file.clone(), name: n.clone(), what: x });
        }
    }
    // query attributes of functions
    let cm: BTreeMap<&str, &FnInfo> = c.fns.iter().map(|f| (f.key.as_str(), f)).collect();
    for f in &r.fns {
        let Some(g) = cm.get(f.key.as_str()) else { continue };
        let (a, b) = (attr_set(&f.attrs), attr_set(&g.attrs));
        if a != b {
            out.push(ItemDiff {
                file: f.file.clone(),
                name: f.key.clone(),
                what: format!("attributes changed from {:?} to {:?}", a, b),
            });
        }
    }
    // tables written as macro uses, and the project's macros used in expressions
    let inner = |p: &Program| {
        struct Uses(BTreeSet<String>);
        impl<'a> syn::visit::Visit<'a> for Uses {
            fn visit_macro(&mut self, m: &'a syn::Macro) {
                if let Some(l) = m.path.segments.last() {
                    self.0.insert(l.ident.to_string());
                }
            }
        }
        let mut u = Uses(BTreeSet::new());
        for f in &p.files {
            syn::visit::visit_file(&mut u, &f.ast);
        }
        u.0
    };
    let (ru, cu) = (inner(r), inner(c));
    let rows = |p: &Program| -> BTreeSet<(String, String)> {
        p.macros
            .iter()
            .filter(|(n, _, _)| n.ends_with('!') || (ru.contains(n) && cu.contains(n) && !p.expanded.contains(n)))
            .map(|(n, _, t)| (n.clone(), squash(t).replace(",)", ")").replace(",}", "}").replace(",]", "]").trim_end_matches([',', ';']).to_string()))
            .collect()
    };
    let (a, b) = (rows(r), rows(c));
    for (n, f, t) in &r.macros {
        let k = (n.clone(), squash(t).replace(",)", ")").replace(",}", "}").replace(",]", "]").trim_end_matches([',', ';']).to_string());
        if a.contains(&k) && !b.contains(&k) {
            out.push(ItemDiff { file: f.clone(), name: n.clone(), what: format!("macro use or definition changed from {}", t.chars().take(120).collect::<String>()) });
        }
    }
    // constants computed by a block: a lookup table, not a value the functions spell out
    for (n, v) in &r.consts {
        for (k, owner, e, file) in v {
            if !matches!(e, syn::Expr::Block(_)) {
                continue;
            }
            let now: Vec<&syn::Expr> = c.consts.get(n).into_iter().flatten().filter(|x| x.0 == *k && x.1 == *owner).map(|x| &x.2).collect();
            let text = |e: &syn::Expr| squash(&quote::ToTokens::to_token_stream(e).to_string());
            if !now.is_empty() && now.iter().all(|x| matches!(x, syn::Expr::Block(_)) && text(x) != text(e)) {
                out.push(ItemDiff { file: file.clone(), name: n.clone(), what: "the table this constant computes changed".into() });
            }
        }
    }
    out
}
