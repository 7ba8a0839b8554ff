//! Pattern tests and bindings.
use crate::bdd::{Atom, Bid, F, T};
use crate::eval::{one, Ev, Val};
use crate::term::{Term, Tid};
use syn::Pat;

pub type Binds = Vec<(String, Val)>;

impl<'p> Ev<'p> {
    /// canonical "Enum::Variant" for a path, if it names an enum variant
    pub fn variant_of(&self, path: &syn::Path) -> Option<String> {
        let segs: Vec<String> = path.segments.iter().map(|s| s.ident.to_string()).collect();
        let last = segs.last()?.clone();
        match last.as_str() {
            "Some" | "None" | "Ok" | "Err" => return Some(last),
            _ => {}
        }
        if segs.len() >= 2 {
            let mut e = segs[segs.len() - 2].clone();
            if e == "Self" {
                e = self.cur_self_ty()?;
            }
            e = self.unalias(&e);
            if let Some(crate::program::Ty::Named(n, _)) = self.p.type_aliases.get(&e) {
                if self.p.enums.contains_key(n) {
                    e = n.clone();
                }
            }
            if let Some(en) = self.p.enums.get(&e) {
                if en.variants.iter().any(|v| v.name == last) {
                    return Some(format!("{}::{}", e, last));
                }
            }
            // foreign enums: CamelCase::CamelCase
            if e.chars().next()?.is_uppercase()
                && last.chars().next()?.is_uppercase()
                && last.chars().any(|c| c.is_lowercase())
            {
                return Some(format!("{}::{}", e, last));
            }
            return None;
        }
        if let Some(f) = self.frames.last() {
            if let Some(v) = self.variants_local.get(&(f.func, last.clone())) {
                return Some(v.clone());
            }
            if let Some(v) = self.variants_in.get(&(f.file.clone(), last.clone())) {
                return Some(v.clone());
            }
        }
        // bare variant brought in by `use Enum::*`
        if last.chars().next()?.is_uppercase() && last.chars().any(|c| c.is_lowercase()) {
            if self.p.structs.contains_key(&last) {
                return None;
            }
            let mut found = None;
            for (n, e) in &self.p.enums {
                if e.variants.iter().any(|v| v.name == last) {
                    if found.is_some() {
                        return None;
                    }
                    found = Some(format!("{}::{}", n, last));
                }
            }
            return found;
        }
        None
    }
    pub fn cur_self_ty(&self) -> Option<String> {
        self.frames.last().and_then(|f| f.self_ty.clone())
    }
    pub fn unalias(&self, n: &str) -> String {
        self.frames
            .last()
            .and_then(|f| self.aliases.get(&f.file))
            .and_then(|m| m.get(n).cloned())
            .unwrap_or_else(|| n.to_string())
    }

    pub fn test_val(&mut self, pat: &Pat, v: &Val) -> (Bid, Binds) {
        let mut cond = F;
        let mut binds: Binds = vec![];
        let flat = self.flatten(v);
        for (g, t) in flat {
            let (c, b) = self.test_pat(pat, t);
            let gc = self.b.and(g, c);
            if gc == F && v.len() > 1 {
                continue;
            }
            cond = self.b.or(cond, gc);
            for (n, x) in b {
                let x: Val = if v.len() == 1 && g == T {
                    x
                } else {
                    x.into_iter()
                        .map(|(h, y)| (self.b.and(g, h), y))
                        .collect()
                };
                if let Some(e) = binds.iter_mut().find(|e| e.0 == n) {
                    e.1.extend(x);
                } else {
                    binds.push((n, x));
                }
            }
        }
        for e in binds.iter_mut() {
            e.1 = self.norm(std::mem::take(&mut e.1));
        }
        (cond, binds)
    }
    /// open Mux alternatives
    pub fn flatten(&mut self, v: &Val) -> Val {
        let mut out = vec![];
        for &(g, t) in v {
            if let Term::Mux(a) = self.t.get(t).clone() {
                for (h, x) in a {
                    out.push((self.b.and(g, h), x));
                }
            } else {
                out.push((g, t));
            }
        }
        out.retain(|x| x.0 != F);
        out
    }

    pub fn project(&mut self, t: Tid, variant: &str, field: &str) -> Tid {
        if variant == "Some" || variant == "Ok" {
            return self.payload(t);
        }
        if variant == "Err" {
            return self.err_of(t);
        }
        if let Term::Ctor(n, f) = self.t.get(t).clone() {
            if &*n == variant {
                if let Some((_, x)) = f.iter().find(|(k, _)| &**k == field) {
                    return *x;
                }
            }
        }
        self.t.mk(Term::Proj(t, variant.into(), field.into()))
    }
    pub fn is_variant(&mut self, t: Tid, v: &str) -> Bid {
        match v {
            "Some" | "Ok" => return self.good(t),
            "None" | "Err" => {
                let g = self.good(t);
                return self.b.not(g);
            }
            _ => {}
        }
        match self.t.get(t).clone() {
            Term::Ctor(n, _) => {
                if &*n == v {
                    return T;
                }
                let e = v.split("::").next().unwrap();
                if n.starts_with(&format!("{}::", e)) {
                    return F;
                }
            }
            _ => {}
        }
        let s = self.show(t).to_string();
        // a single-variant enum is always that variant
        if let Some((e, _)) = v.rsplit_once("::") {
            if self.b.enums.get(e).is_some_and(|x| x.len() == 1) {
                return T;
            }
        }
        self.atom(Atom::Is(s, v.to_string()))
    }
    pub fn field_of(&mut self, t: Tid, f: &str) -> Tid {
        match self.t.get(t).clone() {
            Term::Ctor(_, fs) => {
                if let Some((_, x)) = fs.iter().find(|(k, _)| &**k == f) {
                    return *x;
                }
            }
            Term::Tuple(v) => {
                if let Ok(i) = f.parse::<usize>() {
                    if let Some(x) = v.get(i) {
                        return *x;
                    }
                }
            }
            Term::Mux(alts) => {
                let a: Vec<(Bid, Tid)> = alts.into_iter().map(|(g, x)| (g, self.field_of(x, f))).collect();
                let v = self.norm(a);
                if v.len() == 1 {
                    return v[0].1;
                }
                return self.t.mk(Term::Mux(v));
            }
            _ => {}
        }
        self.t.mk(Term::Field(t, f.into()))
    }

    fn and_all(&mut self, acc: &mut (Bid, Binds), x: (Bid, Binds)) {
        acc.0 = self.b.and(acc.0, x.0);
        acc.1.extend(x.1);
    }

    pub fn test_pat(&mut self, pat: &Pat, t: Tid) -> (Bid, Binds) {
        match pat {
            Pat::Wild(_) | Pat::Rest(_) => (T, vec![]),
            Pat::Paren(p) => self.test_pat(&p.pat, t),
            Pat::Reference(p) => self.test_pat(&p.pat, t),
            Pat::Type(p) => self.test_pat(&p.pat, t),
            Pat::Ident(p) => {
                let name = p.ident.to_string();
                if p.by_ref.is_none() && p.subpat.is_none() && name.chars().next().is_some_and(|c| c.is_uppercase()) {
                    let path: syn::Path = p.ident.clone().into();
                    if let Some(v) = self.variant_of(&path) {
                        return (self.is_variant(t, &v), vec![]);
                    }
                    if let Some(c) = self.const_term(&path) {
                        return (self.eq(t, c), vec![]);
                    }
                }
                let mut r = match &p.subpat {
                    Some((_, s)) => self.test_pat(s, t),
                    None => (T, vec![]),
                };
                r.1.push((name, one(t)));
                r
            }
            Pat::Lit(l) => {
                let c = self.lit_term(&l.lit);
                (self.eq(t, c), vec![])
            }
            Pat::Path(p) => {
                if let Some(v) = self.variant_of(&p.path) {
                    return (self.is_variant(t, &v), vec![]);
                }
                let c = match self.const_term(&p.path) {
                    Some(c) => c,
                    None => {
                        let s = crate::program::tokens(&p.path).replace(' ', "");
                        self.t.sym(&s)
                    }
                };
                (self.eq(t, c), vec![])
            }
            Pat::Tuple(p) => {
                let mut acc = (T, vec![]);
                let n = p.elems.len();
                let rest = p.elems.iter().position(|e| matches!(e, Pat::Rest(_)));
                for (i, e) in p.elems.iter().enumerate() {
                    if matches!(e, Pat::Rest(_)) {
                        continue;
                    }
                    let f = match rest {
                        Some(r) if i > r => {
                            // index from the end
                            match self.t.get(t).clone() {
                                Term::Tuple(v) => (v.len() + i - n).to_string(),
                                _ => format!("end{}", n - i),
                            }
                        }
                        _ => i.to_string(),
                    };
                    let x = self.field_of(t, &f);
                    let flat = self.flatten(&one(x));
                    let r = if flat.len() == 1 { self.test_pat(e, x) } else { self.test_val(e, &flat) };
                    self.and_all(&mut acc, r);
                }
                acc
            }
            Pat::TupleStruct(p) => {
                let v = self.variant_of(&p.path);
                let mut acc = match &v {
                    Some(v) => (self.is_variant(t, v), vec![]),
                    None => (T, vec![]),
                };
                if acc.0 == F {
                    // still produce bindings so evaluation can go on
                }
                let n = p.elems.len();
                let rest = p.elems.iter().position(|e| matches!(e, Pat::Rest(_)));
                for (i, e) in p.elems.iter().enumerate() {
                    if matches!(e, Pat::Rest(_)) {
                        continue;
                    }
                    let f = match rest {
                        Some(r) if i > r => format!("end{}", n - i),
                        _ => i.to_string(),
                    };
                    let x = match &v {
                        Some(v) => self.project(t, v, &f),
                        None => self.field_of(t, &f),
                    };
                    let flat = self.flatten(&one(x));
                    let r = if flat.len() == 1 { self.test_pat(e, x) } else { self.test_val(e, &flat) };
                    self.and_all(&mut acc, r);
                }
                acc
            }
            Pat::Struct(p) => {
                let v = self.variant_of(&p.path);
                let mut acc = match &v {
                    Some(v) => (self.is_variant(t, v), vec![]),
                    None => (T, vec![]),
                };
                for fp in &p.fields {
                    let f = match &fp.member {
                        syn::Member::Named(i) => i.to_string(),
                        syn::Member::Unnamed(i) => i.index.to_string(),
                    };
                    let x = match &v {
                        Some(v) => self.project(t, v, &f),
                        None => self.field_of(t, &f),
                    };
                    let flat = self.flatten(&one(x));
                    let r = if flat.len() == 1 { self.test_pat(&fp.pat, x) } else { self.test_val(&fp.pat, &flat) };
                    self.and_all(&mut acc, r);
                }
                acc
            }
            Pat::Or(p) => {
                let mut cond = F;
                let mut binds: Binds = vec![];
                for c in &p.cases {
                    let (g, b) = self.test_pat(c, t);
                    let ng = self.b.not(cond);
                    let eff = self.b.and(ng, g);
                    for (n, x) in b {
                        let x: Val = x.into_iter().map(|(h, y)| (self.b.and(eff, h), y)).collect();
                        if let Some(e) = binds.iter_mut().find(|e| e.0 == n) {
                            e.1.extend(x);
                        } else {
                            binds.push((n, x));
                        }
                    }
                    cond = self.b.or(cond, g);
                }
                for e in binds.iter_mut() {
                    e.1 = self.norm(std::mem::take(&mut e.1));
                    if let [(_, y)] = e.1.as_slice() {
                        e.1 = one(*y);
                    }
                }
                (cond, binds)
            }
            Pat::Range(r) => {
                let mut c = T;
                if let Some(s) = &r.start {
                    if let Some(k) = self.const_expr(s) {
                        let l = self.lt(t, k);
                        let n = self.b.not(l);
                        c = self.b.and(c, n);
                    }
                }
                if let Some(e) = &r.end {
                    if let Some(k) = self.const_expr(e) {
                        let x = match r.limits {
                            syn::RangeLimits::HalfOpen(_) => self.lt(t, k),
                            syn::RangeLimits::Closed(_) => {
                                let l = self.lt(k, t);
                                self.b.not(l)
                            }
                        };
                        c = self.b.and(c, x);
                    }
                }
                (c, vec![])
            }
            Pat::Slice(p) => {
                let n = p.elems.len();
                let rest = p
                    .elems
                    .iter()
                    .position(|e| matches!(e, Pat::Rest(_)) || matches!(e, Pat::Ident(i) if i.subpat.is_some()));
                let len = self.mk_len(t);
                let mut acc: (Bid, Binds) = match rest {
                    None => {
                        let k = self.t.mk(Term::Int(n as i128));
                        (self.eq(len, k), vec![])
                    }
                    Some(_) => {
                        let l = self.lt_const(len, n as i128 - 1);
                        (self.b.not(l), vec![])
                    }
                };
                for (i, e) in p.elems.iter().enumerate() {
                    let x = match rest {
                        Some(r) if i == r => {
                            let s = self.t.mk(Term::Int(i as i128));
                            let x = self.t.call("slice_from", vec![t, s]);
                            if let Pat::Ident(id) = e {
                                acc.1.push((id.ident.to_string(), one(x)));
                            }
                            continue;
                        }
                        Some(r) if i > r => {
                            let k = self.t.mk(Term::Int((n - i) as i128));
                            self.t.call("from_end", vec![t, k])
                        }
                        _ => {
                            let k = self.t.mk(Term::Int(i as i128));
                            self.mk_at(t, k)
                        }
                    };
                    let r = self.test_pat(e, x);
                    self.and_all(&mut acc, r);
                }
                acc
            }
            other => {
                let s = crate::program::tokens(other).replace(' ', "");
                let sub = self.show(t).to_string();
                (self.atom(Atom::Is1(format!("{} ~ {}", sub, s))), vec![])
            }
        }
    }
}
