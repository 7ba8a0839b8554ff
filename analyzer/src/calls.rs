//! Calls: resolution, inlining, std models, macros.
use crate::bdd::{Bid, F, T};
use crate::eval::*;
use crate::program::{tokens, Ty};
use crate::term::{FmtPart, Item, Term, Tid};
use std::collections::HashMap;
use std::rc::Rc;
use syn::spanned::Spanned;
use syn::Expr;

fn line(e: &impl Spanned) -> usize {
    e.span().start().line
}

const TRANSPARENT: &[&str] = &[
    "clone", "cloned", "copied", "as_ref", "as_mut", "as_str", "as_slice", "to_owned", "to_vec", "to_string",
    "into", "borrow", "borrow_mut", "value", "deref", "as_deref", "as_deref_mut", "by_ref", "boxed", "as_path",
    "to_path_buf", "into_boxed_slice", "into_owned", "as_bytes", "into_iter_sorted", "to_string_lossy", "into_inner",
];
const TRANSPARENT_FN: &[&str] = &[
    "Box::new", "Arc::new", "Rc::new", "String::from", "PathBuf::from", "Path::new", "Vec::from", "Cow::Borrowed",
    "Cow::Owned", "Cow::from", "RefCell::new", "Cell::new", "Mutex::new", "RwLock::new", "identity", "Arc::clone",
    "Rc::clone", "Box::from", "Some::<>", "iter::once_with",
];
const BOOL_STD: &[&str] = &[
    "contains_key", "starts_with", "ends_with", "is_ascii_digit", "exists", "is_dir", "is_file", "is_alphanumeric",
    "is_absolute", "eq", "is_alphabetic", "is_whitespace", "is_zero", "is_subset", "is_disjoint", "any", "all",
    "is_uppercase", "is_lowercase", "is_power_of_two", "eq_ignore_ascii_case",
];
/// associated functions and methods whose calls never have an observable effect of their own
pub const PURE_STD: &[&str] = &[
    "len", "at", "get", "range", "neg", "slice", "repeat", "contains_key", "starts_with", "ends_with", "exists", "max",
    "min", "trim", "split", "rev", "skip", "take", "last", "first", "chars", "find", "join", "keys", "values", "get_or",
    "as_usize", "abs", "replace", "slice_from", "from_end", "HashMap::new", "HashSet::new", "Default::default",
];

impl<'p> Ev<'p> {
    // ---------- resolution ----------
    pub fn resolve_path_fn(&self, path: &syn::Path) -> Option<usize> {
        let segs: Vec<String> = path.segments.iter().map(|s| s.ident.to_string()).collect();
        let name = segs.last()?;
        let cands = self.p.by_name.get(name)?;
        let cur = self.frames.last().map(|f| f.func);
        let (krate, file) = match cur {
            Some(f) => (self.p.fns[f].krate.clone(), self.p.fns[f].file.clone()),
            None => (String::new(), String::new()),
        };
        if segs.len() >= 2 {
            let mut ty = segs[segs.len() - 2].clone();
            if ty == "Self" {
                ty = self.cur_self_ty()?;
            }
            ty = self.unalias(&ty);
            if ty.chars().next().is_some_and(|c| c.is_uppercase()) {
                let v: Vec<usize> =
                    cands.iter().copied().filter(|&i| self.p.fns[i].self_ty.as_deref() == Some(&ty)).collect();
                let same: Vec<usize> = v.iter().copied().filter(|&i| self.p.fns[i].krate == krate).collect();
                return match (same.len(), v.len()) {
                    (1, _) => Some(same[0]),
                    (0, 1) => Some(v[0]),
                    _ => None,
                };
            }
            // module path: free function
            let v: Vec<usize> = cands
                .iter()
                .copied()
                .filter(|&i| {
                    let f = &self.p.fns[i];
                    f.self_ty.is_none()
                        && (f.module.ends_with(&ty) || ty == "crate" || ty == "self" || ty == "super" || f.krate.contains(&ty) || ty.ends_with(&f.krate))
                })
                .collect();
            if v.len() == 1 {
                return Some(v[0]);
            }
            let v2: Vec<usize> = v.into_iter().filter(|&i| self.p.fns[i].krate == krate).collect();
            if v2.len() == 1 {
                return Some(v2[0]);
            }
            return None;
        }
        let free: Vec<usize> = cands.iter().copied().filter(|&i| self.p.fns[i].self_ty.is_none()).collect();
        let same_file: Vec<usize> = free.iter().copied().filter(|&i| self.p.fns[i].file == file).collect();
        if same_file.len() == 1 {
            return Some(same_file[0]);
        }
        let same_crate: Vec<usize> = free.iter().copied().filter(|&i| self.p.fns[i].krate == krate).collect();
        if same_crate.len() == 1 {
            return Some(same_crate[0]);
        }
        if same_crate.is_empty() && free.len() == 1 {
            return Some(free[0]);
        }
        None
    }

    pub fn resolve_method(&mut self, recv: Tid, name: &str, nargs: usize) -> Option<usize> {
        let cands = self.p.by_name.get(name)?.clone();
        let cands: Vec<usize> = cands
            .into_iter()
            .filter(|&i| self.p.fns[i].has_self && self.p.fns[i].params.len() == nargs)
            .collect();
        if cands.is_empty() {
            return None;
        }
        let ty = self.ty(recv);
        let krate = self.frames.last().map(|f| self.p.fns[f.func].krate.clone()).unwrap_or_default();
        if let Ty::Named(n, _) = &ty {
            let v: Vec<usize> =
                cands.iter().copied().filter(|&i| self.p.fns[i].self_ty.as_deref() == Some(n)).collect();
            if v.len() == 1 {
                return Some(v[0]);
            }
            let w: Vec<usize> = v.iter().copied().filter(|&i| self.p.fns[i].krate == krate).collect();
            if w.len() == 1 {
                return Some(w[0]);
            }
            if !v.is_empty() {
                return None;
            }
            // known type without such a method here: std or foreign
            if self.p.structs.contains_key(n) || self.p.enums.contains_key(n) {
                // may still be a trait default
            } else if n != "Self" && n.len() > 1 {
                return None;
            }
        }
        if matches!(ty, Ty::Slice(_) | Ty::Tuple(_)) {
            return None;
        }
        if is_common_std(name) {
            return None;
        }
        let v: Vec<usize> = cands.iter().copied().filter(|&i| self.p.fns[i].krate == krate).collect();
        let v: Vec<usize> = v.into_iter().filter(|&i| self.p.fns[i].trait_.as_deref() != Some("default")).collect();
        if v.len() == 1 {
            return Some(v[0]);
        }
        if v.is_empty() && cands.len() == 1 {
            return Some(cands[0]);
        }
        None
    }

    fn may_inline(&self, f: usize) -> bool {
        !self.combinator
            && !self.stack.contains(&f)
            && self.stack.len() < self.max_inline
            && (self.inline)(&self.p.fns[f])
    }

    /// open a function body on the given arguments
    pub fn inline_fn(&mut self, f: usize, self_val: Option<Val>, args: Vec<Val>, st: &mut St) -> Val {
        self.inlined.insert(f);
        let p = self.p;
        let info = &p.fns[f];
        let saved_scopes = std::mem::replace(&mut st.scopes, vec![Rc::new(HashMap::new())]);
        let base = st.clone();
        self.pcs.push(st.pc);
        self.stack.push(f);
        self.frames.push(Frame {
            func: f,
            rets: vec![],
            loop_frames: self.loop_frames.len(),
            ret_is_option: info.ret.head() == Some("Option"),
            self_ty: info.self_ty.clone(),
            file: info.file.clone(),
        });
        let mut s = st.clone();
        s.pc = T;
        if let Some(sv) = self_val {
            self.bind(&mut s, "self", sv);
        }
        for ((pat, _), v) in info.params.iter().zip(args) {
            self.bind_pat(&mut s, pat, v);
        }
        let block = info.block.clone();
        let th = info.ret.head().map(|h| h.to_string());
        self.tail_hint = Self::ends_in_collect(&block).then_some(th).flatten().map(|h| (h, Rc::as_ptr(&block) as usize));
        let v = self.eval_block(&block, &mut s);
        let fr = self.frames.pop().unwrap();
        self.stack.pop();
        self.pcs.pop();
        let mut outs: Vec<(Bid, St, Val)> = vec![];
        for (rs, rv, _) in fr.rets {
            outs.push((rs.pc, rs, rv));
        }
        if s.pc != F {
            outs.push((s.pc, s, v));
        }
        let mut b2 = base.clone();
        b2.pc = T;
        let (j, v) = self.join(&b2, outs);
        st.mem = j.mem;
        st.heap = j.heap;
        st.pc = self.b.and(base.pc, j.pc);
        st.scopes = saved_scopes;
        let v = self.deref_dead(v, st);
        v
    }
    fn deref_dead(&mut self, v: Val, _st: &St) -> Val {
        v
    }

    pub fn bind_pat(&mut self, st: &mut St, pat: &syn::Pat, v: Val) {
        if let syn::Pat::Ident(i) = crate::expr::strip_type(pat) {
            if i.subpat.is_none() {
                self.bind(st, &i.ident.to_string(), v);
                return;
            }
        }
        let v = self.deref_val(v, st);
        let (_, binds) = self.test_val(pat, &v);
        for (n, x) in binds {
            self.bind(st, &n, x);
        }
    }

    pub fn apply(&mut self, f: Tid, args: Vec<Val>, st: &mut St, ln: usize) -> Val {
        match self.t.get(f).clone() {
            Term::Closure(i) => {
                let ci = self.closures[i as usize].clone();
                if self.frames.len() + self.stack.len() > 60 || self.lambda_depth > 12 {
                    let s = self.t.sym("deep-closure");
                    return one(s);
                }
                self.lambda_depth += 1;
                let saved = std::mem::replace(&mut st.scopes, ci.scopes.clone());
                let base = st.clone();
                self.pcs.push(st.pc);
                self.frames.push(Frame {
                    func: ci.func,
                    rets: vec![],
                    loop_frames: self.loop_frames.len(),
                    ret_is_option: true,
                    self_ty: ci.self_ty.clone(),
                    file: ci.file.clone(),
                });
                let mut s = st.clone();
                s.pc = T;
                self.push_scope(&mut s);
                for (p, v) in ci.expr.inputs.iter().zip(args) {
                    self.bind_pat(&mut s, p, v);
                }
                let v = self.eval(&ci.expr.body, &mut s);
                self.pop_scope(&mut s);
                let fr = self.frames.pop().unwrap();
                self.pcs.pop();
                let mut outs: Vec<(Bid, St, Val)> = fr.rets.into_iter().map(|(s, v, _)| (s.pc, s, v)).collect();
                if s.pc != F {
                    outs.push((s.pc, s, v));
                }
                let mut b2 = base.clone();
                b2.pc = T;
                let (j, v) = self.join(&b2, outs);
                st.mem = j.mem;
                st.heap = j.heap;
                st.pc = self.b.and(base.pc, j.pc);
                st.scopes = saved;
                self.lambda_depth -= 1;
                v
            }
            Term::FnRef(i) => {
                let i = i as usize;
                let mut args = args;
                if self.p.fns[i].params.is_empty() && !self.p.fns[i].has_self {
                    args.clear();
                }
                let sv = if self.p.fns[i].has_self && !args.is_empty() { Some(args.remove(0)) } else { None };
                self.call_fn(i, sv, args, st, ln)
            }
            Term::Sym(s) if s.starts_with("ctor ") => {
                let n = s[5..].to_string();
                self.ctor(&n, args, st)
            }
            Term::Sym(s) => {
                let n = s.to_string();
                if TRANSPARENT_FN.contains(&n.as_str())
                    || n.ends_with("::to_string")
                    || n.ends_with("::clone")
                    || n.ends_with("::from")
                    || n.ends_with("::into")
                    || n.ends_with("::as_str")
                    || n.ends_with("::to_owned")
                {
                    return args.into_iter().next().unwrap_or_default();
                }
                if n.ends_with("::default") || (n.ends_with("::new") && args.is_empty()) {
                    if let Ok(e) = syn::parse_str::<syn::Expr>(&format!("{n}()")) {
                        return self.eval(&e, st);
                    }
                }
                self.opaque(&n, args, st, ln)
            }
            _ => {
                let mut a = vec![one(f)];
                a.extend(args);
                self.opaque("apply", a, st, ln)
            }
        }
    }

    pub fn ctor(&mut self, name: &str, args: Vec<Val>, st: &mut St) -> Val {
        let mut fs: Vec<(crate::term::S, Tid)> = vec![];
        // Some/Ok/Err keep alternatives apart
        if matches!(name, "Some" | "Ok" | "Err") && args.len() == 1 {
            let v = self.deref_val(args[0].clone(), st);
            let n = name.to_string();
            return self.map1(&v, |me, t| me.t.mk(Term::Ctor(n.as_str().into(), vec![("0".into(), t)])));
        }
        for (i, a) in args.into_iter().enumerate() {
            let a = self.deref_val(a, st);
            let t = self.single(a);
            fs.push((i.to_string().as_str().into(), t));
        }
        let t = self.t.mk(Term::Ctor(name.into(), fs));
        one(t)
    }

    pub fn default_of(&mut self, ty: &Ty) -> Tid {
        match ty {
            Ty::Slice(_) => self.t.mk(Term::Coll(vec![])),
            Ty::Named(n, _) => match n.as_str() {
                "bool" => self.t.mk(Term::Bool(false)),
                "String" | "str" => self.t.mk(Term::Str("".into())),
                "u8" | "u16" | "u32" | "u64" | "usize" | "i8" | "i16" | "i32" | "i64" | "isize" | "u128" | "i128" => {
                    self.t.mk(Term::Int(0))
                }
                "Option" => self.none(),
                n if is_map(n) => self.t.call(&format!("{}::new", n), vec![]),
                n => self.t.call(&format!("{}::default", n), vec![]),
            },
            _ => self.t.sym("default"),
        }
    }

    fn call_name(&self, f: usize) -> String {
        let i = &self.p.fns[f];
        match (&i.self_ty, i.has_self) {
            (Some(t), false) => format!("{}::{}", t, i.name),
            _ => i.name.clone(),
        }
    }

    pub fn call_fn(&mut self, f: usize, sv: Option<Val>, args: Vec<Val>, st: &mut St, ln: usize) -> Val {
        if self.may_inline(f) {
            return self.inline_fn(f, sv, args, st);
        }
        let name = self.call_name(f);
        let is_bool = self.p.fns[f].ret == Ty::Named("bool".into(), vec![]);
        let is_iter = self.p.fns[f].ret_iter;
        let is_unit = self.p.fns[f].ret == Ty::Tuple(vec![]);
        let mut a = vec![];
        if let Some(s) = sv {
            a.push(s);
        }
        a.extend(args);
        let muts = self.p.fns[f].muts.clone();
        let touched: Vec<Tid> =
            a.iter().zip(&muts).filter(|(_, m)| **m).flat_map(|(v, _)| v.iter().map(|x| x.1)).collect();
        if self.p.fns[f].ret.head() == Some("Parser") {
            // making a parser does nothing by itself
            let a: Vec<Tid> = a
                .into_iter()
                .map(|v| {
                    let v = self.deref_val(v, st);
                    self.single(v)
                })
                .collect();
            return one(self.t.call(&name, a));
        }
        self.not_bool = !is_bool;
        let v = self.opaque(&name, a, st, ln);
        self.touch(&touched, st);
        if is_unit {
            let u = self.unit();
            return one(u);
        }
        if is_bool {
            let c = self.truth(&v);
            return self.bool_val(c);
        }
        if is_iter {
            return self.map1(&v, |me, t| me.t.mk(Term::Iter(t)));
        }
        v
    }

    /// what a callee may have changed is no longer what this function last wrote
    fn touch(&mut self, objs: &[Tid], st: &mut St) {
        for &o in objs {
            if let Term::Ref(s) = self.t.get(o).clone() {
                let v = self.load(st, s);
                let nv = self.map1(&v, |me, t| match me.t.get(t) {
                    Term::Ctor(_, fs) if !fs.is_empty() => me.t.call("changed", vec![t]),
                    _ => t,
                });
                Rc::make_mut(&mut st.mem).insert(s, nv);
                continue;
            }
            let root = self.show(o).to_string();
            let keys: Vec<Tid> = st.heap.keys().copied().collect();
            for k in keys {
                let s = self.show(k);
                let below = s.strip_prefix(root.as_str()).is_some_and(|r| r.starts_with(['.', '[', '@']));
                if below {
                    let c = self.t.call("changed", vec![k]);
                    Rc::make_mut(&mut st.heap).insert(k, one(c));
                }
            }
        }
    }

    /// a call that is not opened: logged as an effect, and a term
    pub fn opaque(&mut self, name: &str, args: Vec<Val>, st: &mut St, ln: usize) -> Val {
        let not_bool = std::mem::take(&mut self.not_bool);
        // sorting by a key is sorting by the comparison of the keys
        if matches!(name, "sort_by_key" | "sort_by_cached_key") && args.len() == 2 {
            if let [(_, f)] = args[1].as_slice() {
                let f = *f;
                if matches!(self.t.get(f), Term::Closure(_)) {
                    let l = self.key_lambda(f, st);
                    return self.opaque("sort_by", vec![args[0].clone(), one(l)], st, ln);
                }
            }
        }
        let mut refs: Vec<u32> = vec![];
        let mut vals: Vec<Val> = vec![];
        for a in args {
            let mut out = vec![];
            for (g, t) in a {
                match self.t.get(t).clone() {
                    Term::Ref(s) => {
                        refs.push(s);
                        let v = self.load(st, s);
                        for (h, x) in v {
                            let x = if matches!(self.t.get(x), Term::Coll(_)) { self.t.sym("&mut") } else { x };
                            out.push((self.b.and(g, h), x));
                        }
                    }
                    Term::Closure(_) => {
                        let x = self.lambda(t, st);
                        out.push((g, x));
                    }
                    Term::FnRef(i) => {
                        let n = self.call_name(i as usize);
                        let x = self.t.sym(&n);
                        out.push((g, x));
                    }
                    Term::Iter(x) => out.push((g, x)),
                    _ => out.push((g, t)),
                }
            }
            vals.push(self.norm(out));
        }
        let combos = self.combine(&vals);
        let mut out = vec![];
        for (g, a) in combos {
            let c = self.t.call(name, a);
            self.effect(st, EffKind::Call, g, c, ln);
            if matches!(name, "push" | "push_back") {
                if let Term::Call(_, a) = self.t.get(c).clone() {
                    // the collection is one longer from here on
                    if a.len() == 2 && !matches!(self.t.get(a[0]), Term::Coll(_) | Term::Sym(_)) {
                        let k = self.t.call("len", vec![a[0]]);
                        let one_more = self.t.mk(Term::Int(1));
                        let cur = st.heap.get(&k).cloned().unwrap_or_else(|| one(k));
                        let v = self.map1(&cur, |me, t| me.arith("+", t, one_more));
                        Rc::make_mut(&mut st.heap).insert(k, v);
                    }
                }
            }
            out.push((g, c));
        }
        // out-parameters
        for s in refs {
            let cur = self.load(st, s);
            if let [(_, t)] = cur.as_slice() {
                if matches!(self.t.get(*t), Term::Coll(_)) {
                    let v: Val = out.clone();
                    let w = self.map1(&v, |me, t| me.t.call("out", vec![t]));
                    self.coll_push(s, w, true, st);
                }
            }
        }
        if diverges(name) {
            st.pc = F;
        }
        let r = self.norm(out);
        if BOOL_STD.contains(&name) && !not_bool {
            let c = self.truth(&r);
            return self.bool_val(c);
        }
        r
    }

    pub fn is_map_term(&mut self, t: Tid) -> bool {
        matches!(self.ty(t).head(), Some("HashMap" | "BTreeMap" | "FxHashMap" | "IndexMap"))
    }
    /// the entries of a map collected into an ordered map (or its keys into an ordered set)
    fn ordered_entries(&mut self, t: Tid, set: bool) -> Option<Tid> {
        let items = self.items_of(t);
        let [it] = items.as_slice() else { return None };
        let it = it.clone();
        let [m] = it.loops.as_slice() else { return None };
        let m = *m;
        if it.guard != T || !self.is_map_term(m) {
            return None;
        }
        let d = self.loop_count(m);
        let e = self.t.mk(Term::Elem(m, d));
        let k = self.field_of(e, "0");
        let v = self.field_of(e, "1");
        let kv = self.t.mk(Term::Tuple(vec![k, v]));
        if set && it.term == k {
            let c = self.t.mk(Term::Coll(vec![it]));
            return Some(self.mk_sorted(c, None));
        }
        if !set && (it.term == e || it.term == kv) {
            return Some(self.mk_sorted(m, None));
        }
        None
    }
    /// the elements of `t` in order
    pub fn mk_sorted(&mut self, t: Tid, by: Option<Tid>) -> Tid {
        let t = match self.t.get(t).clone() {
            Term::Iter(x) => x,
            _ => t,
        };
        let is_lam = |me: &mut Self, f: Tid, path: &str| match me.t.get(f).clone() {
            Term::Call(n, a) if &*n == "lambda" && a.len() == 1 => match me.t.get(a[0]).clone() {
                Term::Call(n, c) if &*n == "cmp" && c.len() == 2 => {
                    let (x, y) = (me.show(c[0]).to_string(), me.show(c[1]).to_string());
                    match (x.strip_suffix(path), y.strip_suffix(path)) {
                        (Some(x), Some(y)) => {
                            x.starts_with('λ') && x.ends_with("_0") && y.starts_with('λ') && y.ends_with("_1")
                                && !x.contains('.') && !y.contains('.')
                        }
                        _ => false,
                    }
                }
                _ => false,
            },
            _ => false,
        };
        // of a map: by its keys
        let mut src = None;
        let mut whole = false;
        if self.is_map_term(t) {
            src = Some(t);
            whole = true;
        } else if let Term::Coll(items) = self.t.get(t).clone() {
            if let [it] = items.as_slice() {
                if it.loops.len() == 1 && it.guard == T && !it.spread && self.is_map_term(it.loops[0]) {
                    let m = it.loops[0];
                    let d = self.loop_count(m);
                    let e = self.t.mk(Term::Elem(m, d));
                    let k = self.field_of(e, "0");
                    let v = self.field_of(e, "1");
                    let kv = self.t.mk(Term::Tuple(vec![k, v]));
                    if it.term == e || it.term == kv {
                        src = Some(m);
                        whole = true;
                    } else if it.term == k {
                        src = Some(m);
                    }
                }
            }
        }
        let natural = match by {
            None => true,
            Some(f) => is_lam(self, f, ""),
        };
        if let Some(m) = src {
            let by_key = natural || (whole && by.is_some_and(|f| is_lam(self, f, ".0")));
            if by_key {
                let sm = match self.ty(m).head() {
                    Some("BTreeMap") => m,
                    _ => self.t.call("sorted", vec![m]),
                };
                if whole {
                    return sm;
                }
                let d = self.loop_count(sm);
                let e = self.t.mk(Term::Elem(sm, d));
                let k = self.field_of(e, "0");
                return self.t.mk(Term::Coll(vec![Item { loops: vec![sm], guard: T, term: k, spread: false }]));
            }
        }
        match by {
            Some(f) if !natural => self.t.call("sorted_by", vec![t, f]),
            _ => self.t.call("sorted", vec![t]),
        }
    }
    /// the comparison of the keys of two elements
    fn key_lambda(&mut self, f: Tid, st: &mut St) -> Tid {
        let d = self.lam_nest;
        let lam = self.t.sym("lambda");
        let id = self.loops.len();
        self.loops.push(LoopInfo { iters: vec![lam], until: F, line: 0 });
        self.loop_stack.push(id);
        self.lam_nest += 1;
        let mut keys = vec![];
        for k in 0..2 {
            let a = self.t.sym(&format!("λ{}_{}", d, k));
            let mut s = st.clone();
            let v = self.apply(f, vec![one(a)], &mut s, 0);
            let t = self.single(v);
            keys.push(self.deref_term(t, st));
        }
        self.loop_stack.pop();
        self.lam_nest -= 1;
        let c = self.mk_cmp(keys[0], keys[1]);
        self.t.call("lambda", vec![c])
    }

    /// tuples compare component by component
    pub fn mk_cmp(&mut self, a: Tid, b: Tid) -> Tid {
        if let (Term::Tuple(x), Term::Tuple(y)) = (self.t.get(a).clone(), self.t.get(b).clone()) {
            if x.len() == y.len() && !x.is_empty() {
                let mut r = self.mk_cmp(x[0], y[0]);
                for i in 1..x.len() {
                    let c = self.mk_cmp(x[i], y[i]);
                    r = self.t.call("or_then", vec![r, c]);
                }
                return r;
            }
        }
        self.t.call("cmp", vec![a, b])
    }

    /// a closure handed to code we do not open: evaluated once on symbolic arguments
    pub fn lambda(&mut self, f: Tid, st: &mut St) -> Tid {
        let Term::Closure(i) = self.t.get(f).clone() else { return f };
        let n = self.closures[i as usize].expr.inputs.len();
        let d = self.lam_nest;
        let args: Vec<Val> = (0..n)
            .map(|k| {
                let s = self.t.sym(&format!("λ{}_{}", d, k));
                one(s)
            })
            .collect();
        let lam = self.t.sym("lambda");
        let id = self.loops.len();
        self.loops.push(LoopInfo { iters: vec![lam], until: F, line: 0 });
        self.loop_stack.push(id);
        let mut s = st.clone();
        self.lam_nest += 1;
        let v = self.apply(f, args, &mut s, 0);
        self.lam_nest -= 1;
        self.loop_stack.pop();
        // keep mutations of captured locals
        st.mem = s.mem;
        let t = self.single(v);
        let t = self.deref_term(t, st);
        self.t.call("lambda", vec![t])
    }

    // ---------- function calls ----------
    pub fn eval_call(&mut self, c: &syn::ExprCall, st: &mut St) -> Val {
        let ln = line(c);
        let args: Vec<Val> = c.args.iter().map(|a| self.eval(a, st)).collect();
        if let Expr::Path(p) = &*c.func {
            if let Some(i) = p.path.get_ident() {
                if let Some(s) = self.lookup(st, &i.to_string()) {
                    let v = self.load(st, s);
                    let f = self.single(v);
                    return self.apply(f, args, st, ln);
                }
            }
            let segs: Vec<String> = p
                .path
                .segments
                .iter()
                .map(|s| {
                    let n = s.ident.to_string();
                    if n == "Self" {
                        self.cur_self_ty().unwrap_or(n)
                    } else {
                        self.unalias(&n)
                    }
                })
                .collect();
            let keep = segs.len().saturating_sub(2);
            let name = segs[keep..].join("::");
            let lastn = segs.last().cloned().unwrap_or_default();
            if TRANSPARENT_FN.contains(&name.as_str()) && args.len() == 1 {
                return args.into_iter().next().unwrap();
            }
            if let Some(v) = self.variant_of(&p.path) {
                // could be an associated fn written CamelCase; no
                return self.ctor(&v, args, st);
            }
            // tuple struct constructor
            if segs.len() <= 2 && self.p.structs.get(&lastn).is_some_and(|s| !s.named && s.fields.len() == args.len()) {
                return self.ctor(&lastn, args, st);
            }
            match name.as_str() {
                "String::new" | "String::with_capacity" | "String::default" => {
                    let t = self.t.mk(Term::Str("".into()));
                    return one(t);
                }
                "Vec::new" | "Vec::with_capacity" | "VecDeque::new" | "Vec::default" => {
                    let t = self.t.mk(Term::Coll(vec![]));
                    return one(t);
                }
                n if args.len() <= 1
                    && n.split_once("::").is_some_and(|(t, m)| {
                        is_map(t)
                            && ((matches!(m, "new" | "default") && args.is_empty()) || (m == "with_capacity" && args.len() == 1))
                    }) =>
                {
                    let t = n.split_once("::").unwrap().0.to_string();
                    let t = self.t.call(&format!("{}::new", t), vec![]);
                    return one(t);
                }
                // how much room is reserved cannot be observed
                n if matches!(n.split_once("::"), Some((t, "with_capacity_and_hasher" | "with_hasher")) if is_map(t))
                    && n.split_once("::").is_some_and(|(t, _)| t.starts_with("Fx"))
                    && !args.is_empty() =>
                {
                    let t = n.split_once("::").unwrap().0.to_string();
                    let t = self.t.call(&format!("{}::new", t), vec![]);
                    return one(t);
                }
                "mem::replace" if args.len() == 2 => {
                    let p = match &c.args[0] {
                        Expr::Reference(r) => self.place(&r.expr, st),
                        e => self.place(e, st),
                    };
                    let old = self.load_place(&p, st);
                    self.store(p, args[1].clone(), st, ln);
                    return old;
                }
                "mem::take" if args.len() == 1 => {
                    let p = match &c.args[0] {
                        Expr::Reference(r) => self.place(&r.expr, st),
                        e => self.place(e, st),
                    };
                    let old = self.load_place(&p, st);
                    let d = if let [(_, t)] = old.as_slice() {
                        if matches!(self.t.get(*t), Term::Coll(_)) {
                            self.t.mk(Term::Coll(vec![]))
                        } else {
                            self.t.sym("default")
                        }
                    } else {
                        self.t.sym("default")
                    };
                    self.store(p, one(d), st, ln);
                    return old;
                }
                "iter::once" | "once" if args.len() == 1 => {
                    let v = args.into_iter().next().unwrap();
                    let items = v
                        .into_iter()
                        .map(|(g, t)| Item { loops: vec![], guard: g, term: t, spread: false })
                        .collect();
                    let c = self.t.mk(Term::Coll(items));
                    let c = self.t.mk(Term::Iter(c));
                    return one(c);
                }
                "iter::empty" => {
                    let c = self.t.mk(Term::Coll(vec![]));
                    return one(c);
                }
                "drop" => {
                    let u = self.unit();
                    return one(u);
                }
                _ => {}
            }
            if let Some(f) = self.resolve_path_fn(&p.path) {
                let mut args = args;
                let sv = if self.p.fns[f].has_self && !args.is_empty() { Some(args.remove(0)) } else { None };
                return self.call_fn(f, sv, args, st, ln);
            }
            // Type::method(x) of std
            if segs.len() >= 2 && args.len() == 1 {
                match lastn.as_str() {
                    "from" | "to_string" | "clone" | "into" | "to_owned" | "as_str" if !self.combinator => {
                        if lastn == "from" {
                            // From impls of this workspace are opaque by type
                            let ty = segs[segs.len() - 2].clone();
                            if self.p.structs.contains_key(&ty) || self.p.enums.contains_key(&ty) {
                                return self.opaque(&name, args, st, ln);
                            }
                        }
                        return args.into_iter().next().unwrap();
                    }
                    // a number that fits is the number itself
                    "try_from" if matches!(segs[segs.len() - 2].as_str(), "u8" | "u16" | "u32") && self.unsigned(&args[0]) => {
                        let bits = segs[segs.len() - 2][1..].parse::<u32>().unwrap_or(32);
                        let mut o = vec![];
                        for (g, t) in args[0].clone() {
                            let fits = self.lt_const(t, 1i128 << bits);
                            let some = self.t.mk(Term::Ctor("Ok".into(), vec![("0".into(), t)]));
                            let e = self.t.sym("TryFromIntError");
                            let none = self.t.mk(Term::Ctor("Err".into(), vec![("0".into(), e)]));
                            o.push((self.b.and(g, fits), some));
                            o.push((self.b.diff(g, fits), none));
                        }
                        return self.norm(o);
                    }
                    _ => {}
                }
            }
            if self.parser_call(&name, args.len()) {
                if let Some(v) = self.grammar_call(&name, &args, st, ln) {
                    return v;
                }
            }
            return self.opaque(&name, args, st, ln);
        }
        let f = self.eval(&c.func, st);
        let f = self.single(f);
        self.apply(f, args, st, ln)
    }

    // ---------- methods ----------
    /// alternatives of one value: their order means nothing
    fn by_text(&mut self, v: Val) -> Val {
        if v.len() < 2 {
            return v;
        }
        let mut k: Vec<_> = v.into_iter().map(|(g, t)| (self.show(t), g, t)).collect();
        k.sort_by(|a, b| a.0.cmp(&b.0));
        k.into_iter().map(|(_, g, t)| (g, t)).collect()
    }
    pub fn eval_method(&mut self, m: &syn::ExprMethodCall, st: &mut St) -> Val {
        let name = m.method.to_string();
        let ln = line(&m.method);
        let hint = self.collect_hint.take();
        let recv = self.eval(&m.receiver, st);
        // receiver slot for mutation of local collections
        let mut slot = self.local_slot(&m.receiver, st).map(|s| self.final_slot(st, s));
        if slot.is_none() {
            if let [(_, t)] = recv.as_slice() {
                if let Term::Ref(s) = self.t.get(*t) {
                    slot = Some(*s);
                }
            }
        }
        let rv = self.deref_val(recv.clone(), st);
        if st.pc == F {
            return rv;
        }
        if self.all_parsers(&rv) {
            if let Some(v) = self.grammar_method(&name, &rv, m, st, ln) {
                return v;
            }
        }
        // an iterator of the function's own moves on
        if let (Some(s), "next", 0, false) = (slot, name.as_str(), m.args.len(), self.combinator) {
            if let [(_, t)] = rv.as_slice() {
                if let Term::Iter(x) = self.t.get(*t).clone() {
                    let z = self.t.mk(Term::Int(0));
                    let o = self.t.mk(Term::Int(1));
                    let items = self.items_of(x);
                    let (head, rest) = match items.as_slice() {
                        [i] if i.guard == T && i.loops.len() == 1 => {
                            let (src, k) = match self.t.get(i.loops[0]).clone() {
                                Term::Call(n, a) if &*n == "skip" => match self.t.get(a[1]) {
                                    Term::Int(k) => (a[0], *k),
                                    _ => (i.loops[0], 0),
                                },
                                _ => (i.loops[0], 0),
                            };
                            if let Term::Elem(e, 0) = self.t.get(i.term) {
                                if *e == src {
                                    let kt = self.t.mk(Term::Int(k));
                                    let k1 = self.t.mk(Term::Int(k + 1));
                                    let l = self.t.call("skip", vec![src, k1]);
                                    let c = self.t.mk(Term::Coll(vec![Item { loops: vec![l], ..i.clone() }]));
                                    (Some((src, kt)), Some(c))
                                } else {
                                    (None, None)
                                }
                            } else {
                                (None, None)
                            }
                        }
                        _ => (None, None),
                    };
                    let _ = o;
                    let r = match head {
                        Some((src, k)) => self.t.call("get", vec![src, k]),
                        None => self.t.call("get", vec![x, z]),
                    };
                    let rest = match rest {
                        Some(c) => c,
                        None => self.t.call("rest_after", vec![x]),
                    };
                    let it = self.t.mk(Term::Iter(rest));
                    Rc::make_mut(&mut st.mem).insert(s, one(it));
                    return one(r);
                }
            }
        }
        // a string of the function's own
        if let Some(s) = slot {
            if self.str_slots.contains(&s) {
                match name.as_str() {
                    "push" | "push_str" if m.args.len() == 1 => {
                        let v = self.eval(&m.args[0], st);
                        self.str_push(s, v, false, st);
                        let u = self.unit();
                        return one(u);
                    }
                    "extend" if m.args.len() == 1 => {
                        let v = self.eval(&m.args[0], st);
                        self.str_push(s, v, true, st);
                        let u = self.unit();
                        return one(u);
                    }
                    _ => {}
                }
            }
        }
        // sorting a collection of the function's own makes a new one
        if let Some(s) = slot {
            if SORTS.contains(&name.as_str())
                && m.args.len() <= 1
                && self.own_slots.contains(&s)
                && self.slot_depth[s as usize].1 == self.loop_stack.len()
                && !self.combinator
            {
                let f = match m.args.first() {
                    Some(a) => {
                        let v = self.eval(a, st);
                        match v.as_slice() {
                            [(_, t)] => Some(Some(*t)),
                            _ => None,
                        }
                    }
                    None => Some(None),
                };
                if let Some(f) = f {
                    let lam = f.map(|f| match self.t.get(f) {
                        Term::Closure(_) if name.contains("_key") => self.key_lambda(f, st),
                        Term::Closure(_) => self.lambda(f, st),
                        _ => f,
                    });
                    let v = self.map1(&rv, |me, t| me.mk_sorted(t, lam));
                    Rc::make_mut(&mut st.mem).insert(s, v);
                    let u = self.unit();
                    return one(u);
                }
            }
        }
        // local collection mutation
        if let Some(s) = slot {
            if let [(_, t)] = rv.as_slice() {
                if matches!(self.t.get(*t), Term::Coll(_)) {
                    match name.as_str() {
                        "push" | "push_back" | "push_str" if m.args.len() == 1 => {
                            let v = self.eval(&m.args[0], st);
                            self.coll_push(s, v, false, st);
                            let u = self.unit();
                            return one(u);
                        }
                        "extend" | "append" | "extend_from_slice" if m.args.len() == 1 => {
                            let v = self.eval(&m.args[0], st);
                            self.coll_push(s, v, true, st);
                            let u = self.unit();
                            return one(u);
                        }
                        "reserve" => {
                            let u = self.unit();
                            return one(u);
                        }
                        "sort" | "sort_by" | "sort_by_key" | "sort_unstable" | "dedup" | "reverse" | "retain"
                        | "truncate" | "clear" | "pop" | "drain" | "remove" | "insert" | "swap" | "split_off" => {
                            let args: Vec<Val> = m.args.iter().map(|a| self.eval(a, st)).collect();
                            let mut full = vec![one(*t)];
                            full.extend(args);
                            let r = self.opaque(&name, full, st, ln);
                            if name == "clear" {
                                let e = self.t.mk(Term::Coll(vec![]));
                                Rc::make_mut(&mut st.mem).insert(s, one(e));
                            } else if name != "pop" {
                                let x = self.single(r.clone());
                                let it = self.t.mk(Term::Coll(vec![Item {
                                    loops: vec![],
                                    guard: T,
                                    term: x,
                                    spread: true,
                                }]));
                                Rc::make_mut(&mut st.mem).insert(s, one(it));
                            }
                            return r;
                        }
                        _ => {}
                    }
                }
            }
        }
        if self.combinator {
            return self.combinator_method(&name, rv, m, st, ln);
        }
        // user methods first (by receiver type)
        let flat = self.flatten(&rv);
        if let Some(&(_, t0)) = flat.first() {
            if let Some(f) = self.resolve_method(t0, &name, m.args.len()) {
                let args: Vec<Val> = m.args.iter().map(|a| self.eval(a, st)).collect();
                let sv = if slot.is_some() && matches!(recv.as_slice(), [(_, t)] if matches!(self.t.get(*t), Term::Ref(_)))
                {
                    recv.clone()
                } else if let (Some(s), true) = (slot, self.slot_is_object(slot, st)) {
                    one(self.t.mk(Term::Ref(s)))
                } else {
                    rv.clone()
                };
                if TRANSPARENT.contains(&name.as_str()) && self.p.fns[f].params.is_empty() && !self.may_inline(f) {
                    return rv;
                }
                return self.call_fn(f, Some(sv), args, st, ln);
            }
        }
        if TRANSPARENT.contains(&name.as_str()) && m.args.is_empty() {
            return rv;
        }
        if name == "collect" {
            let tf = m.turbofish.as_ref().map(|t| tokens(t).replace(' ', "")).or(hint).unwrap_or_default();
            let tf = tf.trim_start_matches("::").trim_start_matches('<').to_string();
            let h = tf.split('<').next().unwrap_or("").rsplit("::").next().unwrap_or("").trim_end_matches('>').to_string();
            if h == "String" && !self.combinator {
                let x = self.single(rv.clone());
                let e = self.t.mk(Term::Str("".into()));
                let e = self.t.call("piece", vec![e]);
                let mut items = vec![Item { loops: vec![], guard: T, term: e, spread: false }];
                for it in self.items_of(x) {
                    items.push(Item { term: self.t.call("piece", vec![it.term]), ..it });
                }
                return one(self.t.mk(Term::Coll(items)));
            }
            // the entries of a map, in the order of its keys
            if h.starts_with("BTree") {
                if let [(_, t)] = rv.as_slice() {
                    if let Some(r) = self.ordered_entries(*t, h == "BTreeSet") {
                        return one(r);
                    }
                }
            }
            if is_map(&h) {
                let obj = self.t.call(&format!("{}::new", h), vec![]);
                let obj = match self.own_object("", one(obj), st).as_slice() {
                    [(_, t)] => *t,
                    _ => obj,
                };
                self.fill(obj, rv, true, st, ln);
                return one(obj);
            }
        }
        if matches!(name.as_str(), "extend" | "append" | "extend_from_slice") && m.args.len() == 1 {
            let flat = self.flatten(&rv);
            if let [(_, t0)] = flat.as_slice() {
                let ty = self.ty(*t0);
                let h = ty.head().unwrap_or("").to_string();
                let map = is_map(&h) || matches!(self.t.get(*t0), Term::Call(n, _) if is_map(n.split("::").next().unwrap_or("")));
                if map || matches!(ty, Ty::Slice(_)) {
                    let v = self.eval(&m.args[0], st);
                    let v = self.deref_val(v, st);
                    self.fill(*t0, v, map, st, ln);
                    let u = self.unit();
                    return one(u);
                }
            }
        }
        let r = self.std_method(&name, rv.clone(), m, st, ln);
        // a collection of the function's own that is not followed element by element
        if let (Some(s), true) = (slot, SHRINKS.contains(&name.as_str())) {
            if let ([(g, t)], [(_, old)]) = (r.as_slice(), rv.as_slice()) {
                let plain = *g == T
                    && !matches!(self.t.get(*old), Term::Coll(_) | Term::Ref(_) | Term::Iter(_))
                    && matches!(self.ty(*old), Ty::Slice(_) | Ty::Unknown)
                    && !self.is_place(*old)
                    && matches!(self.t.get(*t), Term::Call(n, a) if **n == *name && a.first() == Some(old));
                if plain {
                    let v = self.t.call("shrunk", vec![*t]);
                    Rc::make_mut(&mut st.mem).insert(s, one(v));
                }
            }
        }
        r
    }
    /// something that lives outside of this function's own variables
    fn is_place(&self, t: Tid) -> bool {
        match self.t.get(t) {
            Term::Sym(n) => n.starts_with("p0") || **n == *"self" || (n.starts_with('p') && n[1..].chars().all(|c| c.is_ascii_digit())),
            Term::Field(b, _) | Term::Proj(b, _, _) => self.is_place(*b),
            Term::Call(n, a) if &**n == "shrunk" => self.is_place(a[0]),
            _ => false,
        }
    }
    fn ends_in_collect(b: &syn::Block) -> bool {
        matches!(b.stmts.last(), Some(syn::Stmt::Expr(Expr::MethodCall(m), None)) if m.method == "collect" && m.turbofish.is_none())
    }
    /// every element of `v` put into the collection `obj`
    fn fill(&mut self, obj: Tid, v: Val, map: bool, st: &mut St, ln: usize) {
        for (g, t) in v {
            for it in self.items_of(t) {
                let g2 = self.b.and(g, it.guard);
                let term = it.term;
                let mut body = |me: &mut Self, s: &mut St| {
                    let mut args = vec![one(obj)];
                    match me.t.get(term).clone() {
                        Term::Tuple(x) if map => args.extend(x.iter().map(|y| one(*y))),
                        _ => args.push(one(term)),
                    }
                    me.opaque(if map { "insert" } else { "push" }, args, s, ln);
                };
                if it.loops.is_empty() {
                    let mut s = st.clone();
                    s.pc = self.b.and(st.pc, g2);
                    if s.pc != F {
                        body(self, &mut s);
                    }
                } else {
                    self.run_loop(st, it.loops, g2, None, ln, &mut body);
                }
            }
        }
    }
    fn slot_is_object(&self, slot: Option<u32>, st: &St) -> bool {
        let Some(s) = slot else { return false };
        let v = self.load(st, s);
        matches!(v.as_slice(), [(_, t)] if matches!(self.t.get(*t), Term::Ctor(..)))
    }

    fn combinator_method(&mut self, name: &str, rv: Val, m: &syn::ExprMethodCall, st: &mut St, ln: usize) -> Val {
        if matches!(name, "boxed" | "clone" | "value" | "to_string" | "as_str" | "into" | "to_owned" | "labelled" | "memoized")
            || (name == "collect")
        {
            for a in &m.args {
                let _ = self.eval(a, st);
            }
            return rv;
        }
        let mut args = vec![rv];
        for a in &m.args {
            let v = self.eval(a, st);
            args.push(v);
        }
        self.opaque(name, args, st, ln)
    }

    fn opt_split(&mut self, v: &Val) -> (Val, Val) {
        // (success payloads, failures as (guard, original term))
        let flat = self.flatten(v);
        let mut ok = vec![];
        let mut bad = vec![];
        for (g, t) in flat {
            let c = self.good(t);
            let gc = self.assume(g, c);
            if gc != F {
                let p = self.payload(t);
                ok.push((gc, p));
            }
            let nc = self.b.not(c);
            let gn = self.assume(g, nc);
            if gn != F {
                bad.push((gn, t));
            }
        }
        let ok = self.norm(ok);
        let bad = self.norm(bad);
        (ok, bad)
    }
    fn guard_of(&mut self, v: &Val) -> Bid {
        let mut r = F;
        for (g, _) in v {
            r = self.b.or(r, *g);
        }
        r
    }
    /// apply f to v under condition c
    fn under(&mut self, c: Bid, st: &mut St, f: impl FnOnce(&mut Self, &mut St) -> Val) -> Val {
        if c == F {
            return vec![];
        }
        let mut s = st.clone();
        s.pc = self.assume(st.pc, c);
        if s.pc == F {
            return vec![];
        }
        let v = f(self, &mut s);
        if c == T {
            let sc = st.scopes.clone();
            *st = s;
            st.scopes = sc;
            return v;
        }
        let n = self.b.not(c);
        let mut s0 = st.clone();
        s0.pc = self.assume(st.pc, n);
        let base = st.clone();
        let (j, _) = self.join(&base, vec![(c, s, vec![]), (n, s0, vec![])]);
        let sc = st.scopes.clone();
        *st = j;
        st.scopes = sc;
        v.into_iter().map(|(g, t)| (self.b.and(c, g), t)).collect()
    }

    fn failure_like(&mut self, bad: &Val) -> Val {
        // propagate None / Err(e)
        let bad = bad.clone();
        self.map1(&bad, |me, t| match me.t.get(t).clone() {
            Term::Ctor(n, _) if &*n == "None" || &*n == "Err" => t,
            _ => match me.ty(t).head() {
                Some("Result") => {
                    let e = me.err_of(t);
                    me.t.mk(Term::Ctor("Err".into(), vec![("0".into(), e)]))
                }
                _ => me.none(),
            },
        })
    }
    fn success_ctor(&mut self, orig: &Val) -> &'static str {
        for &(_, t) in orig {
            match self.t.get(t).clone() {
                Term::Ctor(n, _) if &*n == "Ok" || &*n == "Err" => return "Ok",
                Term::Ctor(n, _) if &*n == "Some" || &*n == "None" => return "Some",
                _ => {
                    if self.ty(t).head() == Some("Result") {
                        return "Ok";
                    }
                }
            }
        }
        "Some"
    }
    fn wrap(&mut self, ctor: &str, v: Val) -> Val {
        let c = ctor.to_string();
        self.map1(&v, |me, t| me.t.mk(Term::Ctor(c.as_str().into(), vec![("0".into(), t)])))
    }

    fn std_method(&mut self, name: &str, rv: Val, m: &syn::ExprMethodCall, st: &mut St, ln: usize) -> Val {
        let is_array = rv.iter().any(|(_, t)| matches!(self.t.get(*t), Term::Coll(_)));
        let is_iter = rv.iter().any(|(_, t)| matches!(self.t.get(*t), Term::Iter(_)))
            || rv.iter().any(|(_, t)| matches!(self.t.get(*t), Term::Call(n,_) if &**n == "range"));
        let nargs = m.args.len();
        match (name, nargs) {
            ("iter" | "into_iter" | "iter_mut" | "drain" | "chars" | "lines" | "keys" | "values" | "into_values" | "into_keys" | "values_mut" | "bytes" | "split" | "split_whitespace" | "char_indices" | "peekable" | "windows" | "chunks" | "chunks_exact"
            | "iter_enumerated" | "into_iter_enumerated" | "ancestors" | "components" | "spanned" | "rsplit" | "splitn"
            | "split_terminator" | "split_inclusive" | "matches" | "rchunks" | "into_entries" | "entries" | "vars" | "args", _) => {
                let mut base = rv;
                if let ("keys" | "values" | "into_keys" | "into_values", 0, [(_, t)]) = (name, nargs, base.as_slice()) {
                    let t = *t;
                    if self.is_map_term(t) {
                        let d = self.loop_count(t);
                        let e = self.t.mk(Term::Elem(t, d));
                        let x = self.field_of(e, if name.ends_with("keys") { "0" } else { "1" });
                        let c = self.t.mk(Term::Coll(vec![Item { loops: vec![t], guard: T, term: x, spread: false }]));
                        return one(self.t.mk(Term::Iter(c)));
                    }
                }
                let wrap_name = match name {
                    "iter" | "into_iter" | "iter_mut" | "drain" | "peekable" => None,
                    n => Some(n.trim_start_matches("into_").trim_end_matches("_mut").to_string()),
                };
                let args: Vec<Val> =
                    if wrap_name.is_some() { m.args.iter().map(|a| self.eval(a, st)).collect() } else { vec![] };
                if let Some(w) = wrap_name {
                    let mut full = vec![base];
                    full.extend(args);
                    let combos = self.combine(&full);
                    let mut o = vec![];
                    for (g, a) in combos {
                        if w == "matches" && a.len() == 2 && self.one_char(a[1]).is_some() {
                            let (l, c) = self.chars_equal(a[0], a[1]);
                            let d = self.loop_count(l);
                            let e = self.t.mk(Term::Elem(l, d));
                            o.push((g, self.t.mk(Term::Coll(vec![Item { loops: vec![l], guard: c, term: e, spread: false }]))));
                            continue;
                        }
                        o.push((g, self.t.call(&w, a)));
                    }
                    base = o;
                }
                self.map1(&base, |me, t| match me.t.get(t) {
                    Term::Iter(_) => t,
                    _ => me.t.mk(Term::Iter(t)),
                })
            }
            ("len", 0) | ("count", 0) => {
                let v = self.flatten(&rv);
                let mut out = vec![];
                for (g, t) in v {
                    let l = self.mk_len(t);
                    match st.heap.get(&l).cloned() {
                        Some(cur) => {
                            for (h, x) in cur {
                                out.push((self.b.and(g, h), x));
                            }
                        }
                        None => out.push((g, l)),
                    }
                }
                self.norm(out)
            }
            ("is_empty", 0) => {
                let v = self.flatten(&rv);
                let mut c = F;
                for (g, t) in v {
                    let n = self.nonempty(t);
                    let e = self.b.diff(g, n);
                    c = self.b.or(c, e);
                }
                self.bool_val(c)
            }
            ("collect", 0) => {
                let tf = m.turbofish.as_ref().map(|t| tokens(t).replace(' ', "")).unwrap_or_default();
                if tf.contains("Result<") || tf.contains("Option<") {
                    return self.map1(&rv, |me, t| me.t.call("try_collect", vec![t]));
                }
                if tf.contains("Hash") || tf.contains("BTree") {
                    let n = if tf.contains("Hash") { "to_hash" } else { "to_btree" };
                    return self.map1(&rv, |me, t| {
                        let x = match me.t.get(t).clone() {
                            Term::Iter(x) => x,
                            _ => t,
                        };
                        me.t.call(n, vec![x])
                    });
                }
                self.map1(&rv, |me, t| match me.t.get(t).clone() {
                    Term::Iter(x) => x,
                    _ => t,
                })
            }
            ("checked_sub", 1) if self.unsigned(&rv) => {
                let o = self.eval(&m.args[0], st);
                let combos = self.combine(&[rv, o]);
                let mut out = vec![];
                for (g, a) in combos {
                    let lt = self.compare("<", a[0], a[1]);
                    let x = self.arith("-", a[0], a[1]);
                    let x = self.some(x);
                    let n = self.none();
                    out.push((self.b.diff(g, lt), x));
                    out.push((self.b.and(g, lt), n));
                }
                self.norm(out)
            }
            // ----- Option / Result -----
            ("is_some" | "is_ok", 0) => {
                let (ok, _) = self.opt_split(&rv);
                let c = self.guard_of(&ok);
                self.bool_val(c)
            }
            ("is_none" | "is_err", 0) => {
                let (_, bad) = self.opt_split(&rv);
                let c = self.guard_of(&bad);
                self.bool_val(c)
            }
            ("is_some_and" | "is_ok_and", 1) => {
                let f = self.eval(&m.args[0], st);
                let f = self.single(f);
                let (ok, _) = self.opt_split(&rv);
                let c = self.guard_of(&ok);
                let r = self.under(c, st, |me, s| {
                    let p = me.cond_payload(ok.clone());
                    me.apply(f, vec![p], s, ln)
                });
                let tr = self.truth(&r);
                self.bool_val(tr)
            }
            ("is_none_or", 1) => {
                let f = self.eval(&m.args[0], st);
                let f = self.single(f);
                let (ok, bad) = self.opt_split(&rv);
                let c = self.guard_of(&ok);
                let nb = self.guard_of(&bad);
                let r = self.under(c, st, |me, s| {
                    let p = me.cond_payload(ok.clone());
                    me.apply(f, vec![p], s, ln)
                });
                let tr = self.truth(&r);
                let tr = self.b.or(tr, nb);
                self.bool_val(tr)
            }
            ("unwrap", 0) | ("expect", 1) => {
                let (ok, bad) = self.opt_split(&rv);
                for (g, t) in &bad {
                    let c = self.t.call("unwrap_fails", vec![*t]);
                    self.effect(st, EffKind::Panic, *g, c, ln);
                }
                self.cond_payload(ok)
            }
            ("unwrap_or_default", 0) => {
                let (ok, bad) = self.opt_split(&rv);
                let ty = ok.first().map(|x| self.ty(x.1)).unwrap_or(Ty::Unknown);
                let d = self.default_of(&ty);
                let g = self.guard_of(&bad);
                let mut o = ok;
                o.push((g, d));
                self.norm(o)
            }
            ("unwrap_or", 1) => {
                let d = self.eval(&m.args[0], st);
                let (ok, bad) = self.opt_split(&rv);
                let g = self.guard_of(&bad);
                let mut o = ok;
                for (h, t) in d {
                    o.push((self.b.and(g, h), t));
                }
                self.norm(o)
            }
            ("unwrap_or_else", 1) => {
                let f = self.eval(&m.args[0], st);
                let f = self.single(f);
                let (ok, bad) = self.opt_split(&rv);
                let g = self.guard_of(&bad);
                let errs = self.map1(&bad, |me, t| me.err_of(t));
                let d = self.under(g, st, |me, s| me.apply(f, vec![errs], s, ln));
                let mut o = ok;
                o.extend(d);
                self.norm(o)
            }
            ("map", 1) if is_array => self.iter_method(name, rv, m, st, ln),
            ("map", 1) if !is_iter => {
                let f = self.eval(&m.args[0], st);
                let f = self.single(f);
                let (ok, bad) = self.opt_split(&rv);
                let c = self.guard_of(&ok);
                let sc = self.success_ctor(&rv);
                let r = self.under(c, st, |me, s| {
                    let p = me.cond_payload(ok.clone());
                    me.apply(f, vec![p], s, ln)
                });
                let mut o = self.wrap(sc, r);
                o.extend(self.failure_like(&bad));
                self.norm(o)
            }
            ("and_then", 1) if !is_iter => {
                let f = self.eval(&m.args[0], st);
                let f = self.single(f);
                let (ok, bad) = self.opt_split(&rv);
                let c = self.guard_of(&ok);
                let r = self.under(c, st, |me, s| {
                    let p = me.cond_payload(ok.clone());
                    me.apply(f, vec![p], s, ln)
                });
                let mut o = r;
                o.extend(self.failure_like(&bad));
                self.norm(o)
            }
            ("map_or", 2) | ("map_or_else", 2) => {
                let d = self.eval(&m.args[0], st);
                let f = self.eval(&m.args[1], st);
                let f = self.single(f);
                let (ok, bad) = self.opt_split(&rv);
                let c = self.guard_of(&ok);
                let nb = self.guard_of(&bad);
                let r = self.under(c, st, |me, s| {
                    let p = me.cond_payload(ok.clone());
                    me.apply(f, vec![p], s, ln)
                });
                let d = if name == "map_or_else" {
                    let df = self.single(d);
                    let errs = self.map1(&bad, |me, t| me.err_of(t));
                    self.under(nb, st, |me, s| me.apply(df, vec![errs], s, ln))
                } else {
                    d.into_iter().map(|(g, t)| (self.b.and(nb, g), t)).collect()
                };
                let mut o = r;
                o.extend(d);
                self.norm(o)
            }
            ("ok_or", 1) | ("ok_or_else", 1) => {
                let e = self.eval(&m.args[0], st);
                let (ok, bad) = self.opt_split(&rv);
                let nb = self.guard_of(&bad);
                let e = if name == "ok_or_else" {
                    let f = self.single(e);
                    self.under(nb, st, |me, s| me.apply(f, vec![], s, ln))
                } else {
                    e.into_iter().map(|(g, t)| (self.b.and(nb, g), t)).collect()
                };
                let mut o = self.wrap("Ok", ok);
                o.extend(self.wrap("Err", e));
                self.norm(o)
            }
            ("context" | "with_context" | "wrap_err", 1) => {
                let a = self.eval(&m.args[0], st);
                let (ok, bad) = self.opt_split(&rv);
                let nb = self.guard_of(&bad);
                let msg = if name == "with_context" {
                    let f = self.single(a);
                    self.under(nb, st, |me, s| me.apply(f, vec![], s, ln))
                } else {
                    a
                };
                let msg = self.single(msg);
                let mut errs = vec![];
                for (g, t) in &bad {
                    let e = self.err_of(*t);
                    let c = self.t.call("context", vec![e, msg]);
                    errs.push((*g, c));
                }
                let mut o = self.wrap("Ok", ok);
                o.extend(self.wrap("Err", errs));
                self.norm(o)
            }
            ("map_err", 1) => {
                let f = self.eval(&m.args[0], st);
                let f = self.single(f);
                let (ok, bad) = self.opt_split(&rv);
                let nb = self.guard_of(&bad);
                let errs = self.map1(&bad, |me, t| me.err_of(t));
                let e = self.under(nb, st, |me, s| me.apply(f, vec![errs], s, ln));
                let mut o = self.wrap("Ok", ok);
                o.extend(self.wrap("Err", e));
                self.norm(o)
            }
            ("ok", 0) => {
                let (ok, bad) = self.opt_split(&rv);
                let g = self.guard_of(&bad);
                let n = self.none();
                let mut o = self.wrap("Some", ok);
                o.push((g, n));
                self.norm(o)
            }
            ("err", 0) => {
                let (ok, bad) = self.opt_split(&rv);
                let g = self.guard_of(&ok);
                let n = self.none();
                let e = self.map1(&bad, |me, t| me.err_of(t));
                let mut o = self.wrap("Some", e);
                o.push((g, n));
                self.norm(o)
            }
            ("or", 1) | ("or_else", 1) if !is_iter => {
                let a = self.eval(&m.args[0], st);
                let (ok, bad) = self.opt_split(&rv);
                let nb = self.guard_of(&bad);
                let sc = self.success_ctor(&rv);
                let d = if name == "or_else" {
                    let f = self.single(a);
                    let errs = self.map1(&bad, |me, t| me.err_of(t));
                    self.under(nb, st, |me, s| me.apply(f, vec![errs], s, ln))
                } else {
                    a.into_iter().map(|(g, t)| (self.b.and(nb, g), t)).collect()
                };
                let mut o = self.wrap(sc, ok);
                o.extend(d);
                self.norm(o)
            }
            ("filter", 1) if !is_iter => {
                let f = self.eval(&m.args[0], st);
                let f = self.single(f);
                let (ok, bad) = self.opt_split(&rv);
                let c = self.guard_of(&ok);
                let r = self.under(c, st, |me, s| {
                    let p = me.cond_payload(ok.clone());
                    me.apply(f, vec![p], s, ln)
                });
                let keep = self.truth(&r);
                let mut o = vec![];
                let w = self.wrap("Some", ok);
                for (g, t) in w {
                    o.push((self.b.and(g, keep), t));
                }
                let nk = self.b.diff(c, keep);
                let n = self.none();
                o.push((nk, n));
                let gb = self.guard_of(&bad);
                o.push((gb, n));
                self.norm(o)
            }
            ("flatten", 0) if !is_iter => {
                let (ok, bad) = self.opt_split(&rv);
                let mut o = ok;
                o.extend(self.failure_like(&bad));
                self.norm(o)
            }
            ("cmp", 1) if !is_iter && rv.iter().any(|x| matches!(self.t.get(x.1), Term::Tuple(_))) => {
                let a = self.eval(&m.args[0], st);
                let combos = self.combine(&[rv, a]);
                let v = combos.into_iter().map(|(g, a)| (g, self.mk_cmp(a[0], a[1]))).collect();
                self.norm(v)
            }
            ("then" | "then_with", 1)
                if !is_iter && (name == "then_with" || !matches!(&m.args[0], Expr::Closure(_))) =>
            {
                let a = self.eval(&m.args[0], st);
                let b = if name == "then_with" {
                    let f = self.single(a);
                    self.apply(f, vec![], st, ln)
                } else {
                    a
                };
                let combos = self.combine(&[rv, b]);
                let v = combos.into_iter().map(|(g, a)| (g, self.t.call("or_then", a))).collect();
                self.norm(v)
            }
            ("then", 1) | ("then_some", 1) if !is_iter => {
                let c = self.truth(&rv);
                let a = self.eval(&m.args[0], st);
                let r = if name == "then" {
                    let f = self.single(a);
                    self.under(c, st, |me, s| me.apply(f, vec![], s, ln))
                } else {
                    a.into_iter().map(|(g, t)| (self.b.and(c, g), t)).collect()
                };
                let mut o = self.wrap("Some", r);
                let n = self.none();
                let nc = self.b.not(c);
                o.push((nc, n));
                self.norm(o)
            }
            ("get", 1) => {
                let a = self.eval(&m.args[0], st);
                let combos = self.combine(&[rv, a]);
                let mut o = vec![];
                for (g, x) in combos {
                    o.push((g, self.t.call("get", x)));
                }
                self.norm(o)
            }
            ("first", 0) => {
                let z = self.t.mk(Term::Int(0));
                self.map1(&rv, |me, t| me.t.call("get", vec![t, z]))
            }
            ("contains_key", 1) => {
                let a = self.eval(&m.args[0], st);
                let combos = self.combine(&[rv, a]);
                let mut c = F;
                for (g, x) in combos {
                    let t = self.t.call("get", x);
                    let ok = self.good(t);
                    let y = self.b.and(g, ok);
                    c = self.b.or(c, y);
                }
                self.bool_val(c)
            }
            ("contains", 1) => {
                let a = self.eval(&m.args[0], st);
                let a = self.deref_val(a, st);
                let combos = self.combine(&[rv, a]);
                let mut c = F;
                for (g, x) in combos {
                    // membership: some element equals
                    let is_range = matches!(self.t.get(x[0]), Term::Call(n, _) if &**n == "range");
                    let r = if is_range {
                        let Term::Call(_, r) = self.t.get(x[0]).clone() else { unreachable!() };
                        let lo = self.lt(x[1], r[0]);
                        let lo = self.b.not(lo);
                        let hi = self.lt(x[1], r[1]);
                        self.b.and(lo, hi)
                    } else if self.one_char(x[1]).is_some() && self.textual(x[0]) {
                        let (l, c) = self.chars_equal(x[0], x[1]);
                        self.exists_over(&[l], c)
                    } else if matches!(self.ty(x[0]).head(), Some("String" | "str" | "HashSet" | "BTreeSet" | "FxHashSet")) {
                        let t = self.t.call("contains", vec![x[0], x[1]]);
                        self.truth1(t)
                    } else {
                        let mut acc = F;
                        for it in self.items_of(x[0]) {
                            let e = self.eq(it.term, x[1]);
                            let e = self.b.and(it.guard, e);
                            let e = self.exists_over(&it.loops, e);
                            acc = self.b.or(acc, e);
                        }
                        acc
                    };
                    let y = self.b.and(g, r);
                    c = self.b.or(c, y);
                }
                self.bool_val(c)
            }
            ("eq" | "ne", 1) => {
                let a = self.eval(&m.args[0], st);
                let combos = self.combine(&[rv, a]);
                let mut c = F;
                for (g, x) in combos {
                    let e = self.eq(x[0], x[1]);
                    let e = if name == "ne" { self.b.not(e) } else { e };
                    let y = self.b.and(g, e);
                    c = self.b.or(c, y);
                }
                self.bool_val(c)
            }
            ("saturating_sub" | "saturating_add", 1) => {
                let a = self.eval(&m.args[0], st);
                let combos = self.combine(&[rv, a]);
                let op = if name == "saturating_sub" { "-" } else { "+" };
                let mut o = vec![];
                for (g, x) in combos {
                    o.push((g, self.arith(op, x[0], x[1])));
                }
                self.norm(o)
            }
            // ----- iterators -----
            _ if m.args.is_empty() && matches!(name, "any" | "all" | "fold" | "map" | "filter" | "find" | "zip" | "chain" | "take" | "skip" | "nth") => {
                self.opaque(name, vec![rv], st, ln)
            }
            _ if is_iter => self.iter_method(name, rv, m, st, ln),
            ("any" | "all" | "for_each" | "enumerate" | "flat_map" | "filter_map" | "rev" | "zip" | "chain" | "find_map" | "fold", _) => {
                let rv = self.map1(&rv, |me, t| me.t.mk(Term::Iter(t)));
                self.iter_method(name, rv, m, st, ln)
            }
            _ => {
                let mut args = vec![rv];
                for a in &m.args {
                    let v = self.eval(a, st);
                    args.push(v);
                }
                self.opaque(name, args, st, ln)
            }
        }
    }
    /// a pattern of one character, as the character
    fn one_char(&mut self, t: Tid) -> Option<Tid> {
        match self.t.get(t).clone() {
            Term::Sym(s) if s.starts_with('\'') && s.len() > 2 => Some(t),
            Term::Str(s) if s.chars().count() == 1 => {
                Some(self.t.sym(&format!("'{}'", s.chars().next().unwrap_or(' ').escape_default())))
            }
            _ => None,
        }
    }
    /// not known to be a collection
    fn textual(&mut self, t: Tid) -> bool {
        !matches!(self.t.get(t), Term::Coll(_) | Term::Iter(_))
            && match self.ty(t) {
                Ty::Slice(_) | Ty::Tuple(_) => false,
                Ty::Named(n, _) => matches!(n.as_str(), "String" | "str"),
                Ty::Unknown => true,
            }
    }
    /// the characters of `s`, and the condition that one of them is `c`
    fn chars_equal(&mut self, s: Tid, c: Tid) -> (Tid, Bid) {
        let c = self.one_char(c).unwrap_or(c);
        let l = self.t.call("chars", vec![s]);
        let d = self.loop_count(l);
        let e = self.t.mk(Term::Elem(l, d));
        let g = self.eq(e, c);
        (l, g)
    }
    fn unsigned(&mut self, v: &Val) -> bool {
        v.iter().all(|(_, t)| {
            matches!(self.t.get(*t), Term::Call(n, _) if &**n == "len")
                || matches!(self.t.get(*t), Term::Idx(..))
                || matches!(self.ty(*t).head(), Some("usize" | "u32" | "u64" | "u16" | "u8" | "u128"))
        })
    }
    /// payload value usable under its own success condition
    fn cond_payload(&mut self, ok: Val) -> Val {
        if let [(_, t)] = ok.as_slice() {
            return one(*t);
        }
        ok
    }

    fn iter_method(&mut self, name: &str, rv: Val, m: &syn::ExprMethodCall, st: &mut St, ln: usize) -> Val {
        let u = self.unit();
        // all alternatives merged into one item list
        let flat = self.flatten(&rv);
        let mut items: Vec<Item> = vec![];
        for (g, t) in &flat {
            for it in self.items_of(*t) {
                let gg = self.b.and(*g, it.guard);
                items.push(Item { guard: gg, ..it });
            }
        }
        let fval = |me: &mut Self, st: &mut St, i: usize| {
            let f = me.eval(&m.args[i], st);
            me.single(f)
        };
        let wrap = |me: &mut Self, items: Vec<Item>| {
            let c = me.t.mk(Term::Coll(items));
            let i = me.t.mk(Term::Iter(c));
            one(i)
        };
        match name {
            "map" | "inspect" | "flat_map" | "filter_map" | "filter" | "flatten" | "cloned" | "copied" | "by_ref" | "fuse" => {
                if matches!(name, "cloned" | "copied" | "by_ref" | "fuse") {
                    return rv;
                }
                let f = if name == "flatten" { None } else { Some(fval(self, st, 0)) };
                let mut out: Vec<Item> = vec![];
                for it in items {
                    let mut res: Val = vec![];
                    match f {
                        Some(f) => {
                            let term = it.term;
                            let slot: &mut Val = &mut res;
                            let mut r: Option<Val> = None;
                            self.run_loop(st, it.loops.clone(), it.guard, None, ln, &mut |me: &mut Ev<'p>, s: &mut St| {
                                let v = me.apply(f, vec![one(term)], s, ln);
                                r = Some(v);
                            });
                            *slot = r.unwrap_or_default();
                        }
                        None => res = one(it.term),
                    }
                    let res = self.by_text(res);
                    match name {
                        "map" => {
                            for (g, t) in res {
                                let gg = self.b.and(it.guard, g);
                                if gg != F {
                                    out.push(Item { loops: it.loops.clone(), guard: gg, term: t, spread: false });
                                }
                            }
                        }
                        "inspect" => out.push(it),
                        "filter" => {
                            let c = self.truth(&res);
                            let gg = self.b.and(it.guard, c);
                            if gg != F {
                                out.push(Item { guard: gg, ..it });
                            }
                        }
                        "filter_map" => {
                            let (ok, _) = self.opt_split(&res);
                            for (g, t) in self.by_text(ok) {
                                let gg = self.b.and(it.guard, g);
                                if gg != F {
                                    out.push(Item { loops: it.loops.clone(), guard: gg, term: t, spread: false });
                                }
                            }
                        }
                        _ => {
                            // flat_map / flatten: Option or collection
                            for (g, t) in self.flatten(&res) {
                                let gg = self.b.and(it.guard, g);
                                if self.optlike(t) {
                                    let c = self.good(t);
                                    let g2 = self.b.and(gg, c);
                                    if g2 != F {
                                        let p = self.payload(t);
                                        out.push(Item { loops: it.loops.clone(), guard: g2, term: p, spread: false });
                                    }
                                    continue;
                                }
                                for sub in self.items_of(t) {
                                    let mut l = it.loops.clone();
                                    l.extend(sub.loops);
                                    let g2 = self.b.and(gg, sub.guard);
                                    if g2 != F {
                                        out.push(Item { loops: l, guard: g2, term: sub.term, spread: false });
                                    }
                                }
                            }
                        }
                    }
                }
                wrap(self, out)
            }
            "enumerate" => {
                let mut out = vec![];
                let simple = items.len() == 1 && items[0].loops.len() == 1 && items[0].guard == T;
                for (n, it) in items.into_iter().enumerate() {
                    let idx = if simple {
                        let src = it.loops[0];
                        let d = match self.t.get(it.term) {
                            Term::Elem(x, d) if *x == src => *d,
                            _ => 0,
                        };
                        match self.t.get(src).clone() {
                            // positions in a rest count from its start
                            Term::Call(n, a) if &*n == "skip" && a.len() == 2 && matches!(self.t.get(a[1]), Term::Int(_)) => {
                                let d = match self.t.get(it.term) {
                                    Term::Elem(_, d) => *d,
                                    _ => 0,
                                };
                                let i = self.t.mk(Term::Idx(a[0], d));
                                self.t.call("-", vec![i, a[1]])
                            }
                            _ => self.t.mk(Term::Idx(src, d)),
                        }
                    } else if it.loops.is_empty() {
                        self.t.mk(Term::Int(n as i128))
                    } else {
                        self.t.call("nth_index", it.loops.clone())
                    };
                    let t = self.t.mk(Term::Tuple(vec![idx, it.term]));
                    out.push(Item { term: t, ..it });
                }
                wrap(self, out)
            }
            "zip" => {
                let o = self.eval(&m.args[0], st);
                let o = self.single(o);
                let o = match self.t.get(o).clone() {
                    Term::Iter(x) => x,
                    _ => o,
                };
                let mut out = vec![];
                for it in items {
                    if it.loops.len() == 1 {
                        let src = it.loops[0];
                        let d = match self.t.get(it.term) {
                            Term::Elem(x, d) if *x == src => *d,
                            _ => 0,
                        };
                        let idx = self.t.mk(Term::Idx(src, d));
                        // the partner: element at the same index
                        let oi = self.items_of(o);
                        let (partner, osrc) = if oi.len() == 1 && oi[0].loops.len() == 1 && oi[0].guard == T {
                            let s2 = oi[0].loops[0];
                            let at = self.mk_at(s2, idx);
                            let e = self.t.mk(Term::Elem(s2, 0));
                            (self.subst(oi[0].term, e, at), s2)
                        } else {
                            (self.mk_at(o, idx), o)
                        };
                        let t = self.t.mk(Term::Tuple(vec![it.term, partner]));
                        let (la, lb) = (self.mk_len(src), self.mk_len(osrc));
                        let same = self.eq(la, lb);
                        let pc = self.abs_guard(st, T);
                        let off = self.b.diff(pc, same);
                        let l = if osrc == src || self.b.unsat(off) { src } else { self.t.call("zip", vec![src, osrc]) };
                        out.push(Item { loops: vec![l], guard: it.guard, term: t, spread: false });
                    } else {
                        let mut a = it.loops.clone();
                        a.push(o);
                        let l = self.t.call("zip", a);
                        let p = self.t.mk(Term::Elem(o, 0));
                        let t = self.t.mk(Term::Tuple(vec![it.term, p]));
                        out.push(Item { loops: vec![l], guard: it.guard, term: t, spread: false });
                    }
                }
                wrap(self, out)
            }
            "chain" => {
                let o = self.eval(&m.args[0], st);
                for (g, t) in self.flatten(&o) {
                    let optlike = matches!(self.ty(t).head(), Some("Option"));
                    if optlike || matches!(self.t.get(t), Term::Ctor(n, _) if matches!(&**n, "Some" | "None")) {
                        let c = self.good(t);
                        let p = self.payload(t);
                        let gg = self.b.and(g, c);
                        if gg != F {
                            items.push(Item { loops: vec![], guard: gg, term: p, spread: false });
                        }
                        continue;
                    }
                    let inner = match self.t.get(t).clone() {
                        Term::Iter(x) => x,
                        _ => t,
                    };
                    let part = self.items_of(t);
                    let whole = matches!(part.as_slice(), [it] if it.guard == T && !it.spread && it.loops == [inner]
                        && matches!(self.t.get(it.term), Term::Elem(x, _) if *x == inner));
                    if whole {
                        items.push(Item { loops: vec![], guard: g, term: inner, spread: true });
                        continue;
                    }
                    for it in part {
                        let gg = self.b.and(g, it.guard);
                        items.push(Item { guard: gg, ..it });
                    }
                }
                wrap(self, items)
            }
            "rev" | "skip" | "take" | "step_by" | "take_while" | "skip_while" | "map_while" => {
                let mut args: Vec<Tid> = vec![];
                for a in &m.args {
                    let v = self.eval(a, st);
                    let x = self.single(v);
                    let x = match self.t.get(x) {
                        Term::Closure(_) => self.lambda(x, st),
                        _ => x,
                    };
                    args.push(x);
                }
                let mut out = vec![];
                for it in items {
                    let mut l = it.loops.clone();
                    if let Some(last) = l.last_mut() {
                        let mut a = vec![*last];
                        a.extend(args.clone());
                        *last = self.t.call(name, a);
                    } else if name != "rev" {
                        let mut a = vec![it.term];
                        a.extend(args.clone());
                        l.push(self.t.call(name, a));
                    }
                    out.push(Item { loops: l, ..it });
                }
                if name == "rev" {
                    out.reverse();
                }
                wrap(self, out)
            }
            "any" | "all" => {
                let f = fval(self, st, 0);
                let mut acc = F;
                for it in items {
                    let mut r: Val = vec![];
                    let term = it.term;
                    self.run_loop(st, it.loops.clone(), it.guard, None, ln, &mut |me: &mut Ev<'p>, s: &mut St| {
                        r = me.apply(f, vec![one(term)], s, ln);
                    });
                    let c = self.truth(&r);
                    let c = if name == "all" { self.b.not(c) } else { c };
                    let c = self.b.and(it.guard, c);
                    let e = self.exists_over(&it.loops, c);
                    acc = self.b.or(acc, e);
                }
                let acc = if name == "all" { self.b.not(acc) } else { acc };
                self.bool_val(acc)
            }
            "find" | "position" | "find_map" | "rposition" => {
                let f = fval(self, st, 0);
                let mut out: Val = vec![];
                let mut taken = F;
                for it in items {
                    let mut r: Val = vec![];
                    let term = it.term;
                    self.run_loop(st, it.loops.clone(), it.guard, None, ln, &mut |me: &mut Ev<'p>, s: &mut St| {
                        r = me.apply(f, vec![one(term)], s, ln);
                    });
                    let alts: Val = match name {
                        "find_map" => self.opt_split(&r).0,
                        _ => {
                            let c = self.truth(&r);
                            let x = if name == "find" {
                                term
                            } else if it.loops.len() == 1 {
                                let d = match self.t.get(term) {
                                    Term::Elem(_, d) => *d,
                                    _ => 0,
                                };
                                self.t.mk(Term::Idx(it.loops[0], d))
                            } else {
                                self.t.call("nth_index", it.loops.clone())
                            };
                            vec![(c, x)]
                        }
                    };
                    for (g, x) in alts {
                        let g = self.b.and(it.guard, g);
                        let e = self.exists_over(&it.loops, g);
                        let e = self.b.diff(e, taken);
                        if e != F {
                            let s = self.some(x);
                            out.push((e, s));
                            taken = self.b.or(taken, e);
                        }
                    }
                }
                let n = self.none();
                let nt = self.b.not(taken);
                out.push((nt, n));
                self.norm(out)
            }
            "for_each" | "try_for_each" => {
                let f = fval(self, st, 0);
                for it in items {
                    let term = it.term;
                    self.run_loop(st, it.loops.clone(), it.guard, None, ln, &mut |me: &mut Ev<'p>, s: &mut St| {
                        me.apply(f, vec![one(term)], s, ln);
                    });
                }
                one(u)
            }
            "fold" => {
                let init = self.eval(&m.args[0], st);
                let f = fval(self, st, 1);
                // fold over one symbolic step
                let slot = self.new_slot(st, init);
                for it in items {
                    let term = it.term;
                    self.run_loop(st, it.loops.clone(), it.guard, None, ln, &mut |me: &mut Ev<'p>, s: &mut St| {
                        let cur = me.load(s, slot);
                        let v = me.apply(f, vec![cur, one(term)], s, ln);
                        Rc::make_mut(&mut s.mem).insert(slot, v);
                    });
                }
                self.load(st, slot)
            }
            "unzip" => {
                let mut a = vec![];
                let mut b = vec![];
                for it in items {
                    let x = self.field_of(it.term, "0");
                    let y = self.field_of(it.term, "1");
                    a.push(Item { term: x, ..it.clone() });
                    b.push(Item { term: y, ..it });
                }
                let a = self.t.mk(Term::Coll(a));
                let b = self.t.mk(Term::Coll(b));
                let t = self.t.mk(Term::Tuple(vec![a, b]));
                one(t)
            }
            "next" if m.args.is_empty() && items.iter().any(|i| i.guard != T && !i.loops.is_empty()) && items.iter().all(|i| !i.spread) => {
                // the first that passes a filter: what `find` gives
                let mut out: Val = vec![];
                let mut taken = F;
                for it in items {
                    let e = self.exists_over(&it.loops, it.guard);
                    let e = self.b.diff(e, taken);
                    if e != F {
                        let s = self.some(it.term);
                        out.push((e, s));
                        taken = self.b.or(taken, e);
                    }
                }
                let n = self.none();
                let nt = self.b.not(taken);
                out.push((nt, n));
                self.norm(out)
            }
            "next" if m.args.is_empty() => {
                let z = self.t.mk(Term::Int(0));
                self.map1(&rv, |me, t| {
                    let x = match me.t.get(t).clone() {
                        Term::Iter(x) => x,
                        _ => t,
                    };
                    me.t.call("get", vec![x, z])
                })
            }
            _ => {
                let mut args: Vec<Val> = vec![self.map1(&rv, |me, t| match me.t.get(t).clone() {
                    Term::Iter(x) => x,
                    _ => t,
                })];
                for a in &m.args {
                    let v = self.eval(a, st);
                    args.push(v);
                }
                self.opaque(name, args, st, ln)
            }
        }
    }

    /// replace one leaf term by another (used to re-index zipped sources)
    pub fn subst(&mut self, t: Tid, from: Tid, to: Tid) -> Tid {
        if t == from {
            return to;
        }
        match self.t.get(t).clone() {
            Term::Field(b, f) => {
                let x = self.subst(b, from, to);
                self.field_of(x, &f)
            }
            Term::Proj(b, v, f) => {
                let x = self.subst(b, from, to);
                self.project(x, &v, &f)
            }
            Term::Tuple(v) => {
                let v = v.into_iter().map(|x| self.subst(x, from, to)).collect();
                self.t.mk(Term::Tuple(v))
            }
            Term::Call(n, v) => {
                let v = v.into_iter().map(|x| self.subst(x, from, to)).collect();
                self.t.mk(Term::Call(n, v))
            }
            Term::Ctor(n, v) => {
                let v = v.into_iter().map(|(k, x)| (k, self.subst(x, from, to))).collect();
                self.t.mk(Term::Ctor(n, v))
            }
            _ => t,
        }
    }

    // ---------- macros ----------
    pub fn eval_macro(&mut self, mac: &syn::Macro, st: &mut St, ln: usize) -> Val {
        use syn::parse::Parser;
        use syn::punctuated::Punctuated;
        let name = mac.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        let u = self.unit();
        let args: Option<Vec<Expr>> = Punctuated::<Expr, syn::Token![,]>::parse_terminated
            .parse2(mac.tokens.clone())
            .ok()
            .map(|p| p.into_iter().collect());
        match name.as_str() {
            "select" => {
                if let Some(v) = self.grammar_select(mac.tokens.clone(), st) {
                    return v;
                }
            }
            "matches" => {
                let parsed = (|input: syn::parse::ParseStream| {
                    let e: Expr = input.parse()?;
                    let _: syn::Token![,] = input.parse()?;
                    let p = syn::Pat::parse_multi_with_leading_vert(input)?;
                    let g = if input.peek(syn::Token![if]) {
                        let _: syn::Token![if] = input.parse()?;
                        Some(input.parse::<Expr>()?)
                    } else {
                        None
                    };
                    let _: Option<syn::Token![,]> = input.parse()?;
                    Ok((e, p, g))
                })
                .parse2(mac.tokens.clone());
                if let Ok((e, p, g)) = parsed {
                    let v = self.eval(&e, st);
                    let v = self.deref_val(v, st);
                    let (c, binds) = self.test_val(&p, &v);
                    let mut cond = c;
                    if let Some(g) = g {
                        let mut s = st.clone();
                        s.pc = self.assume(st.pc, c);
                        self.push_scope(&mut s);
                        for (n, x) in binds {
                            self.bind(&mut s, &n, x);
                        }
                        let (gc, _) = self.eval_cond(&g, &mut s);
                        cond = self.assume(c, gc);
                    }
                    return self.bool_val(cond);
                }
            }
            "vec" | "array" => {
                if let Some(a) = args {
                    let mut items = vec![];
                    for e in &a {
                        let v = self.eval(e, st);
                        let v = self.deref_val(v, st);
                        for (g, t) in v {
                            items.push(Item { loops: vec![], guard: g, term: t, spread: false });
                        }
                    }
                    let t = self.t.mk(Term::Coll(items));
                    return one(t);
                }
                let rep = (|input: syn::parse::ParseStream| {
                    let e: Expr = input.parse()?;
                    let _: syn::Token![;] = input.parse()?;
                    let n: Expr = input.parse()?;
                    Ok((e, n))
                })
                .parse2(mac.tokens.clone());
                if let Ok((e, n)) = rep {
                    let a = self.eval(&e, st);
                    let b = self.eval(&n, st);
                    let (a, b) = (self.single(a), self.single(b));
                    let t = self.t.call("repeat", vec![a, b]);
                    return one(t);
                }
            }
            "format" | "concat" => {
                if let Some(a) = args {
                    return self.fmt_val(&a, st);
                }
            }
            "write" | "writeln" | "print" | "println" | "eprint" | "eprintln" | "debug" | "info" | "warn" | "error"
            | "trace" | "log" => {
                if let Some(a) = args {
                    if matches!(name.as_str(), "debug" | "info" | "warn" | "error" | "trace" | "log") {
                        return one(u); // logging is not an observable effect here
                    }
                    let is_w = name.starts_with("write");
                    let (dest, rest) = if is_w && !a.is_empty() {
                        (Some(self.eval(&a[0], st)), &a[1..])
                    } else {
                        (None, &a[..])
                    };
                    let mut f = if rest.is_empty() {
                        let t = self.t.mk(Term::Str("".into()));
                        one(t)
                    } else {
                        self.fmt_val(rest, st)
                    };
                    if name.ends_with("ln") {
                        f = self.map1(&f, |me, t| {
                            let mut parts = match me.t.get(t).clone() {
                                Term::Fmt(p) => p,
                                Term::Str(s) => vec![FmtPart::Str(s)],
                                _ => vec![FmtPart::Arg(t, "".into())],
                            };
                            match parts.last_mut() {
                                Some(FmtPart::Str(s)) => {
                                    let n: String = format!("{}\n", s);
                                    *s = n.as_str().into();
                                }
                                _ => parts.push(FmtPart::Str("\n".into())),
                            }
                            me.t.mk(Term::Fmt(parts))
                        });
                    }
                    if let Some(d) = dest {
                        // local String
                        if let Some(s) = self.local_slot(&a[0], st).map(|s| self.final_slot(st, s)) {
                            let cur = self.load(st, s);
                            if matches!(cur.as_slice(), [(_, t)] if matches!(self.t.get(*t), Term::Coll(_))) {
                                self.coll_push(s, f, false, st);
                                let ok = self.t.mk(Term::Ctor("Ok".into(), vec![("0".into(), u)]));
                                return one(ok);
                            }
                        }
                        return self.opaque("write!", vec![d, f], st, ln);
                    }
                    let n = if name.starts_with('e') { "eprint!" } else { "print!" };
                    self.opaque(n, vec![f], st, ln);
                    return one(u);
                }
            }
            "panic" | "unreachable" | "todo" | "unimplemented" => {
                let t = self.t.sym(&name);
                self.effect(st, EffKind::Panic, T, t, ln);
                st.pc = F;
                return one(u);
            }
            "bail" | "ensure" => {
                if let Some(a) = args.clone() {
                    if name == "bail" {
                        let m = self.fmt_val(&a, st);
                        let m = self.single(m);
                        let e = self.t.call("anyhow", vec![m]);
                        let v = self.t.mk(Term::Ctor("Err".into(), vec![("0".into(), e)]));
                        self.do_return(st, one(v), ln);
                        return one(u);
                    }
                    if !a.is_empty() {
                        let (c, _) = self.eval_cond(&a[0], st);
                        let nc = self.b.not(c);
                        let mut s = st.clone();
                        s.pc = self.assume(st.pc, nc);
                        let m = if a.len() > 1 { self.fmt_val(&a[1..], &mut s) } else { one(u) };
                        let m = self.single(m);
                        let e = self.t.call("anyhow", vec![m]);
                        let v = self.t.mk(Term::Ctor("Err".into(), vec![("0".into(), e)]));
                        self.do_return(&mut s, one(v), ln);
                        st.pc = self.assume(st.pc, c);
                        return one(u);
                    }
                }
            }
            "anyhow" => {
                if let Some(a) = args.clone() {
                    let m = self.fmt_val(&a, st);
                    let m = self.single(m);
                    let e = self.t.call("anyhow", vec![m]);
                    return one(e);
                }
            }
            "assert" | "assert_eq" | "assert_ne" => {
                if let Some(a) = args.clone() {
                    let c = match (name.as_str(), a.len()) {
                        ("assert", n) if n >= 1 => self.eval_cond(&a[0], st).0,
                        (_, n) if n >= 2 => {
                            let x = self.eval(&a[0], st);
                            let y = self.eval(&a[1], st);
                            let mut c = F;
                            for (g, p) in self.combine(&[x, y]) {
                                let e = self.eq(p[0], p[1]);
                                let e = if name == "assert_ne" { self.b.not(e) } else { e };
                                let z = self.b.and(g, e);
                                c = self.b.or(c, z);
                            }
                            c
                        }
                        _ => T,
                    };
                    let nc = self.b.not(c);
                    let t = self.t.sym("assert");
                    self.effect(st, EffKind::Panic, nc, t, ln);
                    st.pc = self.assume(st.pc, c);
                    return one(u);
                }
            }
            "debug_assert" | "debug_assert_eq" | "debug_assert_ne" => return one(u),
            "include_str" | "env" | "include_bytes" => {
                let s = tokens(&mac.tokens);
                let t = self.t.sym(&format!("{}!({})", name, s));
                return one(t);
            }
            _ => {}
        }
        if let Some(a) = args {
            let vals: Vec<Val> = a.iter().map(|e| self.eval(e, st)).collect();
            return self.opaque(&format!("{}!", name), vals, st, ln);
        }
        let s = mac.tokens.to_string();
        let t = self.t.sym(&format!("{}!({})", name, s));
        let c = self.t.call(&format!("{}!", name), vec![t]);
        self.effect(st, EffKind::Call, T, c, ln);
        one(c)
    }

    pub fn fmt_val(&mut self, a: &[Expr], st: &mut St) -> Val {
        let Some(Expr::Lit(l)) = a.first() else {
            if let Some(e) = a.first() {
                return self.eval(e, st);
            }
            let t = self.t.mk(Term::Str("".into()));
            return one(t);
        };
        let syn::Lit::Str(s) = &l.lit else {
            let t = self.lit_term(&l.lit);
            return one(t);
        };
        let mut named: HashMap<String, Val> = HashMap::new();
        let mut pos: Vec<Val> = vec![];
        for e in &a[1..] {
            if let Expr::Assign(x) = e {
                if let Expr::Path(p) = &*x.left {
                    if let Some(i) = p.path.get_ident() {
                        let v = self.eval(&x.right, st);
                        named.insert(i.to_string(), v);
                        continue;
                    }
                }
            }
            let v = self.eval(e, st);
            pos.push(v);
        }
        // parse the format string
        let text = s.value();
        let mut parts: Vec<FmtPart> = vec![];
        let mut vals: Vec<Val> = vec![];
        let mut spec: Vec<String> = vec![];
        let mut lit = String::new();
        let ch: Vec<char> = text.chars().collect();
        let mut i = 0;
        let mut next = 0;
        while i < ch.len() {
            match ch[i] {
                '{' if ch.get(i + 1) == Some(&'{') => {
                    lit.push('{');
                    i += 2;
                }
                '}' if ch.get(i + 1) == Some(&'}') => {
                    lit.push('}');
                    i += 2;
                }
                '{' => {
                    let mut j = i + 1;
                    let mut body = String::new();
                    while j < ch.len() && ch[j] != '}' {
                        body.push(ch[j]);
                        j += 1;
                    }
                    i = j + 1;
                    let (n, sp) = match body.split_once(':') {
                        Some((n, sp)) => (n.trim().to_string(), format!(":{}", sp)),
                        None => (body.trim().to_string(), String::new()),
                    };
                    let v = if n.is_empty() {
                        next += 1;
                        pos.get(next - 1).cloned().unwrap_or_default()
                    } else if let Ok(k) = n.parse::<usize>() {
                        pos.get(k).cloned().unwrap_or_default()
                    } else if let Some(v) = named.get(&n) {
                        v.clone()
                    } else if let Some(s) = self.lookup(st, &n) {
                        self.load(st, s)
                    } else if let Ok(p) = syn::parse_str::<syn::Path>(&n) {
                        match self.const_term(&p) {
                            Some(t) => one(t),
                            None => one(self.t.sym(&n)),
                        }
                    } else {
                        one(self.t.sym(&n))
                    };
                    if !lit.is_empty() {
                        parts.push(FmtPart::Str(lit.as_str().into()));
                        lit.clear();
                    }
                    parts.push(FmtPart::Arg(vals.len() as Tid, "".into()));
                    let v = self.deref_val(v, st);
                    let v = self.map1(&v, |me, t| match me.t.get(t).clone() {
                        Term::Iter(x) => x,
                        _ => t,
                    });
                    vals.push(v);
                    spec.push(sp);
                }
                c => {
                    lit.push(c);
                    i += 1;
                }
            }
        }
        if !lit.is_empty() {
            parts.push(FmtPart::Str(lit.as_str().into()));
        }
        let combos = self.combine(&vals);
        let mut out = vec![];
        for (g, a) in combos {
            let mut ps: Vec<FmtPart> = vec![];
            let push_str = |ps: &mut Vec<FmtPart>, s: &str| {
                if let Some(FmtPart::Str(x)) = ps.last_mut() {
                    let n = format!("{}{}", x, s);
                    *x = n.as_str().into();
                } else {
                    ps.push(FmtPart::Str(s.into()));
                }
            };
            for p in &parts {
                match p {
                    FmtPart::Str(s) => push_str(&mut ps, s),
                    FmtPart::Arg(k, _) => {
                        let t = a[*k as usize];
                        let sp = &spec[*k as usize];
                        match self.t.get(t).clone() {
                            Term::Str(s) if sp.is_empty() => push_str(&mut ps, &s),
                            Term::Fmt(inner) if sp.is_empty() => {
                                for q in inner {
                                    match q {
                                        FmtPart::Str(s) => push_str(&mut ps, &s),
                                        x => ps.push(x),
                                    }
                                }
                            }
                            _ => ps.push(FmtPart::Arg(t, sp.as_str().into())),
                        }
                    }
                }
            }
            let t = match ps.as_slice() {
                [] => self.t.mk(Term::Str("".into())),
                [FmtPart::Str(s)] => self.t.mk(Term::Str(s.clone())),
                [FmtPart::Arg(t, sp)] if sp.is_empty() => *t,
                _ => self.t.mk(Term::Fmt(ps)),
            };
            out.push((g, t));
        }
        self.norm(out)
    }

    // ---------- roots ----------
    /// summarise one function: its effects are left in self.effects
    pub fn run_root(&mut self, f: usize) {
        let p = self.p;
        let info = &p.fns[f];
        let mut st = self.empty_state();
        self.effects.clear();
        self.loops.clear();
        self.loop_stack.clear();
        self.loop_frames.clear();
        self.pcs.clear();
        self.frames.clear();
        self.closures.clear();
        self.stack = vec![f];
        self.slot_depth.clear();
        self.slot_pc.clear();
        self.seq = 0;
        self.steps = 0;
        self.truncated = false;
        self.sym_ty.clear();
        self.ty_cache.clear();
        self.canon_memo.clear();
        self.str_slots.clear();
        self.own_slots.clear();
        self.frames.push(Frame {
            func: f,
            rets: vec![],
            loop_frames: 0,
            ret_is_option: info.ret.head() == Some("Option"),
            self_ty: info.self_ty.clone(),
            file: info.file.clone(),
        });
        if info.has_self {
            let s = self.t.sym("self");
            if let Some(t) = &info.self_ty {
                self.sym_ty.insert(s, Ty::Named(t.clone(), vec![]));
            }
            self.bind(&mut st, "self", one(s));
        }
        for (i, (pat, ty)) in info.params.iter().enumerate() {
            let s = self.t.sym(&format!("p{}", i));
            self.sym_ty.insert(s, ty.clone());
            self.bind_pat(&mut st, pat, one(s));
        }
        let block = info.block.clone();
        let th = info.ret.head().map(|h| h.to_string());
        self.tail_hint = Self::ends_in_collect(&block).then_some(th).flatten().map(|h| (h, Rc::as_ptr(&block) as usize));
        let v = self.eval_block(&block, &mut st);
        let fr = self.frames.pop().unwrap();
        let mut rets = fr.rets;
        let unit_fn = info.ret == Ty::Tuple(vec![]);
        let unit_ok = matches!(&info.ret, Ty::Named(n, a) if matches!(n.as_str(), "Result" | "Option") && a.first() == Some(&Ty::Tuple(vec![])));
        if st.pc != F {
            rets.push((st, v, info.end_line));
        }
        self.frames.push(Frame {
            func: f,
            rets: vec![],
            loop_frames: 0,
            ret_is_option: false,
            self_ty: None,
            file: info.file.clone(),
        });
        if !unit_fn {
            for (s, v, ln) in rets {
                let v = self.deref_val(v, &s);
                let v = self.flatten(&v);
                for (g, t) in v {
                    let t = match self.t.get(t).clone() {
                        Term::Ctor(n, fs) if unit_ok && fs.len() == 1 && matches!(&*n, "Ok" | "Some") => {
                            let u = self.unit();
                            self.t.mk(Term::Ctor(n, vec![(fs[0].0.clone(), u)]))
                        }
                        _ => t,
                    };
                    self.effect(&s, EffKind::Return, g, t, ln);
                }
            }
        }
        self.frames.pop();
    }
}

/// methods after which a collection is another one
const SHRINKS: &[&str] = &["pop", "remove", "swap_remove", "truncate", "retain", "drain", "split_off", "reverse", "dedup", "pop_front", "pop_back", "clear"];
pub const SORTS: &[&str] = &[
    "sort", "sort_unstable", "sort_by", "sort_unstable_by", "sort_by_key", "sort_unstable_by_key", "sort_by_cached_key",
];

pub fn is_map(n: &str) -> bool {
    matches!(n, "HashMap" | "HashSet" | "BTreeMap" | "BTreeSet" | "FxHashMap" | "FxHashSet" | "IndexMap" | "IndexSet")
}

fn diverges(name: &str) -> bool {
    matches!(name, "process::exit" | "exit" | "abort")
}

pub fn is_common_std(n: &str) -> bool {
    matches!(
        n,
        "map" | "and_then" | "unwrap_or" | "unwrap_or_else" | "unwrap" | "expect" | "iter" | "into_iter" | "len"
            | "is_empty" | "push" | "insert" | "get" | "contains" | "collect" | "clone" | "filter" | "find" | "any" | "all"
            | "join" | "extend" | "to_string" | "into" | "as_ref" | "as_str" | "ok" | "err" | "is_some" | "is_none"
            | "is_ok" | "is_err" | "first" | "last" | "next" | "remove" | "entry" | "sort" | "sort_by" | "sort_by_key"
            | "chars" | "split" | "trim" | "cloned" | "copied" | "enumerate" | "zip" | "rev" | "take" | "skip" | "fold"
            | "ok_or" | "ok_or_else" | "map_err" | "iter_mut" | "contains_key" | "pop" | "is_some_and" | "filter_map"
            | "flat_map" | "for_each" | "position" | "values" | "keys" | "eq" | "cmp" | "unwrap_or_default" | "get_mut"
            | "append" | "start" | "end" | "write" | "read" | "replace" | "max" | "min" | "display" | "exists"
    )
}
