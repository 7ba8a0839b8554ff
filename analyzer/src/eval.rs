//! Abstract interpreter over the syntax tree: computes guarded-effect summaries.
//! No program is run; every path of a function is joined symbolically.
use crate::bdd::{Atom, Bdd, Bid, F, T};
use crate::program::{FnInfo, Program, Ty};
use crate::term::{Item, Term, Terms, Tid};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

/// guarded alternatives
pub type Val = Vec<(Bid, Tid)>;

#[derive(Clone)]
pub struct St {
    pub pc: Bid,
    pub scopes: Vec<Rc<HashMap<String, u32>>>,
    pub mem: Rc<HashMap<u32, Val>>,
    pub heap: Rc<BTreeMap<Tid, Val>>,
}

#[derive(Clone, Debug)]
pub enum EffKind {
    Call,
    Store,
    Return,
    Panic,
}

#[derive(Clone)]
pub struct Effect {
    pub seq: usize,
    pub kind: EffKind,
    /// Call: the call term; Store: call "=" [place, value]; Return: value
    pub term: Tid,
    pub guard: Bid,
    pub loops: Vec<usize>,
    pub line: usize,
    pub func: usize,
}

pub struct LoopInfo {
    pub iters: Vec<Tid>,
    pub until: Bid,
    pub line: usize,
}

pub struct LoopFrame {
    pub label: Option<String>,
    pub conts: Vec<St>,
    pub breaks: Vec<(St, Val)>,
}

pub struct Frame {
    pub func: usize,
    pub rets: Vec<(St, Val, usize)>,
    pub loop_frames: usize,
    pub ret_is_option: bool,
    pub self_ty: Option<String>,
    pub file: String,
}

#[derive(Clone)]
pub struct ClosureInfo {
    pub expr: Rc<syn::ExprClosure>,
    pub scopes: Vec<Rc<HashMap<String, u32>>>,
    pub self_ty: Option<String>,
    pub file: String,
    pub func: usize,
}

pub struct Ev<'p> {
    pub p: &'p Program,
    pub t: Terms,
    pub b: Bdd,
    pub effects: Vec<Effect>,
    pub loops: Vec<LoopInfo>,
    pub loop_stack: Vec<usize>,
    pub loop_frames: Vec<LoopFrame>,
    pub pcs: Vec<Bid>,
    pub frames: Vec<Frame>,
    pub closures: Vec<ClosureInfo>,
    pub stack: Vec<usize>,
    /// decides whether a resolved function is opened
    pub inline: Rc<dyn Fn(&FnInfo) -> bool>,
    pub slot_depth: Vec<(usize, usize)>,
    /// path condition under which each slot was made
    pub slot_pc: Vec<Bid>,
    /// the next loop goes on until it is left
    pub endless: bool,
    pub seq: usize,
    pub truncated: bool,
    pub steps: usize,
    pub max_steps: usize,
    pub sym_ty: HashMap<Tid, Ty>,
    pub call_ty: HashMap<String, Option<Ty>>,
    /// method chains are grammar combinators: nothing is interpreted as Option/Iterator
    pub combinator: bool,
    pub aliases: HashMap<String, HashMap<String, String>>,
    /// variants named by a `use` of their enum, per file, and per function
    pub variants_in: HashMap<(String, String), String>,
    pub variants_local: HashMap<(usize, String), String>,
    /// the call being made is of a function of the project that returns no boolean
    pub not_bool: bool,
    pub lambda_depth: usize,
    /// closures handed to code that is not opened, around this point
    pub lam_nest: usize,
    pub rec_nest: usize,
    pub max_inline: usize,
    pub ty_cache: HashMap<Tid, Ty>,
    pub inlined: std::collections::BTreeSet<usize>,
    /// tell equal fresh locals apart by variable name (else by order of creation)
    pub name_locals: bool,
    /// the type the `collect` about to be evaluated is known to build
    pub collect_hint: Option<String>,
    pub tail_hint: Option<(String, usize)>,
    pub canon_memo: HashMap<Tid, Val>,
    /// slots of locals that own a string
    pub str_slots: std::collections::HashSet<u32>,
    pub own_slots: std::collections::HashSet<u32>,
}

pub fn one(t: Tid) -> Val {
    vec![(T, t)]
}

impl<'p> Ev<'p> {
    pub fn new(p: &'p Program, inline: Rc<dyn Fn(&FnInfo) -> bool>) -> Self {
        let mut b = Bdd::new();
        for (n, e) in &p.enums {
            b.enums.insert(n.clone(), e.variants.iter().map(|v| v.name.clone()).collect());
        }
        let mut call_ty: HashMap<String, Option<Ty>> = HashMap::new();
        for f in &p.fns {
            call_ty
                .entry(f.name.clone())
                .and_modify(|x| {
                    if x.as_ref() != Some(&f.ret) {
                        *x = None
                    }
                })
                .or_insert(Some(f.ret.clone()));
        }
        Ev {
            p,
            t: Terms::new(),
            b,
            effects: vec![],
            loops: vec![],
            loop_stack: vec![],
            loop_frames: vec![],
            pcs: vec![],
            frames: vec![],
            closures: vec![],
            stack: vec![],
            inline,
            slot_depth: vec![],
            slot_pc: vec![],
            seq: 0,
            endless: false,
            truncated: false,
            steps: 0,
            max_steps: 400_000,
            sym_ty: HashMap::new(),
            call_ty,
            combinator: false,
            aliases: build_aliases(p),
            variants_in: build_variants(p),
            variants_local: HashMap::new(),
            not_bool: false,
            lambda_depth: 0,
            lam_nest: 0,
            rec_nest: 0,
            max_inline: 10,
            ty_cache: HashMap::new(),
            inlined: Default::default(),
            name_locals: false,
            collect_hint: None,
            tail_hint: None,
            canon_memo: HashMap::new(),
            str_slots: Default::default(),
            own_slots: Default::default(),
        }
    }

    pub fn show(&mut self, t: Tid) -> Rc<str> {
        self.t.show(&mut self.b, t)
    }
    pub fn unit(&mut self) -> Tid {
        self.t.mk(Term::Tuple(vec![]))
    }
    pub fn atom(&mut self, a: Atom) -> Bid {
        self.b.atom(a)
    }

    // ---------- state ----------
    pub fn push_scope(&self, st: &mut St) {
        st.scopes.push(Rc::new(HashMap::new()));
    }
    pub fn pop_scope(&self, st: &mut St) {
        st.scopes.pop();
    }
    pub fn new_slot(&mut self, st: &mut St, v: Val) -> u32 {
        let s = self.slot_depth.len() as u32;
        self.slot_depth.push((self.pcs.len(), self.loop_stack.len()));
        self.slot_pc.push(st.pc);
        Rc::make_mut(&mut st.mem).insert(s, v);
        s
    }
    pub fn bind(&mut self, st: &mut St, name: &str, v: Val) {
        let s = self.new_slot(st, v);
        let sc = st.scopes.last_mut().expect("scope");
        Rc::make_mut(sc).insert(name.to_string(), s);
    }
    /// a mutable local initialised by an argument-less constructor is an object of its own
    pub fn own_object(&mut self, name: &str, v: Val, st: &St) -> Val {
        let [(g, t)] = v.as_slice() else { return v };
        let (g, t) = (*g, *t);
        let Term::Call(n, a) = self.t.get(t).clone() else { return v };
        let last = n.rsplit("::").next().unwrap_or("").to_string();
        if !n.contains("::") || !matches!(last.as_str(), "new" | "default") || !a.is_empty() {
            return v;
        }
        let mut live: Vec<Tid> = vec![];
        for sc in &st.scopes {
            for (vn, s) in sc.iter() {
                if vn == name {
                    continue;
                }
                if let Some(x) = st.mem.get(s) {
                    live.extend(x.iter().map(|y| y.1));
                }
            }
        }
        if self.name_locals {
            let x = self.t.call(&format!("{}#{}", n, name), vec![]);
            return vec![(g, x)];
        }
        if !live.contains(&t) {
            return v;
        }
        for k in 2..20 {
            let x = self.t.call(&format!("{}#{}", n, k), vec![]);
            if !live.contains(&x) {
                return vec![(g, x)];
            }
        }
        v
    }
    pub fn lookup(&self, st: &St, name: &str) -> Option<u32> {
        st.scopes.iter().rev().find_map(|s| s.get(name).copied())
    }
    /// follow reference slots to the slot that holds the object
    pub fn final_slot(&self, st: &St, mut s: u32) -> u32 {
        for _ in 0..20 {
            match st.mem.get(&s).map(|v| v.as_slice()) {
                Some([(_, t)]) => {
                    if let Term::Ref(n) = self.t.get(*t) {
                        s = *n;
                        continue;
                    }
                }
                _ => {}
            }
            break;
        }
        s
    }
    pub fn load(&self, st: &St, s: u32) -> Val {
        let s = self.final_slot(st, s);
        st.mem.get(&s).cloned().unwrap_or_default()
    }
    pub fn abs_guard(&mut self, st: &St, g: Bid) -> Bid {
        let mut r = self.b.and(st.pc, g);
        for i in (0..self.pcs.len()).rev() {
            let p = self.pcs[i];
            r = self.b.and(p, r);
        }
        r
    }
    pub fn norm(&mut self, v: Val) -> Val {
        let mut out: Vec<(Bid, Tid)> = vec![];
        for (g, t) in v {
            if g == F {
                continue;
            }
            if let Some(e) = out.iter_mut().find(|e| e.1 == t) {
                e.0 = self.b.or(e.0, g);
            } else {
                out.push((g, t));
            }
        }
        if out.len() > 24 {
            let t = self.t.mk(Term::Mux(out));
            return one(t);
        }
        out
    }
    fn prefix_coll(&self, v: &[(Bid, Val)]) -> Option<Vec<Item>> {
        // every alternative a single Coll; share the longest common prefix, append the rest
        let mut colls: Vec<&Vec<Item>> = vec![];
        for (_, x) in v {
            match x.as_slice() {
                [(_, t)] => match self.t.get(*t) {
                    Term::Coll(i) => colls.push(i),
                    _ => return None,
                },
                _ => return None,
            }
        }
        let min = colls.iter().map(|c| c.len()).min()?;
        let mut k = 0;
        while k < min && colls.iter().all(|c| c[k] == colls[0][k]) {
            k += 1;
        }
        let mut r = colls[0][..k].to_vec();
        for c in colls {
            for i in &c[k..] {
                r.push(i.clone());
            }
        }
        Some(r)
    }
    pub fn join_vals(&mut self, alts: Vec<(Bid, Val)>) -> Val {
        if alts.is_empty() {
            return vec![];
        }
        if alts.iter().all(|(_, v)| *v == alts[0].1) {
            return alts[0].1.clone();
        }
        let mut out = vec![];
        for (c, v) in alts {
            for (g, t) in v {
                out.push((self.b.and(c, g), t));
            }
        }
        self.norm(out)
    }
    /// Join the states of disjoint branches. `outs` = (condition, state, value).
    pub fn join(&mut self, base: &St, outs: Vec<(Bid, St, Val)>) -> (St, Val) {
        let live: Vec<_> = outs.into_iter().filter(|(c, s, _)| *c != F && s.pc != F).collect();
        if live.is_empty() {
            let mut s = base.clone();
            s.pc = F;
            return (s, vec![]);
        }
        if live.len() == 1 {
            let (_, s, v) = live.into_iter().next().unwrap();
            let mut st = s;
            st.scopes = base.scopes.clone();
            return (st, v);
        }
        let mut st = base.clone();
        let mut pc = F;
        for (_, s, _) in &live {
            pc = self.b.or(pc, s.pc);
        }
        st.pc = pc;
        // memory
        let mut changed: Vec<u32> = vec![];
        for (_, s, _) in &live {
            if Rc::ptr_eq(&s.mem, &base.mem) {
                continue;
            }
            for (k, v) in s.mem.iter() {
                if let Some(b) = base.mem.get(k) {
                    if b != v && !changed.contains(k) {
                        changed.push(*k);
                    }
                }
            }
        }
        changed.sort();
        for k in changed {
            let alts: Vec<(Bid, Val)> =
                live.iter().map(|(c, s, _)| (*c, s.mem.get(&k).cloned().unwrap_or_default())).collect();
            let v = if let Some(items) = self.prefix_coll(&alts) {
                one(self.t.mk(Term::Coll(items)))
            } else {
                self.join_vals(alts)
            };
            Rc::make_mut(&mut st.mem).insert(k, v);
        }
        let mut hk: Vec<Tid> = vec![];
        for (_, s, _) in &live {
            for k in s.heap.keys() {
                if !hk.contains(k) {
                    hk.push(*k);
                }
            }
        }
        for k in hk {
            let alts: Vec<(Bid, Val)> = live
                .iter()
                .map(|(c, s, _)| (*c, s.heap.get(&k).cloned().unwrap_or_else(|| one(k))))
                .collect();
            let v = self.join_vals(alts);
            Rc::make_mut(&mut st.heap).insert(k, v);
        }
        let vals: Vec<(Bid, Val)> = live.into_iter().map(|(c, _, v)| (c, v)).collect();
        let v = self.join_vals(vals);
        (st, v)
    }

    pub fn effect(&mut self, st: &St, kind: EffKind, g: Bid, term: Tid, line: usize) {
        let guard = self.abs_guard(st, g);
        if guard == F {
            return;
        }
        let func = self.frames.last().map(|f| f.func).unwrap_or(0);
        self.seq += 1;
        let e = Effect { seq: self.seq, kind, term, guard, loops: self.loop_stack.clone(), line, func };
        self.effects.push(e);
    }

    // ---------- types of terms ----------
    pub fn ty(&mut self, t: Tid) -> Ty {
        if let Some(x) = self.ty_cache.get(&t) {
            return x.clone();
        }
        let r = match self.t.get(t).clone() {
            Term::Sym(_) => self.sym_ty.get(&t).cloned().unwrap_or(Ty::Unknown),
            Term::Field(b, f) => {
                let bt = self.ty(b);
                match &bt {
                    Ty::Named(n, _) => self
                        .p
                        .structs
                        .get(n)
                        .and_then(|s| s.fields.iter().find(|x| *x.name == *f))
                        .map(|x| x.ty.clone())
                        .unwrap_or(Ty::Unknown),
                    Ty::Tuple(v) => {
                        f.parse::<usize>().ok().and_then(|i| v.get(i).cloned()).unwrap_or(Ty::Unknown)
                    }
                    _ => Ty::Unknown,
                }
            }
            Term::Proj(b, v, f) => {
                let bt = self.ty(b);
                if &*v == "Ok" {
                    bt.arg(0)
                } else if &*v == "Err" {
                    bt.arg(1)
                } else if let Some((e, vn)) = v.rsplit_once("::") {
                    self.p
                        .variant(e, vn)
                        .and_then(|x| x.fields.iter().find(|y| *y.name == *f))
                        .map(|y| y.ty.clone())
                        .unwrap_or(Ty::Unknown)
                } else {
                    Ty::Unknown
                }
            }
            Term::Elem(b, _) => elem_ty(self.ty(b)),
            Term::Iter(b) => self.ty(b),
            Term::Ctor(n, _) => {
                let h = n.split("::").next().unwrap_or("").to_string();
                Ty::Named(h, vec![])
            }
            Term::Call(n, a) if self.parser_call(&n, a.len()) => Self::parser_ty(),
            Term::Call(n, a) => match &*n {
                "rev" | "skip" | "take" | "at_from" | "sorted" | "sorted_by" => a.first().map(|&x| self.ty(x)).unwrap_or(Ty::Unknown),
                "shrunk" => match self.t.get(a[0]).clone() {
                    Term::Call(_, b) if !b.is_empty() => self.ty(b[0]),
                    _ => Ty::Unknown,
                },
                "at" => a.first().map(|&x| value_ty(self.ty(x))).unwrap_or(Ty::Unknown),
                "get" if a.len() == 2 => {
                    let x = self.ty(a[0]);
                    Ty::Named("Option".into(), vec![value_ty(x)])
                }
                _ => {
                    let last = n.rsplit("::").next().unwrap_or("").to_string();
                    if let Some([i]) = self.p.by_name.get(&last).map(|v| &v[..]) {
                        if self.p.fns[*i].ret.head() == Some("Parser") {
                            return Self::parser_ty();
                        }
                    }
                    if let Some((ty, _)) = n.split_once("::") {
                        let r = self
                            .p
                            .by_name
                            .get(&last)
                            .and_then(|v| {
                                v.iter().find(|&&i| self.p.fns[i].self_ty.as_deref() == Some(ty)).copied()
                            })
                            .map(|i| self.p.fns[i].ret.clone());
                        if let Some(r) = r {
                            return r;
                        }
                    }
                    // method on a known receiver type
                    if let Some(&r0) = a.first() {
                        if let Ty::Named(h, _) = self.ty(r0) {
                            let r = self
                                .p
                                .by_name
                                .get(&last)
                                .and_then(|v| {
                                    v.iter()
                                        .find(|&&i| {
                                            self.p.fns[i].has_self && self.p.fns[i].self_ty.as_deref() == Some(&h)
                                        })
                                        .copied()
                                })
                                .map(|i| self.p.fns[i].ret.clone());
                            if let Some(r) = r {
                                self.ty_cache.insert(t, r.clone());
                                return r;
                            }
                        }
                    }
                    self.call_ty.get(&last).cloned().flatten().unwrap_or(Ty::Unknown)
                }
            },
            _ => Ty::Unknown,
        };
        let r = match &r {
            Ty::Named(n, a) if a.is_empty() => match self.p.type_aliases.get(n) {
                Some(x) => x.clone(),
                None => r,
            },
            _ => r,
        };
        self.ty_cache.insert(t, r.clone());
        r
    }

    // ---------- truth ----------
    pub fn truth(&mut self, v: &Val) -> Bid {
        let mut r = F;
        for &(g, t) in v {
            let c = self.truth1(t);
            let x = self.b.and(g, c);
            r = self.b.or(r, x);
        }
        r
    }
    pub fn truth1(&mut self, t: Tid) -> Bid {
        match self.t.get(t).clone() {
            Term::Bool(x) => {
                if x {
                    T
                } else {
                    F
                }
            }
            Term::Mux(alts) => {
                let v: Val = alts;
                self.truth(&v)
            }
            _ => {
                let s = self.show(t).to_string();
                self.atom(Atom::Is1(s))
            }
        }
    }
    pub fn bool_val(&mut self, c: Bid) -> Val {
        let tt = self.t.mk(Term::Bool(true));
        let ff = self.t.mk(Term::Bool(false));
        let n = self.b.not(c);
        self.norm(vec![(c, tt), (n, ff)])
    }
    /// success of an Option/Result term
    pub fn good(&mut self, t: Tid) -> Bid {
        match self.t.get(t).clone() {
            Term::Ctor(n, _) if &*n == "Some" || &*n == "Ok" => T,
            Term::Ctor(n, _) if &*n == "None" || &*n == "Err" => F,
            Term::Mux(alts) => {
                let mut r = F;
                for (g, x) in alts {
                    let c = self.good(x);
                    let y = self.b.and(g, c);
                    r = self.b.or(r, y);
                }
                r
            }
            Term::Call(n, a) if matches!(&*n, "last" | "first" | "split_last" | "split_first") && a.len() == 1 => {
                self.nonempty(a[0])
            }
            Term::Call(n, a) if &*n == "get" && a.len() == 2 && self.key_of(a[0], a[1]).is_some() => T,
            Term::Call(n, a)
                if &*n == "get"
                    && a.len() == 2
                    && matches!(self.t.get(a[1]), Term::Int(_))
                    && !matches!(self.ty(a[0]).head(), Some(h) if h.contains("Map")) =>
            {
                let Term::Int(k) = self.t.get(a[1]).clone() else { return F };
                if k == 0 {
                    return self.nonempty(a[0]);
                }
                let l = self.mk_len(a[0]);
                let z = self.lt_const(l, k + 1);
                self.b.not(z)
            }
            Term::Call(n, a) if &*n == "get" && a.len() == 2 && self.from_end(a[0], a[1]).is_some() => {
                let Some(k) = self.from_end(a[0], a[1]) else { return F };
                let l = self.mk_len(a[0]);
                let z = self.lt_const(l, k);
                self.b.not(z)
            }
            Term::Call(n, a)
                if &*n == "get"
                    && a.len() == 2
                    && (matches!(self.ty(a[0]), Ty::Slice(_) | Ty::Named(_, _)) && self.is_text_or_slice(a[0]) || self.mapped(a[0]).is_some())
                    && !matches!(self.t.get(a[1]), Term::Call(n, _) if &**n == "range" || &**n == "slice")
                    && !matches!(self.t.get(a[1]), Term::Ctor(..) | Term::Tuple(_) | Term::Mux(_) | Term::Coll(_)) =>
            {
                let l = self.mk_len(a[0]);
                self.lt(a[1], l)
            }
            _ => {
                let s = self.show(t).to_string();
                self.atom(Atom::Good(s))
            }
        }
    }
    /// (the bytes of a text are written like the text)
    fn is_text_or_slice(&mut self, t: Tid) -> bool {
        match self.ty(t) {
            Ty::Slice(_) => true,
            Ty::Named(n, _) => matches!(n.as_str(), "String" | "str"),
            _ => false,
        }
    }
    pub fn payload(&mut self, t: Tid) -> Tid {
        match self.t.get(t).clone() {
            Term::Ctor(n, f) if (&*n == "Some" || &*n == "Ok") && f.len() == 1 => f[0].1,
            Term::Call(n, a) if &*n == "get" && a.len() == 2 => self.mk_at(a[0], a[1]),
            Term::Call(n, a) if a.len() == 1 && matches!(&*n, "first" | "last" | "split_first" | "split_last") => {
                let x = a[0];
                let z = self.t.mk(Term::Int(0));
                let o = self.t.mk(Term::Int(1));
                let l = self.mk_len(x);
                let e = self.arith("-", l, o);
                match &*n {
                    "first" => self.mk_at(x, z),
                    "last" => self.mk_at(x, e),
                    "split_first" => {
                        let f = self.mk_at(x, z);
                        let dots = self.t.sym("..");
                        let r = self.t.call("slice", vec![x, o, dots]);
                        self.t.mk(Term::Tuple(vec![f, r]))
                    }
                    _ => {
                        let f = self.mk_at(x, e);
                        let r = self.t.call("slice", vec![x, z, e]);
                        self.t.mk(Term::Tuple(vec![f, r]))
                    }
                }
            }
            _ => self.t.mk(Term::Proj(t, "Ok".into(), "0".into())),
        }
    }
    pub fn err_of(&mut self, t: Tid) -> Tid {
        match self.t.get(t).clone() {
            Term::Ctor(n, f) if &*n == "Err" && f.len() == 1 => f[0].1,
            _ => self.t.mk(Term::Proj(t, "Err".into(), "0".into())),
        }
    }
    pub fn some(&mut self, t: Tid) -> Tid {
        self.t.mk(Term::Ctor("Some".into(), vec![("0".into(), t)]))
    }
    pub fn none(&mut self) -> Tid {
        self.t.mk(Term::Ctor("None".into(), vec![]))
    }
    /// `i` is the key of an entry of the map `x`
    fn key_of(&mut self, x: Tid, i: Tid) -> Option<Tid> {
        let Term::Field(e, f) = self.t.get(i).clone() else { return None };
        let Term::Elem(y, _) = self.t.get(e).clone() else { return None };
        let of = |me: &Self, t: Tid| match me.t.get(t) {
            Term::Call(n, a) if &**n == "sorted" => a[0],
            _ => t,
        };
        (&*f == "0" && of(self, y) == of(self, x) && self.is_map_term(x)).then_some(e)
    }
    pub fn mk_at(&mut self, x: Tid, i: Tid) -> Tid {
        if let Term::Idx(y, d) = self.t.get(i).clone() {
            if y == x {
                return self.t.mk(Term::Elem(x, d));
            }
        }
        if let Some(e) = self.key_of(x, i) {
            return self.field_of(e, "1");
        }
        if let Some((src, e, t)) = self.mapped(x) {
            let to = self.mk_at(src, i);
            return self.subst(t, e, to);
        }
        match (self.t.get(x).clone(), self.t.get(i).clone()) {
            (Term::Coll(items), Term::Int(k))
                if items.iter().all(|x| x.loops.is_empty() && x.guard == T && !x.spread) =>
            {
                if let Some(it) = items.get(k as usize) {
                    return it.term;
                }
            }
            (Term::Call(n, a), Term::Int(k)) if &*n == "skip" && a.len() == 2 => {
                if let Term::Int(j) = self.t.get(a[1]).clone() {
                    let s = self.t.mk(Term::Int(j + k));
                    return self.mk_at(a[0], s);
                }
            }
            _ => {}
        }
        self.t.call("at", vec![x, i])
    }
    /// `i` is `len(x) - k`: the k
    fn from_end(&mut self, x: Tid, i: Tid) -> Option<i128> {
        let Term::Call(n, a) = self.t.get(i).clone() else { return None };
        let Term::Int(k) = *self.t.get(*a.get(1)?) else { return None };
        let k = match &*n {
            "-" => k,
            "+" => -k,
            _ => return None,
        };
        (k >= 1 && a[0] == self.mk_len(x)).then_some(k)
    }
    /// the term depends on how often a loop has gone round
    pub fn counts_rounds(&self, t: Tid) -> bool {
        match self.t.get(t) {
            Term::Idx(..) => true,
            Term::Call(n, a) => {
                matches!(&**n, "lv" | "acc" | "while" | "after_loop" | "shrunk" | "changed" | "until") || a.iter().any(|x| self.counts_rounds(*x))
            }
            Term::Field(b, _) | Term::Proj(b, _, _) => self.counts_rounds(*b),
            Term::Elem(b, _) => matches!(self.t.get(*b), Term::Call(n, _) if &**n == "range"),
            Term::Mux(v) => v.iter().any(|x| self.counts_rounds(x.1)),
            _ => false,
        }
    }
    /// `x` is `src` with every element replaced by a term of that element alone:
    /// (src, the element, the term)
    pub fn mapped(&mut self, x: Tid) -> Option<(Tid, Tid, Tid)> {
        let Term::Coll(items) = self.t.get(x).clone() else { return None };
        let [it] = &items[..] else { return None };
        if it.guard != T || it.spread || it.loops.len() != 1 {
            return None;
        }
        let mut el = None;
        if !self.simple_in(it.term, it.loops[0], &mut el) {
            return None;
        }
        Some((it.loops[0], el?, it.term))
    }
    fn simple_in(&mut self, t: Tid, src: Tid, el: &mut Option<Tid>) -> bool {
        match self.t.get(t).clone() {
            Term::Elem(s, _) if s == src => {
                if el.is_some_and(|e| e != t) {
                    return false;
                }
                *el = Some(t);
                true
            }
            Term::Field(b, _) | Term::Proj(b, _, _) => self.simple_in(b, src, el),
            Term::Tuple(v) => v.into_iter().all(|x| self.simple_in(x, src, el)),
            Term::Ctor(_, v) => v.into_iter().all(|(_, x)| self.simple_in(x, src, el)),
            Term::Int(_) | Term::Str(_) | Term::Bool(_) => true,
            _ => false,
        }
    }
    pub fn mk_len(&mut self, x: Tid) -> Tid {
        match self.t.get(x).clone() {
            Term::Coll(items) => {
                if items.iter().all(|i| i.loops.is_empty() && i.guard == T && !i.spread) {
                    return self.t.mk(Term::Int(items.len() as i128));
                }
                if items.len() == 1 && items[0].guard == T && !items[0].spread && items[0].loops.len() == 1 {
                    return self.mk_len(items[0].loops[0]);
                }
            }
            Term::Iter(y) => return self.mk_len(y),
            Term::Tuple(_) => {}
            Term::Call(n, a) if matches!(&*n, "rev" | "sorted" | "sorted_by") => return self.mk_len(a[0]),
            _ => {}
        }
        self.t.call("len", vec![x])
    }
    pub fn nonempty(&mut self, x: Tid) -> Bid {
        if let Term::Call(n, a) = self.t.get(x).clone() {
            if let ("skip", 2, Some(Term::Int(k))) = (&*n, a.len(), a.get(1).map(|&y| self.t.get(y).clone())) {
                let l = self.mk_len(a[0]);
                let z = self.lt_const(l, k + 1);
                return self.b.not(z);
            }
        }
        let l = self.mk_len(x);
        if let Term::Coll(items) = self.t.get(x).clone() {
            // a string: some piece of it has text
            if items.iter().any(|i| matches!(self.t.get(i.term), Term::Call(n, _) if &**n == "piece")) {
                let lit = items.iter().any(|i| {
                    i.loops.is_empty()
                        && i.guard == T
                        && matches!(self.t.get(i.term), Term::Call(_, a) if matches!(self.t.get(a[0]), Term::Str(s) if !s.is_empty()))
                });
                if lit {
                    return T;
                }
                let s = self.show(x).to_string();
                return self.atom(Atom::Is1(format!("nonempty({})", s)));
            }
            // exists an item
            let mut r = F;
            for it in items {
                let g = if it.spread {
                    let n = self.nonempty(it.term);
                    self.b.and(it.guard, n)
                } else {
                    it.guard
                };
                let e = self.exists_over(&it.loops, g);
                r = self.b.or(r, e);
            }
            return r;
        }
        let z = self.lt_const(l, 1);
        self.b.not(z)
    }
    /// there is an iteration for which g holds, and none before it leaves the loop by `brk`
    pub fn exists_before(&mut self, loops: &[Tid], g: Bid, brk: Bid) -> Bid {
        let plain = loops.len() != 1
            || g == F
            || self.b.unsat(brk)
            || matches!(self.t.get(loops[0]), Term::Call(n, _) if &**n == "while");
        if plain {
            return self.exists_over(loops, g);
        }
        let base = self.show(loops[0]).to_string();
        let key = format!("{} broken", base);
        let known = self.b.some.get(&key).cloned().unwrap_or_default();
        let txt = match known.iter().find(|(h, _)| *h == brk || self.b.equiv(*h, brk)) {
            Some((_, t)) => t.clone(),
            None => {
                let t = self.b.text(brk);
                self.b.some.entry(key).or_default().push((brk, t.clone()));
                t
            }
        };
        self.exists_atom(&format!("{} until {}", base, txt), g)
    }
    /// there is an iteration of the loops for which g holds
    pub fn exists_over(&mut self, loops: &[Tid], g: Bid) -> Bid {
        if loops.is_empty() || g == F {
            return g;
        }
        if let Term::Call(n, _) = self.t.get(loops[0]).clone() {
            if &*n == "while" {
                let s = self.show(loops[0]).to_string();
                return self.exists_atom(&s, g);
            }
        }
        // atoms that do not mention the element can be pulled out
        let last = *loops.last().unwrap();
        let rest = &loops[..loops.len() - 1];
        let base = self.show(last).to_string();
        let bases = self.elem_bases(last);
        let sup = self.b.support(g);
        let mut dep = vec![];
        let mut indep = std::collections::BTreeSet::new();
        for v in sup {
            let s = self.b.atoms[v as usize].show();
            if bases.iter().any(|b| free_elem(&s, b)) || s.contains("lv(") {
                dep.push(v);
            } else {
                indep.insert(v);
            }
        }
        let inner = if dep.is_empty() {
            let n = self.nonempty(last);
            self.b.and(n, g)
        } else if indep.is_empty() {
            self.exists_atom(&base, g)
        } else if indep.len() <= 6 {
            // Shannon expansion over the independent atoms
            self.exists_split(last, &base, g, &indep.into_iter().collect::<Vec<_>>())
        } else {
            self.exists_atom(&base, g)
        };
        self.exists_over(rest, inner)
    }
    /// The collections whose `each(..)`/`idx(..)` vary with an iteration over `it`.
    pub fn elem_bases(&mut self, it: Tid) -> Vec<String> {
        let mut out = vec![self.show(it).to_string()];
        if let Term::Call(n, a) = self.t.get(it).clone() {
            if matches!(&*n, "zip" | "chain" | "rev" | "enumerate" | "skip" | "take" | "filter" | "map" | "flatten") {
                for x in a.iter() {
                    out.extend(self.elem_bases(*x));
                }
            }
        }
        out
    }
    /// "some element such that g": conditions that agree wherever they are defined are the same
    fn exists_atom(&mut self, base: &str, g: Bid) -> Bid {
        let known = self.b.some.get(base).cloned().unwrap_or_default();
        for (h, txt) in &known {
            if *h == g || self.b.equiv(*h, g) {
                return self.atom(Atom::Exists(base.to_string(), txt.clone()));
            }
        }
        let txt = self.b.text(g);
        self.b.some.entry(base.to_string()).or_default().push((g, txt.clone()));
        self.atom(Atom::Exists(base.to_string(), txt))
    }
    fn exists_split(&mut self, coll: Tid, base: &str, g: Bid, indep: &[u32]) -> Bid {
        if g == F {
            return F;
        }
        if g == T {
            return self.nonempty(coll);
        }
        if indep.is_empty() {
            return self.exists_atom(base, g);
        }
        let v = indep[0];
        let h = self.b.cofactor(g, v, true);
        let l = self.b.cofactor(g, v, false);
        let h = self.exists_split(coll, base, h, &indep[1..]);
        let l = self.exists_split(coll, base, l, &indep[1..]);
        let c = self.b.mk(v, F, T);
        self.b.ite(c, h, l)
    }
    pub fn lt_const(&mut self, t: Tid, c: i128) -> Bid {
        if let Term::Int(k) = self.t.get(t) {
            return if *k < c { T } else { F };
        }
        // a position is never negative
        if c <= 0 && matches!(self.t.get(t), Term::Idx(..)) {
            return F;
        }
        // x + k < c
        if let Term::Call(n, a) = self.t.get(t).clone() {
            if a.len() == 2 {
                if let Term::Int(k) = self.t.get(a[1]) {
                    let k = *k;
                    if &*n == "+" {
                        return self.lt_const(a[0], c - k);
                    }
                }
            }
            if &*n == "len" {
                if c <= 0 {
                    return F;
                }
                if c == 1 && matches!(self.t.get(a[0]), Term::Coll(_)) {
                    let n = self.nonempty(a[0]);
                    return self.b.not(n);
                }
                if c > 1 {
                    let s = self.show(t).to_string();
                    let x = self.atom(Atom::LtC(s, c));
                    let n = self.nonempty(a[0]);
                    let e = self.b.not(n);
                    return self.b.or(e, x);
                }
            }
        }
        let s = self.show(t).to_string();
        self.atom(Atom::LtC(s, c))
    }
    fn const_like(&self, t: Tid) -> bool {
        matches!(self.t.get(t), Term::Str(_) | Term::Int(_) | Term::Bool(_))
            || matches!(self.t.get(t), Term::Ctor(_, f) if f.is_empty())
            || matches!(self.t.get(t), Term::Sym(s) if s.starts_with('\''))
    }
    pub fn eq(&mut self, a: Tid, b: Tid) -> Bid {
        if a == b {
            return T;
        }
        let (ta, tb) = (self.t.get(a).clone(), self.t.get(b).clone());
        match (&ta, &tb) {
            (Term::Mux(alts), _) => {
                let mut r = F;
                for (g, x) in alts.clone() {
                    let c = self.eq(x, b);
                    let y = self.b.and(g, c);
                    r = self.b.or(r, y);
                }
                return r;
            }
            (_, Term::Mux(_)) => return self.eq(b, a),
            (Term::Int(x), Term::Int(y)) => return if x == y { T } else { F },
            (Term::Str(x), Term::Str(y)) => return if x == y { T } else { F },
            (Term::Bool(x), _) => {
                let c = self.truth1(b);
                return if *x { c } else { self.b.not(c) };
            }
            (_, Term::Bool(_)) => return self.eq(b, a),
            (Term::Int(k), _) => {
                let k = *k;
                let h = self.lt_const(b, k + 1);
                let l = self.lt_const(b, k);
                return self.b.diff(h, l);
            }
            (_, Term::Int(_)) => return self.eq(b, a),
            (Term::Ctor(n, f), _) if &**n == "None" && f.is_empty() => {
                let g = self.good(b);
                return self.b.not(g);
            }
            (_, Term::Ctor(n, f)) if &**n == "None" && f.is_empty() => {
                let g = self.good(a);
                return self.b.not(g);
            }
            (Term::Ctor(n, f), Term::Ctor(m, g)) => {
                if n != m {
                    return F;
                }
                let mut r = T;
                for (k, x) in f.clone() {
                    if let Some((_, y)) = g.iter().find(|(j, _)| *j == k) {
                        let c = self.eq(x, *y);
                        r = self.b.and(r, c);
                    }
                }
                return r;
            }
            (Term::Tuple(x), Term::Tuple(y)) if x.len() == y.len() => {
                let mut r = T;
                for (p, q) in x.clone().into_iter().zip(y.clone()) {
                    let c = self.eq(p, q);
                    r = self.b.and(r, c);
                }
                return r;
            }
            (Term::Ctor(n, f), _) if &**n == "Some" && f.len() == 1 => {
                // the first character is c: it starts with c
                if let Term::Call(g, a) = &tb {
                    if &**g == "get" && a.len() == 2 && matches!(self.t.get(a[1]), Term::Int(0)) && self.const_like(f[0].1) {
                        if let Term::Call(cs, x) = self.t.get(a[0]).clone() {
                            if &*cs == "chars" && x.len() == 1 {
                                let t = self.t.call("starts_with", vec![x[0], f[0].1]);
                                return self.truth1(t);
                            }
                        }
                    }
                }
                let g = self.good(b);
                let p = self.payload(b);
                let e = self.eq(f[0].1, p);
                return self.b.and(g, e);
            }
            (_, Term::Ctor(n, _)) if &**n == "Some" => return self.eq(b, a),
            (Term::Ctor(n, f), _) if f.is_empty() && n.contains("::") => {
                let s = self.show(b).to_string();
                return self.atom(Atom::Is(s, n.to_string()));
            }
            (_, Term::Ctor(n, f)) if f.is_empty() && n.contains("::") => return self.eq(b, a),
            _ => {}
        }
        if self.const_like(a) || self.const_like(b) {
            let (x, c) = if self.const_like(a) { (b, a) } else { (a, b) };
            let (x, c) = (self.show(x).to_string(), self.show(c).to_string());
            return self.atom(Atom::EqC(x, c));
        }
        let (x, y) = (self.show(a).to_string(), self.show(b).to_string());
        if x == y {
            return T;
        }
        if x < y {
            self.atom(Atom::Eq(x, y))
        } else {
            self.atom(Atom::Eq(y, x))
        }
    }
    pub fn lt(&mut self, a: Tid, b: Tid) -> Bid {
        match (self.t.get(a).clone(), self.t.get(b).clone()) {
            (Term::Int(x), Term::Int(y)) => return if x < y { T } else { F },
            (_, Term::Int(k)) => return self.lt_const(a, k),
            (Term::Int(k), _) => {
                // k < b  <=>  !(b < k+1)
                let c = self.lt_const(b, k + 1);
                return self.b.not(c);
            }
            _ => {}
        }
        if a == b {
            return F;
        }
        let (x, y) = (self.show(a).to_string(), self.show(b).to_string());
        if x < y {
            self.atom(Atom::Lt(x, y))
        } else {
            // a < b with sorted (y=b, x=a): not (b<a) and not eq
            let l = self.atom(Atom::Lt(y.clone(), x.clone()));
            let e = self.atom(Atom::Eq(y, x));
            let o = self.b.or(l, e);
            self.b.not(o)
        }
    }

    /// cartesian product of argument alternatives
    pub fn combine(&mut self, vals: &[Val]) -> Vec<(Bid, Vec<Tid>)> {
        let mut total = 1usize;
        for v in vals {
            total = total.saturating_mul(v.len().max(1));
        }
        let mut vals: Vec<Val> = vals.to_vec();
        while total > 64 {
            // collapse the widest
            let (i, _) = vals.iter().enumerate().max_by_key(|(_, v)| v.len()).unwrap();
            let m = self.t.mk(Term::Mux(vals[i].clone()));
            total = total / vals[i].len().max(1);
            vals[i] = one(m);
        }
        let mut acc: Vec<(Bid, Vec<Tid>)> = vec![(T, vec![])];
        for v in &vals {
            let mut nx = vec![];
            for (g, a) in &acc {
                for (h, t) in v {
                    let c = self.b.and(*g, *h);
                    if c == F {
                        continue;
                    }
                    let mut a2 = a.clone();
                    a2.push(*t);
                    nx.push((c, a2));
                }
            }
            acc = nx;
        }
        acc
    }
    pub fn map1(&mut self, v: &Val, mut f: impl FnMut(&mut Self, Tid) -> Tid) -> Val {
        let mut out = vec![];
        for &(g, t) in v {
            let x = match self.t.get(t).clone() {
                Term::Mux(alts) if alts.len() <= 24 => {
                    let a2: Vec<(Bid, Tid)> = alts.iter().map(|&(h, y)| (h, f(self, y))).collect();
                    self.t.mk(Term::Mux(a2))
                }
                _ => f(self, t),
            };
            out.push((g, x));
        }
        self.norm(out)
    }
}

/// does the text mention the current element (or index) of an iteration over `base`,
/// outside constructs that range over `base` themselves?
pub fn free_elem(s: &str, base: &str) -> bool {
    let pat = format!("({})", base);
    if !s.contains(&pat) {
        return false;
    }
    let by = s.as_bytes();
    let close = |i: usize| -> usize {
        // matching bracket of the opening one at i
        let (mut d, mut q, mut k) = (0i32, false, i);
        while k < by.len() {
            match by[k] {
                b'\\' if q => k += 1,
                b'"' => q = !q,
                b'(' | b'[' | b'{' if !q => d += 1,
                b')' | b']' | b'}' if !q => {
                    d -= 1;
                    if d == 0 {
                        return k;
                    }
                }
                _ => {}
            }
            k += 1;
        }
        by.len() - 1
    };
    let nested = |r: &str| (2..6).any(|d| r.contains(&format!("each{}{}", d, pat)) || r.contains(&format!("idx{}{}", d, pat)));
    let mut i = 0;
    let mut q = false;
    while i < by.len() {
        match by[i] {
            b'\\' if q => i += 1,
            b'"' => q = !q,
            b'(' if !q => {
                let word_at = s[..i].rfind(|c: char| !(c.is_alphanumeric() || c == '_')).map_or(0, |j| j + s[j..].chars().next().map_or(1, |c| c.len_utf8()));
                let w = &s[word_at..i];
                if s[i..].starts_with(&pat) && (w.starts_with("each") || w.starts_with("idx")) {
                    return true;
                }
                if w == "exists" && s[i + 1..].starts_with(&format!("{} ;", base)) {
                    let j = close(i);
                    if !nested(&s[i..=j]) {
                        i = j;
                    }
                }
            }
            b'[' if !q => {
                let j = close(i);
                let r = &s[i..=j];
                if (r.contains(&format!(" for {} if ", base)) || r.ends_with(&format!(" for {}]", base)) || r.contains(&format!(" for {}, ", base)))
                    && !nested(r)
                {
                    i = j;
                }
            }
            _ => {}
        }
        i += 1;
    }
    false
}
/// what a lookup in a collection of this type finds
pub fn value_ty(t: Ty) -> Ty {
    match elem_ty(t.clone()) {
        Ty::Tuple(a) if a.len() == 2 && matches!(&t, Ty::Named(n, _) if n.ends_with("Map")) => a[1].clone(),
        x => x,
    }
}
pub fn elem_ty(t: Ty) -> Ty {
    match t {
        Ty::Slice(x) => *x,
        Ty::Named(n, a) => match n.as_str() {
            "HashMap" | "BTreeMap" | "FxHashMap" | "IndexMap" => Ty::Tuple(a),
            _ => a.into_iter().next().unwrap_or(Ty::Unknown),
        },
        _ => Ty::Unknown,
    }
}

/// (name here, Enum::Variant) for every variant a `use` brings in by name
pub fn used_variants(p: &Program, t: &syn::UseTree, parent: Option<String>, out: &mut Vec<(String, String)>) {
    let of = |v: &str| {
        let e = parent.as_ref()?;
        let en = p.enums.get(e)?;
        en.variants.iter().any(|x| x.name == v).then(|| format!("{e}::{v}"))
    };
    match t {
        syn::UseTree::Path(x) => used_variants(p, &x.tree, Some(x.ident.to_string()), out),
        syn::UseTree::Group(g) => g.items.iter().for_each(|x| used_variants(p, x, parent.clone(), out)),
        syn::UseTree::Name(n) => {
            if let Some(v) = of(&n.ident.to_string()) {
                out.push((n.ident.to_string(), v));
            }
        }
        syn::UseTree::Rename(r) => {
            if let Some(v) = of(&r.ident.to_string()) {
                out.push((r.rename.to_string(), v));
            }
        }
        syn::UseTree::Glob(_) => {
            if let Some(e) = parent.as_ref().and_then(|e| p.enums.get(e).map(|en| (e, en))) {
                for v in e.1.variants.iter().filter(|v| !p.structs.contains_key(&v.name)) {
                    out.push((v.name.clone(), format!("{}::{}", e.0, v.name)));
                }
            }
        }
    }
}

fn build_variants(p: &Program) -> HashMap<(String, String), String> {
    let mut r = HashMap::new();
    for f in &p.files {
        for it in &f.ast.items {
            if let syn::Item::Use(u) = it {
                let mut v = vec![];
                used_variants(p, &u.tree, None, &mut v);
                for (n, x) in v {
                    r.insert((f.rel.clone(), n), x);
                }
            }
        }
    }
    r
}

fn build_aliases(p: &Program) -> HashMap<String, HashMap<String, String>> {
    fn go(t: &syn::UseTree, out: &mut HashMap<String, String>) {
        match t {
            syn::UseTree::Path(p) => go(&p.tree, out),
            syn::UseTree::Rename(r) => {
                out.insert(r.rename.to_string(), r.ident.to_string());
            }
            syn::UseTree::Group(g) => g.items.iter().for_each(|x| go(x, out)),
            _ => {}
        }
    }
    let mut r = HashMap::new();
    for f in &p.files {
        let mut m = HashMap::new();
        for it in &f.ast.items {
            if let syn::Item::Use(u) = it {
                go(&u.tree, &mut m);
            }
        }
        r.insert(f.rel.clone(), m);
    }
    r
}

impl<'p> Ev<'p> {
    /// continue with another program, keeping only the formula manager
    pub fn switch(&mut self, p: &'p Program) {
        let b = std::mem::replace(&mut self.b, Bdd::new());
        let inline = self.inline.clone();
        let comb = self.combinator;
        let drop = self.t.drop_fmt;
        let max = (self.max_steps, self.max_inline);
        let mut n = Ev::new(p, inline);
        let fresh = std::mem::replace(&mut n.b, b);
        for (k, v) in fresh.enums {
            match n.b.enums.get_mut(&k) {
                Some(old) => {
                    for x in v {
                        if !old.contains(&x) {
                            old.push(x);
                        }
                    }
                }
                None => {
                    n.b.enums.insert(k, v);
                }
            }
        }
        n.combinator = comb;
        n.t.drop_fmt = drop;
        n.max_steps = max.0;
        n.max_inline = max.1;
        n.t.fn_names = p.fns.iter().map(|f| f.id().into()).collect();
        *self = n;
    }
}
