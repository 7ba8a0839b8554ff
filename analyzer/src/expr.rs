//! Expression and statement evaluation.
use crate::bdd::{Bid, F, T};
use crate::eval::*;
use crate::program::{tokens, Ty};
use crate::term::{FmtPart, Item, Term, Tid};
use std::collections::HashMap;
use std::rc::Rc;
use syn::spanned::Spanned;
use syn::Expr;

pub enum Place {
    Slot(u32),
    SlotField(u32, String),
    Heap(Tid),
}

fn line(e: &impl Spanned) -> usize {
    e.span().start().line
}

impl<'p> Ev<'p> {
    pub fn lit_term(&mut self, l: &syn::Lit) -> Tid {
        match l {
            syn::Lit::Int(i) => match i.base10_digits().parse::<i128>() {
                Ok(v) => self.t.mk(Term::Int(v)),
                Err(_) => self.t.sym(&i.to_string()),
            },
            syn::Lit::Str(s) => self.t.mk(Term::Str(s.value().into())),
            syn::Lit::Bool(b) => self.t.mk(Term::Bool(b.value)),
            syn::Lit::Char(c) => self.t.sym(&format!("'{}'", c.value().escape_default())),
            other => self.t.sym(&tokens(other)),
        }
    }
    pub fn empty_state(&self) -> St {
        St {
            pc: T,
            scopes: vec![Rc::new(HashMap::new())],
            mem: Rc::new(HashMap::new()),
            heap: Rc::new(Default::default()),
        }
    }
    pub fn const_expr(&mut self, e: &Expr) -> Option<Tid> {
        let mut st = self.empty_state();
        let n = self.effects.len();
        let v = self.eval(e, &mut st);
        self.effects.truncate(n);
        match v.as_slice() {
            [(_, t)] => Some(*t),
            _ => None,
        }
    }
    pub fn const_term(&mut self, path: &syn::Path) -> Option<Tid> {
        let segs: Vec<String> = path.segments.iter().map(|s| s.ident.to_string()).collect();
        let last = segs.last()?.clone();
        if segs.len() >= 2 {
            let ty = &segs[segs.len() - 2];
            let k: Option<i128> = match (ty.as_str(), last.as_str()) {
                ("u8", "MAX") => Some(u8::MAX as i128),
                ("u16", "MAX") => Some(u16::MAX as i128),
                ("u32", "MAX") => Some(u32::MAX as i128),
                ("i32", "MAX") => Some(i32::MAX as i128),
                ("i32", "MIN") => Some(i32::MIN as i128),
                ("u64", "MAX") => Some(u64::MAX as i128),
                ("i64", "MAX") => Some(i64::MAX as i128),
                ("i64", "MIN") => Some(i64::MIN as i128),
                _ => None,
            };
            if let Some(k) = k {
                return Some(self.t.mk(Term::Int(k)));
            }
        }
        if !last.chars().all(|c| c.is_uppercase() || c == '_' || c.is_ascii_digit()) {
            return None;
        }
        let cands = self.p.consts.get(&last)?;
        let owner = if segs.len() >= 2 {
            let mut o = segs[segs.len() - 2].clone();
            if o == "Self" {
                o = self.cur_self_ty().unwrap_or(o);
            }
            Some(self.unalias(&o))
        } else {
            None
        };
        let cur_file = self.frames.last().map(|f| f.file.clone()).unwrap_or_default();
        let cur_crate = self.frames.last().map(|f| self.p.fns[f.func].krate.clone()).unwrap_or_default();
        let mut best = None;
        for c in cands {
            let score = if c.1.is_some() && c.1 == owner {
                4
            } else if c.1.is_none() && c.3 == cur_file {
                3
            } else if c.1.is_none() && c.0 == cur_crate {
                2
            } else if c.1.is_none() {
                1
            } else {
                0
            };
            if score > 0 && best.as_ref().is_none_or(|(s, _)| score > *s) {
                best = Some((score, c.clone()));
            }
        }
        let (_, c) = best?;
        if c.1.as_deref() == Some("static") {
            return None;
        }
        // only simple values are opened
        let t = if matches!(c.2, Expr::Macro(_)) { None } else { self.const_expr(&c.2) };
        match t {
            Some(t) if matches!(self.t.get(t), Term::Int(_) | Term::Str(_) | Term::Bool(_) | Term::Coll(_) | Term::Tuple(_) | Term::Ctor(..)) => Some(t),
            _ => None,
        }
    }

    /// conjunction that uses the theory when `c` is a cube
    pub fn assume(&mut self, pc: Bid, c: Bid) -> Bid {
        let mut lits = vec![];
        let mut x = c;
        while x > 1 {
            let (v, lo, hi) = self.b.node(x);
            if lo == F {
                lits.push((v, true));
                x = hi;
            } else if hi == F {
                lits.push((v, false));
                x = lo;
            } else {
                return self.b.and(pc, c);
            }
        }
        if x == F {
            return F;
        }
        let mut r = pc;
        for (v, val) in lits {
            r = self.b.and_lit(r, v, val);
        }
        r
    }

    // ---------- conditions ----------
    /// evaluates a condition; bindings go into the innermost scope of the returned true-state
    pub fn eval_cond(&mut self, e: &Expr, st: &mut St) -> (Bid, Vec<(String, Val)>) {
        match e {
            Expr::Paren(p) => self.eval_cond(&p.expr, st),
            Expr::Group(p) => self.eval_cond(&p.expr, st),
            Expr::Let(l) => {
                let v = self.eval(&l.expr, st);
                self.test_val(&l.pat, &v)
            }
            Expr::Unary(u) if matches!(u.op, syn::UnOp::Not(_)) => {
                let v = self.eval(e, st);
                (self.truth(&v), vec![])
            }
            Expr::Binary(b) if matches!(b.op, syn::BinOp::And(_)) => {
                let (c1, b1) = self.eval_cond(&b.left, st);
                let mut s1 = st.clone();
                s1.pc = self.assume(st.pc, c1);
                self.push_scope(&mut s1);
                for (n, v) in &b1 {
                    self.bind(&mut s1, n, v.clone());
                }
                let (c2, b2) = self.eval_cond(&b.right, &mut s1);
                self.pop_scope(&mut s1);
                let nc = self.b.not(c1);
                let mut s0 = st.clone();
                s0.pc = self.b.and(st.pc, nc);
                let (mut j, _) = self.join(st, vec![(c1, s1.clone(), vec![]), (nc, s0.clone(), vec![])]);
                if s1.pc == F {
                    j.pc = st.pc; // rhs never evaluated or diverges; keep
                }
                let keep = st.scopes.clone();
                *st = j;
                st.scopes = keep;
                let c = self.assume(c1, c2);
                let mut bs = b1;
                bs.extend(b2);
                (c, bs)
            }
            Expr::Binary(b) if matches!(b.op, syn::BinOp::Or(_)) => {
                let (c1, _) = self.eval_cond(&b.left, st);
                let nc = self.b.not(c1);
                let mut s1 = st.clone();
                s1.pc = self.b.and(st.pc, nc);
                let (c2, _) = if s1.pc == F { (F, vec![]) } else { self.eval_cond(&b.right, &mut s1) };
                let mut s0 = st.clone();
                s0.pc = self.b.and(st.pc, c1);
                let keep = st.scopes.clone();
                let (j, _) = self.join(st, vec![(nc, s1, vec![]), (c1, s0, vec![])]);
                *st = j;
                st.scopes = keep;
                (self.b.or(c1, c2), vec![])
            }
            _ => {
                let v = self.eval(e, st);
                (self.truth(&v), vec![])
            }
        }
    }

    // ---------- blocks ----------
    pub fn eval_block(&mut self, b: &syn::Block, st: &mut St) -> Val {
        self.push_scope(st);
        let hint = match self.tail_hint.take() {
            Some((h, p)) if p == b as *const syn::Block as usize => Some(h),
            _ => None,
        };
        let v = self.eval_stmts(&b.stmts, hint, st);
        self.pop_scope(st);
        v
    }
    fn eval_stmts(&mut self, stmts: &[syn::Stmt], hint: Option<String>, st: &mut St) -> Val {
        let u = self.unit();
        let mut last = one(u);
        for s in stmts {
            if let (syn::Stmt::Item(syn::Item::Use(i)), Some(f)) = (s, self.frames.last()) {
                let f = f.func;
                let mut v = vec![];
                crate::eval::used_variants(self.p, &i.tree, None, &mut v);
                for (n, x) in v {
                    self.variants_local.insert((f, n), x);
                }
            }
        }
        for (n, s) in stmts.iter().enumerate() {
            if st.pc == F {
                break;
            }
            last = one(u);
            match s {
                syn::Stmt::Local(l) => {
                    let Some(init) = &l.init else {
                        let mut todo = vec![strip_type(&l.pat)];
                        while let Some(p) = todo.pop() {
                            match p {
                                syn::Pat::Ident(i) => {
                                    let un = self.t.sym("uninit");
                                    self.bind(st, &i.ident.to_string(), one(un));
                                }
                                syn::Pat::Tuple(t) => todo.extend(t.elems.iter().map(strip_type)),
                                _ => {}
                            }
                        }
                        continue;
                    };
                    if let (syn::Pat::Type(pt), Expr::MethodCall(m)) = (&l.pat, &*init.expr) {
                        if m.method == "collect" {
                            self.collect_hint = Some(tokens(&pt.ty).replace(' ', ""));
                        }
                    }
                    let mut v = self.eval(&init.expr, st);
                    if let syn::Pat::Type(pt) = &l.pat {
                        let ty = tokens(&pt.ty).replace(' ', "");
                        if ty.starts_with("Result<") || ty.starts_with("Option<") {
                            if let Expr::MethodCall(m) = &*init.expr {
                                if m.method == "collect" && m.turbofish.is_none() {
                                    v = self.map1(&v, |me, t| me.t.call("try_collect", vec![t]));
                                }
                            }
                        }
                    }
                    if st.pc == F {
                        break;
                    }
                    if let Some((_, els)) = &init.diverge {
                        let (c, binds) = self.test_val(&l.pat, &v);
                        let nc = self.b.not(c);
                        let mut s2 = st.clone();
                        s2.pc = self.b.and(st.pc, nc);
                        if s2.pc != F {
                            self.eval(els, &mut s2);
                        }
                        st.pc = self.assume(st.pc, c);
                        for (n, v) in binds {
                            self.bind(st, &n, v);
                        }
                    } else if let syn::Pat::Ident(i) = strip_type(&l.pat) {
                        let made_string = matches!(&*init.expr, Expr::MethodCall(_) | Expr::Call(_))
                            && matches!(v.as_slice(), [(_, t)] if matches!(self.t.get(*t), Term::Call(..)) && self.ty(*t).head() == Some("String"));
                        if i.mutability.is_some() {
                            v = self.own_object(&i.ident.to_string(), v, st);
                        }
                        self.bind(st, &i.ident.to_string(), v);
                        if i.mutability.is_some() && !matches!(&*init.expr, Expr::Reference(r) if r.mutability.is_some()) {
                            if let Some(s) = self.lookup(st, &i.ident.to_string()) {
                                self.own_slots.insert(s);
                            }
                        }
                        if i.mutability.is_some() && (owned_string(&l.pat, &init.expr) || made_string) {
                            if let Some(s) = self.lookup(st, &i.ident.to_string()) {
                                self.str_slots.insert(s);
                            }
                        }
                    } else {
                        let (_, binds) = self.test_val(&l.pat, &v);
                        for (n, v) in binds {
                            self.bind(st, &n, v);
                        }
                    }
                }
                syn::Stmt::Expr(e, semi) => {
                    if n + 1 == stmts.len() {
                        self.collect_hint = hint.clone();
                    }
                    let v = self.eval(e, st);
                    if semi.is_none() {
                        last = v;
                    }
                }
                syn::Stmt::Macro(m) => {
                    let v = self.eval_macro(&m.mac, st, line(m));
                    if m.semi_token.is_none() {
                        last = v;
                    }
                }
                syn::Stmt::Item(_) => {}
            }
        }
        last
    }

    pub fn eval(&mut self, e: &Expr, st: &mut St) -> Val {
        self.steps += 1;
        if self.steps > self.max_steps {
            self.truncated = true;
            let u = self.t.sym("truncated");
            return one(u);
        }
        if st.pc == F {
            let u = self.unit();
            return one(u);
        }
        match e {
            Expr::Paren(p) => self.eval(&p.expr, st),
            Expr::Group(p) => self.eval(&p.expr, st),
            Expr::Lit(l) => {
                let t = self.lit_term(&l.lit);
                one(t)
            }
            Expr::Path(p) => self.eval_path(p, st),
            Expr::Reference(r) => {
                if r.mutability.is_some() {
                    if let Some(s) = self.local_slot(&r.expr, st) {
                        let fs = self.final_slot(st, s);
                        let holds_plain_param = false;
                        if !holds_plain_param {
                            let t = self.t.mk(Term::Ref(fs));
                            return one(t);
                        }
                    }
                }
                self.eval(&r.expr, st)
            }
            Expr::Unary(u) => match u.op {
                syn::UnOp::Deref(_) => self.eval(&u.expr, st),
                syn::UnOp::Not(_) => {
                    let v = self.eval(&u.expr, st);
                    let c = self.truth(&v);
                    let n = self.b.not(c);
                    self.bool_val(n)
                }
                syn::UnOp::Neg(_) => {
                    let v = self.eval(&u.expr, st);
                    self.map1(&v, |me, t| match me.t.get(t).clone() {
                        Term::Int(i) => me.t.mk(Term::Int(-i)),
                        _ => me.t.call("neg", vec![t]),
                    })
                }
                _ => self.eval(&u.expr, st),
            },
            Expr::Binary(b) => self.eval_binary(b, st),
            Expr::Cast(c) => {
                let v = self.eval(&c.expr, st);
                let ty = tokens(&c.ty).replace(' ', "");
                self.map1(&v, |me, t| match me.t.get(t).clone() {
                    Term::Int(_) => t,
                    _ => {
                        let n = format!("as_{}", ty);
                        me.t.call(&n, vec![t])
                    }
                })
            }
            Expr::Field(f) => {
                let b = self.eval(&f.base, st);
                let name = match &f.member {
                    syn::Member::Named(i) => i.to_string(),
                    syn::Member::Unnamed(i) => i.index.to_string(),
                };
                let mut out = vec![];
                for (g, t) in b {
                    let x = self.field_of(t, &name);
                    if let Some(h) = st.heap.get(&x).cloned() {
                        for (k, y) in h {
                            out.push((self.b.and(g, k), y));
                        }
                    } else {
                        out.push((g, x));
                    }
                }
                self.norm(out)
            }
            Expr::Index(i) => {
                let b = self.eval(&i.expr, st);
                let x = self.eval(&i.index, st);
                let combos = self.combine(&[b, x]);
                let mut out = vec![];
                for (g, a) in combos {
                    // slices x[a..b]
                    let t = match self.t.get(a[1]).clone() {
                        Term::Call(n, r) if &*n == "range" => {
                            let z = self.t.get(r[0]).clone();
                            let mut v = vec![a[0]];
                            v.extend(r);
                            if matches!(z, Term::Int(0)) && self.t.get(v[2]) == &Term::Sym("..".into()) {
                                a[0]
                            } else {
                                self.t.call("slice", v)
                            }
                        }
                        _ => self.mk_at(a[0], a[1]),
                    };
                    // an element that may not be there
                    if matches!(self.t.get(t), Term::Call(n, r) if &**n == "at" && r[..] == [a[0], a[1]]) && !self.counts_rounds(a[1]) {
                        let got = self.t.call("get", vec![a[0], a[1]]);
                        let there = self.good(got);
                        let nc = self.b.diff(g, there);
                        let nc = self.assume(g, nc);
                        if nc != F {
                            let c = self.t.call("unwrap_fails", vec![got]);
                            self.effect(st, EffKind::Panic, nc, c, line(&i.expr));
                        }
                    }
                    if let Some(h) = st.heap.get(&t).cloned() {
                        for (k, y) in h {
                            out.push((self.b.and(g, k), y));
                        }
                    } else {
                        out.push((g, t));
                    }
                }
                self.norm(out)
            }
            Expr::Range(r) => {
                let z = self.t.mk(Term::Int(0));
                let s = match &r.start {
                    Some(s) => self.eval(s, st),
                    None => one(z),
                };
                let dots = self.t.sym("..");
                let en = match &r.end {
                    Some(s) => self.eval(s, st),
                    None => one(dots),
                };
                let closed = matches!(r.limits, syn::RangeLimits::Closed(_));
                let combos = self.combine(&[s, en]);
                let mut out = vec![];
                for (g, mut a) in combos {
                    if closed {
                        let one_ = self.t.mk(Term::Int(1));
                        a[1] = self.arith("+", a[1], one_);
                    }
                    out.push((g, self.t.call("range", a)));
                }
                self.norm(out)
            }
            Expr::Tuple(t) => {
                let vals: Vec<Val> = t.elems.iter().map(|x| self.eval(x, st)).collect();
                // keep components separate: each component may be a Mux
                let comps: Vec<Tid> = vals.into_iter().map(|v| self.single(v)).collect();
                let t = self.t.mk(Term::Tuple(comps));
                one(t)
            }
            Expr::Array(a) => {
                let mut items = vec![];
                for x in &a.elems {
                    let v = self.eval(x, st);
                    for (g, t) in v {
                        items.push(Item { loops: vec![], guard: g, term: t, spread: false });
                    }
                }
                let t = self.t.mk(Term::Coll(items));
                one(t)
            }
            Expr::Repeat(r) => {
                let a = self.eval(&r.expr, st);
                let n = self.eval(&r.len, st);
                let a = self.single(a);
                let n = self.single(n);
                let t = self.t.call("repeat", vec![a, n]);
                one(t)
            }
            Expr::Struct(s) => self.eval_struct(s, st),
            Expr::Block(b) => {
                if b.label.is_some() {
                    // labelled block: break leaves it
                    self.loop_frames.push(LoopFrame {
                        label: b.label.as_ref().map(|l| l.name.ident.to_string()),
                        conts: vec![],
                        breaks: vec![],
                    });
                    let base = st.clone();
                    let v = self.eval_block(&b.block, st);
                    let fr = self.loop_frames.pop().unwrap();
                    let mut outs = vec![(st.pc, st.clone(), v)];
                    for (s, v) in fr.breaks {
                        outs.push((s.pc, s, v));
                    }
                    let (s, v) = self.join(&base, outs);
                    *st = s;
                    return v;
                }
                self.eval_block(&b.block, st)
            }
            Expr::Unsafe(b) => self.eval_block(&b.block, st),
            Expr::Const(b) => self.eval_block(&b.block, st),
            Expr::If(i) => self.eval_if(i, st),
            Expr::Match(m) => self.eval_match(m, st),
            Expr::Let(_) => {
                let (c, _) = self.eval_cond(e, st);
                self.bool_val(c)
            }
            Expr::Return(r) => {
                let v = match &r.expr {
                    Some(x) => self.eval(x, st),
                    None => {
                        let u = self.unit();
                        one(u)
                    }
                };
                self.do_return(st, v, line(r));
                let u = self.unit();
                one(u)
            }
            Expr::Break(b) => {
                let v = match &b.expr {
                    Some(x) => self.eval(x, st),
                    None => {
                        let u = self.unit();
                        one(u)
                    }
                };
                let s = st.clone();
                let l = b.label.as_ref().map(|l| l.ident.to_string());
                if s.pc != F {
                    if let Some(i) = self.find_loop(l.as_deref()) {
                        self.loop_frames[i].breaks.push((s, v));
                    }
                }
                st.pc = F;
                let u = self.unit();
                one(u)
            }
            Expr::Continue(c) => {
                let s = st.clone();
                let l = c.label.as_ref().map(|l| l.ident.to_string());
                if let Some(i) = self.find_loop(l.as_deref()) {
                    self.loop_frames[i].conts.push(s);
                }
                st.pc = F;
                let u = self.unit();
                one(u)
            }
            Expr::ForLoop(f) => {
                let v = self.eval(&f.expr, st);
                let label = f.label.as_ref().map(|l| l.name.ident.to_string());
                let flat = self.flatten(&v);
                for (g, t) in flat {
                    for it in self.items_of(t) {
                        if st.pc == F {
                            break;
                        }
                        let gg = self.b.and(g, it.guard);
                        let elem = it.term;
                        self.run_loop(st, it.loops.clone(), gg, label.clone(), line(f), &mut |me: &mut Ev<'p>, s: &mut St| {
                            me.push_scope(s);
                            let (_, binds) = me.test_pat(&f.pat, elem);
                            for (n, v) in binds {
                                me.bind(s, &n, v);
                            }
                            me.eval_block(&f.body, s);
                            me.pop_scope(s);
                        });
                    }
                }
                let u = self.unit();
                one(u)
            }
            Expr::While(w) => {
                // `while c { b }` is `loop { if !c { break } b }`
                let tx = self.t.sym("true");
                let it = self.t.call("while", vec![tx]);
                let label = w.label.as_ref().map(|l| l.name.ident.to_string());
                self.endless = true;
                self.run_loop(st, vec![it], T, label, line(w), &mut |me: &mut Ev<'p>, s: &mut St| {
                    me.push_scope(s);
                    let (c, binds) = me.eval_cond(&w.cond, s);
                    let nc = me.b.not(c);
                    let left = me.assume(s.pc, nc);
                    if left != F {
                        let mut out = s.clone();
                        out.pc = left;
                        me.pop_scope(&mut out);
                        let u = me.unit();
                        if let Some(f) = me.loop_frames.last_mut() {
                            f.breaks.push((out, one(u)));
                        }
                    }
                    s.pc = me.assume(s.pc, c);
                    for (n, v) in binds {
                        me.bind(s, &n, v);
                    }
                    me.eval_block(&w.body, s);
                    me.pop_scope(s);
                });
                let u = self.unit();
                one(u)
            }
            // `loop { if c { return x } b }` is `while !c { b } return x`
            Expr::Loop(l) if leaves_at_once(l).is_some() => {
                let Some((cond, then)) = leaves_at_once(l) else { return vec![] };
                let tx = self.t.sym("true");
                let it = self.t.call("while", vec![tx]);
                let rest = syn::Block { brace_token: l.body.brace_token, stmts: l.body.stmts[1..].to_vec() };
                self.endless = true;
                self.run_loop(st, vec![it], T, None, line(l), &mut |me: &mut Ev<'p>, s: &mut St| {
                    let (c, _) = me.eval_cond(cond, s);
                    let left = me.assume(s.pc, c);
                    if left != F {
                        let mut out = s.clone();
                        out.pc = left;
                        let u = me.unit();
                        if let Some(f) = me.loop_frames.last_mut() {
                            f.breaks.push((out, one(u)));
                        }
                    }
                    let nc = me.b.not(c);
                    s.pc = me.assume(s.pc, nc);
                    me.eval_block(&rest, s);
                });
                self.eval_block(then, st)
            }
            Expr::Loop(l) => {
                let tx = self.t.sym("true");
                let it = self.t.call("while", vec![tx]);
                let label = l.label.as_ref().map(|l| l.name.ident.to_string());
                self.endless = true;
                self.run_loop(st, vec![it], T, label, line(l), &mut |me: &mut Ev<'p>, s: &mut St| {
                    me.eval_block(&l.body, s);
                })
            }
            Expr::Assign(a) => {
                let v = self.eval(&a.right, st);
                if let Expr::Infer(_) = &*a.left {
                    let u = self.unit();
                    return one(u);
                }
                if let Expr::Tuple(t) = &*a.left {
                    for (i, x) in t.elems.iter().enumerate() {
                        if let Expr::Infer(_) = x {
                            continue;
                        }
                        let vi = self.map1(&v, |me, t| me.field_of(t, &i.to_string()));
                        let p = self.place(x, st);
                        self.store(p, vi, st, line(a));
                    }
                } else {
                    let p = self.place(&a.left, st);
                    self.store(p, v, st, line(a));
                }
                let u = self.unit();
                one(u)
            }
            Expr::Closure(c) => {
                let idx = self.closures.len() as u32;
                let ci = ClosureInfo {
                    expr: Rc::new(c.clone()),
                    scopes: st.scopes.clone(),
                    self_ty: self.cur_self_ty(),
                    file: self.frames.last().map(|f| f.file.clone()).unwrap_or_default(),
                    func: self.frames.last().map(|f| f.func).unwrap_or(0),
                };
                self.closures.push(ci);
                let t = self.t.mk(Term::Closure(idx));
                one(t)
            }
            Expr::Try(t) => {
                let v = self.eval(&t.expr, st);
                self.eval_try(v, st, line(t))
            }
            Expr::Call(c) => self.eval_call(c, st),
            Expr::MethodCall(m) => self.eval_method(m, st),
            Expr::Macro(m) => self.eval_macro(&m.mac, st, line(m)),
            Expr::Await(a) => self.eval(&a.base, st),
            Expr::Async(a) => self.eval_block(&a.block, st),
            other => {
                let s = tokens(other).replace(' ', "");
                let t = self.t.sym(&s);
                one(t)
            }
        }
    }

    pub fn single(&mut self, v: Val) -> Tid {
        match v.as_slice() {
            [(_, t)] => *t,
            [] => self.t.sym("never"),
            _ => {
                let v = self.flatten(&v);
                let v = self.norm(v);
                if v.len() == 1 {
                    return v[0].1;
                }
                self.t.mk(Term::Mux(v))
            }
        }
    }

    fn find_loop(&self, label: Option<&str>) -> Option<usize> {
        let lo = self.frames.last().map(|f| f.loop_frames).unwrap_or(0);
        match label {
            None => {
                // unlabelled break/continue skips labelled plain blocks only in rare code
                if self.loop_frames.len() > lo {
                    Some(self.loop_frames.len() - 1)
                } else {
                    None
                }
            }
            Some(l) => (lo..self.loop_frames.len()).rev().find(|&i| self.loop_frames[i].label.as_deref() == Some(l)),
        }
    }

    pub fn do_return(&mut self, st: &mut St, v: Val, line: usize) {
        if st.pc != F {
            let s = st.clone();
            if let Some(f) = self.frames.last_mut() {
                f.rets.push((s, v, line));
            }
        }
        st.pc = F;
    }

    pub fn eval_try(&mut self, v: Val, st: &mut St, line: usize) -> Val {
        let v = self.flatten(&v);
        let mut ok = F;
        let mut out = vec![];
        let mut fails: Vec<(Bid, Tid)> = vec![];
        for (g, t) in v {
            let c = self.good(t);
            let gc = self.b.and(g, c);
            ok = self.b.or(ok, gc);
            if gc != F {
                let p = self.payload(t);
                out.push((g, p));
            }
            let nc = self.b.not(c);
            let gn = self.b.and(g, nc);
            if gn != F {
                let is_opt = match self.t.get(t).clone() {
                    Term::Ctor(n, _) if &*n == "None" => true,
                    Term::Ctor(n, _) if &*n == "Err" => false,
                    _ => match self.ty(t).head() {
                        Some("Option") => true,
                        Some("Result") => false,
                        _ => self.frames.last().is_some_and(|f| f.ret_is_option),
                    },
                };
                let f = if is_opt {
                    self.none()
                } else {
                    let e = self.err_of(t);
                    self.t.mk(Term::Ctor("Err".into(), vec![("0".into(), e)]))
                };
                fails.push((gn, f));
            }
        }
        let fails = self.norm(fails);
        let mut fc = F;
        for (g, _) in &fails {
            fc = self.b.or(fc, *g);
        }
        if fc != F {
            let mut s = st.clone();
            s.pc = self.assume(st.pc, fc);
            self.do_return(&mut s, fails, line);
        }
        st.pc = self.assume(st.pc, ok);
        if out.len() == 1 {
            return one(out[0].1);
        }
        self.norm(out)
    }

    fn eval_if(&mut self, i: &syn::ExprIf, st: &mut St) -> Val {
        let (c, binds) = self.eval_cond(&i.cond, st);
        let mut s1 = st.clone();
        s1.pc = self.assume(st.pc, c);
        self.push_scope(&mut s1);
        for (n, v) in binds {
            self.bind(&mut s1, &n, v);
        }
        let u = self.unit();
        let v1 = if s1.pc == F { one(u) } else { self.eval_block(&i.then_branch, &mut s1) };
        self.pop_scope(&mut s1);
        let nc = self.b.not(c);
        let mut s2 = st.clone();
        s2.pc = self.assume(st.pc, nc);
        let v2 = match &i.else_branch {
            Some((_, e)) if s2.pc != F => self.eval(e, &mut s2),
            _ => one(u),
        };
        let base = st.clone();
        let (s, v) = self.join(&base, vec![(c, s1, v1), (nc, s2, v2)]);
        *st = s;
        v
    }

    fn eval_match(&mut self, m: &syn::ExprMatch, st: &mut St) -> Val {
        let v = self.eval(&m.expr, st);
        if st.pc == F {
            return v;
        }
        let base = st.clone();
        let mut rem = T;
        let mut outs = vec![];
        let mut lost = F;
        for arm in &m.arms {
            let (c, binds) = self.test_val(&arm.pat, &v);
            let mut ac = self.assume(rem, c);
            if ac == F {
                continue;
            }
            let mut s = base.clone();
            s.pc = self.assume(base.pc, ac);
            if s.pc == F {
                let n = self.b.not(ac);
                rem = self.b.and(rem, n);
                continue;
            }
            self.push_scope(&mut s);
            for (n, x) in &binds {
                self.bind(&mut s, n, x.clone());
            }
            if let Some((_, g)) = &arm.guard {
                let (gc, gb) = self.eval_cond(g, &mut s);
                ac = self.assume(ac, gc);
                s.pc = self.assume(s.pc, gc);
                for (n, x) in gb {
                    self.bind(&mut s, &n, x);
                }
            }
            if s.pc == F {
                continue;
            }
            let before = s.pc;
            let r = self.eval(&arm.body, &mut s);
            self.pop_scope(&mut s);
            let l = self.b.diff(before, s.pc);
            lost = self.b.or(lost, l);
            outs.push((ac, s, r));
            let n = self.b.not(ac);
            rem = self.b.and(rem, n);
        }
        let n_out = outs.len();
        let all_dead = outs.iter().all(|(_, s, _)| s.pc == F);
        let (mut s, r) = self.join(&base, outs);
        s.pc = if all_dead || n_out == 0 { F } else { self.b.diff(base.pc, lost) };
        *st = s;
        r
    }

    fn eval_struct(&mut self, s: &syn::ExprStruct, st: &mut St) -> Val {
        let name = match self.variant_of(&s.path) {
            Some(v) => v,
            None => {
                let l = s.path.segments.last().map(|x| x.ident.to_string()).unwrap_or_default();
                if l == "Self" {
                    self.cur_self_ty().unwrap_or(l)
                } else {
                    self.unalias(&l)
                }
            }
        };
        let mut fs: Vec<(crate::term::S, Tid)> = vec![];
        for f in &s.fields {
            let n = match &f.member {
                syn::Member::Named(i) => i.to_string(),
                syn::Member::Unnamed(i) => i.index.to_string(),
            };
            let v = self.eval(&f.expr, st);
            let t = self.single(v);
            let t = self.deref_term(t, st);
            fs.push((n.as_str().into(), t));
        }
        if let Some(r) = &s.rest {
            let v = self.eval(r, st);
            let t = self.single(v);
            let known = self.p.structs.get(&name).map(|x| x.fields.iter().map(|f| f.name.to_string()).collect::<Vec<_>>());
            match (known, self.t.get(t)) {
                (Some(names), Term::Ctor(..) | Term::Sym(_) | Term::Field(..) | Term::Mux(_)) => {
                    let t = self.deref_term(t, st);
                    for n in names {
                        if !fs.iter().any(|x| *x.0 == *n) {
                            let x = self.field_of(t, &n);
                            fs.push((n.as_str().into(), x));
                        }
                    }
                }
                _ => fs.push(("..".into(), t)),
            }
        }
        fs.sort_by(|a, b| a.0.cmp(&b.0));
        let t = self.t.mk(Term::Ctor(name.as_str().into(), fs));
        one(t)
    }

    pub fn deref_term(&mut self, t: Tid, st: &St) -> Tid {
        if let Term::Ref(s) = self.t.get(t).clone() {
            let v = self.load(st, s);
            return self.single(v);
        }
        t
    }

    // ---------- places ----------
    pub fn local_slot(&self, e: &Expr, st: &St) -> Option<u32> {
        match e {
            Expr::Path(p) if p.qself.is_none() => {
                let i = p.path.get_ident()?;
                self.lookup(st, &i.to_string())
            }
            Expr::Paren(p) => self.local_slot(&p.expr, st),
            _ => None,
        }
    }
    pub fn place(&mut self, e: &Expr, st: &mut St) -> Place {
        match e {
            Expr::Paren(p) => self.place(&p.expr, st),
            Expr::Path(_) => match self.local_slot(e, st) {
                Some(s) => Place::Slot(self.final_slot(st, s)),
                None => {
                    let v = self.eval(e, st);
                    Place::Heap(self.single(v))
                }
            },
            Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => {
                if let Some(s) = self.local_slot(&u.expr, st) {
                    let fs = self.final_slot(st, s);
                    if fs != s {
                        return Place::Slot(fs);
                    }
                    let v = self.load(st, s);
                    return Place::Heap(self.single(v));
                }
                self.place(&u.expr, st)
            }
            Expr::Field(f) => {
                let name = match &f.member {
                    syn::Member::Named(i) => i.to_string(),
                    syn::Member::Unnamed(i) => i.index.to_string(),
                };
                if let Some(s) = self.local_slot(&f.base, st) {
                    let fs = self.final_slot(st, s);
                    let v = self.load(st, fs);
                    if let [(_, t)] = v.as_slice() {
                        if matches!(self.t.get(*t), Term::Ctor(..) | Term::Tuple(_)) {
                            return Place::SlotField(fs, name);
                        }
                    }
                }
                let b = self.eval(&f.base, st);
                let b = self.single(b);
                Place::Heap(self.field_of(b, &name))
            }
            _ => {
                let v = self.eval(e, st);
                Place::Heap(self.single(v))
            }
        }
    }
    pub fn load_place(&mut self, p: &Place, st: &St) -> Val {
        match p {
            Place::Slot(s) => self.load(st, *s),
            Place::SlotField(s, f) => {
                let v = self.load(st, *s);
                self.map1(&v, |me, t| me.field_of(t, f))
            }
            Place::Heap(t) => st.heap.get(t).cloned().unwrap_or_else(|| one(*t)),
        }
    }
    pub fn store(&mut self, p: Place, v: Val, st: &mut St, line: usize) {
        match p {
            Place::Slot(s) => {
                Rc::make_mut(&mut st.mem).insert(s, v);
            }
            Place::SlotField(s, f) => {
                let cur = self.load(st, s);
                let nt = self.single(v);
                let r = self.map1(&cur, |me, t| match me.t.get(t).clone() {
                    Term::Ctor(n, mut fs) => {
                        if let Some(e) = fs.iter_mut().find(|e| *e.0 == *f) {
                            e.1 = nt;
                        } else {
                            fs.push((f.as_str().into(), nt));
                        }
                        me.t.mk(Term::Ctor(n, fs))
                    }
                    Term::Tuple(mut fs) => {
                        if let Ok(i) = f.parse::<usize>() {
                            if i < fs.len() {
                                fs[i] = nt;
                            }
                        }
                        me.t.mk(Term::Tuple(fs))
                    }
                    _ => t,
                });
                Rc::make_mut(&mut st.mem).insert(s, r);
            }
            Place::Heap(t) => {
                for &(g, x) in &v {
                    let x = self.deref_term(x, st);
                    let c = self.t.call("=", vec![t, x]);
                    self.effect(st, EffKind::Store, g, c, line);
                }
                Rc::make_mut(&mut st.heap).insert(t, v);
            }
        }
    }

    // ---------- arithmetic and comparison ----------
    pub fn arith(&mut self, op: &str, a: Tid, b: Tid) -> Tid {
        if let (Term::Int(x), Term::Int(y)) = (self.t.get(a).clone(), self.t.get(b).clone()) {
            let r = match op {
                "+" => x.checked_add(y),
                "-" => x.checked_sub(y),
                "*" => x.checked_mul(y),
                "/" if y != 0 => Some(x / y),
                "%" if y != 0 => Some(x % y),
                "<<" if (0..100).contains(&y) => x.checked_shl(y as u32),
                ">>" if (0..100).contains(&y) => Some(x >> y),
                "&" => Some(x & y),
                "|" => Some(x | y),
                "^" => Some(x ^ y),
                _ => None,
            };
            if let Some(r) = r {
                return self.t.mk(Term::Int(r));
            }
        }
        // joining texts
        if op == "+" && [a, b].iter().any(|x| matches!(self.t.get(*x), Term::Str(_) | Term::Fmt(_))) {
            let mut ps: Vec<FmtPart> = vec![];
            for x in [a, b] {
                let more = match self.t.get(x).clone() {
                    Term::Str(s) => vec![FmtPart::Str(s)],
                    Term::Fmt(ps) => ps,
                    _ => vec![FmtPart::Arg(x, "".into())],
                };
                for p in more {
                    match (ps.last_mut(), p) {
                        (_, FmtPart::Str(s)) if s.is_empty() => {}
                        (Some(FmtPart::Str(l)), FmtPart::Str(s)) => *l = format!("{l}{s}").into(),
                        (_, p) => ps.push(p),
                    }
                }
            }
            return self.mk_fmt(ps);
        }
        // (x + k) - k
        if let (Term::Call(n, v), Term::Int(k)) = (self.t.get(a).clone(), self.t.get(b).clone()) {
            if v.len() == 2 && (op == "-" || op == "+") && (&*n == "+" || &*n == "-") {
                if let Term::Int(j) = self.t.get(v[1]).clone() {
                    let j = if &*n == "-" { -j } else { j };
                    let k = if op == "-" { -k } else { k };
                    let s = j + k;
                    if s == 0 {
                        return v[0];
                    }
                    let c = self.t.mk(Term::Int(s.abs()));
                    return self.t.call(if s > 0 { "+" } else { "-" }, vec![v[0], c]);
                }
            }
        }
        if let Term::Int(0) = self.t.get(b) {
            if op == "+" || op == "-" {
                return a;
            }
        }
        let mut v = vec![a, b];
        if matches!(op, "+" | "*" | "&" | "|" | "^")
            && !matches!(self.t.get(a), Term::Str(_) | Term::Fmt(_) | Term::Coll(_))
        {
            let ia = matches!(self.t.get(a), Term::Int(_));
            let ib = matches!(self.t.get(b), Term::Int(_));
            let swap = if ia != ib { ia } else { self.show(a) > self.show(b) };
            if swap {
                v.swap(0, 1);
            }
        }
        self.t.call(op, v)
    }

    pub fn compare(&mut self, op: &str, a: Tid, b: Tid) -> Bid {
        match op {
            "==" => self.eq(a, b),
            "!=" => {
                let c = self.eq(a, b);
                self.b.not(c)
            }
            "<" => self.lt(a, b),
            ">" => self.lt(b, a),
            "<=" => {
                let c = self.lt(b, a);
                self.b.not(c)
            }
            _ => {
                let c = self.lt(a, b);
                self.b.not(c)
            }
        }
    }

    fn eval_binary(&mut self, b: &syn::ExprBinary, st: &mut St) -> Val {
        use syn::BinOp::*;
        let op = match b.op {
            And(_) | Or(_) => {
                let e = Expr::Binary(b.clone());
                let (c, _) = self.eval_cond(&e, st);
                return self.bool_val(c);
            }
            Eq(_) => "==",
            Ne(_) => "!=",
            Lt(_) => "<",
            Le(_) => "<=",
            Gt(_) => ">",
            Ge(_) => ">=",
            Add(_) | AddAssign(_) => "+",
            Sub(_) | SubAssign(_) => "-",
            Mul(_) | MulAssign(_) => "*",
            Div(_) | DivAssign(_) => "/",
            Rem(_) | RemAssign(_) => "%",
            BitAnd(_) | BitAndAssign(_) => "&",
            BitOr(_) | BitOrAssign(_) => "|",
            BitXor(_) | BitXorAssign(_) => "^",
            Shl(_) | ShlAssign(_) => "<<",
            Shr(_) | ShrAssign(_) => ">>",
            _ => "?",
        };
        let assign = matches!(
            b.op,
            AddAssign(_)
                | SubAssign(_)
                | MulAssign(_)
                | DivAssign(_)
                | RemAssign(_)
                | BitAndAssign(_)
                | BitOrAssign(_)
                | BitXorAssign(_)
                | ShlAssign(_)
                | ShrAssign(_)
        );
        if assign {
            let r = self.eval(&b.right, st);
            let p = self.place(&b.left, st);
            let cur = self.load_place(&p, st);
            // string/collection append
            if op == "+" {
                if let Place::Slot(s) = p {
                    if let [(_, t)] = cur.as_slice() {
                        let s = self.final_slot(st, s);
                        if self.str_slots.contains(&s) {
                            self.str_push(s, r, false, st);
                            let u = self.unit();
                            return one(u);
                        }
                        if matches!(self.t.get(*t), Term::Coll(_)) {
                            self.coll_push(s, r, false, st);
                            let u = self.unit();
                            return one(u);
                        }
                    }
                }
            }
            // bool |= / &=
            let combos = self.combine(&[cur, r]);
            let mut out = vec![];
            for (g, a) in combos {
                let is_b = |me: &Self, t: Tid| matches!(me.t.get(t), Term::Bool(_));
                if (op == "|" || op == "&") && (is_b(self, a[0]) || is_b(self, a[1])) {
                    let x = self.truth1(a[0]);
                    let y = self.truth1(a[1]);
                    let c = if op == "|" { self.b.or(x, y) } else { self.b.and(x, y) };
                    for (h, t) in self.bool_val(c) {
                        out.push((self.b.and(g, h), t));
                    }
                    continue;
                }
                let x = self.arith(op, a[0], a[1]);
                out.push((g, x));
            }
            let v = self.norm(out);
            self.store(p, v, st, line(b));
            let u = self.unit();
            return one(u);
        }
        let l = self.eval(&b.left, st);
        let r = self.eval(&b.right, st);
        let l = self.deref_val(l, st);
        let r = self.deref_val(r, st);
        let combos = self.combine(&[l, r]);
        if matches!(op, "==" | "!=" | "<" | "<=" | ">" | ">=") {
            let mut c = F;
            for (g, a) in combos {
                let x = self.compare(op, a[0], a[1]);
                let y = self.b.and(g, x);
                c = self.b.or(c, y);
            }
            return self.bool_val(c);
        }
        let mut out = vec![];
        for (g, a) in combos {
            let isb = |me: &Self, t: Tid| matches!(me.t.get(t), Term::Bool(_));
            if matches!(op, "&" | "|" | "^") && (isb(self, a[0]) || isb(self, a[1])) {
                let x = self.truth1(a[0]);
                let y = self.truth1(a[1]);
                let c = match op {
                    "&" => self.b.and(x, y),
                    "|" => self.b.or(x, y),
                    _ => self.b.xor(x, y),
                };
                for (h, t) in self.bool_val(c) {
                    out.push((self.b.and(g, h), t));
                }
                continue;
            }
            out.push((g, self.arith(op, a[0], a[1])));
        }
        self.norm(out)
    }
    pub fn deref_val(&mut self, v: Val, st: &St) -> Val {
        if v.iter().any(|(_, t)| matches!(self.t.get(*t), Term::Ref(_))) {
            let mut out = vec![];
            for (g, t) in v {
                if let Term::Ref(s) = self.t.get(t).clone() {
                    for (h, x) in self.load(st, s) {
                        out.push((self.b.and(g, h), x));
                    }
                } else {
                    out.push((g, t));
                }
            }
            return self.norm(out);
        }
        v
    }

    pub fn eval_path(&mut self, p: &syn::ExprPath, st: &mut St) -> Val {
        if p.qself.is_none() {
            if let Some(i) = p.path.get_ident() {
                let n = i.to_string();
                if let Some(s) = self.lookup(st, &n) {
                    let v = st.mem.get(&s).cloned().unwrap_or_default();
                    if let [(_, t)] = v.as_slice() {
                        if let Term::Ref(_) = self.t.get(*t) {
                            return v; // references travel as references
                        }
                    }
                    return v;
                }
            }
        }
        if let Some(v) = self.variant_of(&p.path) {
            // tuple variants used as functions are handled by callers through `FnRef`-like syms
            let n = match v.rsplit_once("::") {
                Some((e, x)) => self.p.variant(e, x).map(|y| y.fields.len()).unwrap_or(0),
                None => usize::from(v != "None"),
            };
            if n == 0 || v == "None" {
                let t = self.t.mk(Term::Ctor(v.as_str().into(), vec![]));
                return one(t);
            }
            let t = self.t.sym(&format!("ctor {}", v));
            return one(t);
        }
        if let Some(c) = self.const_term(&p.path) {
            return one(c);
        }
        if let Some(f) = self.resolve_path_fn(&p.path) {
            let t = self.t.mk(Term::FnRef(f as u32));
            return one(t);
        }
        let segs: Vec<String> = p
            .path
            .segments
            .iter()
            .map(|s| {
                let n = s.ident.to_string();
                if n == "Self" {
                    self.cur_self_ty().unwrap_or(n)
                } else {
                    self.unalias(&n)
                }
            })
            .collect();
        let keep = segs.len().saturating_sub(2);
        let name = segs[keep..].join("::");
        // unit structs
        if segs.len() == 1 && self.p.structs.get(&name).is_some_and(|s| s.fields.is_empty()) {
            let t = self.t.mk(Term::Ctor(name.as_str().into(), vec![]));
            return one(t);
        }
        let t = self.t.sym(&name);
        one(t)
    }

    /// evaluate without keeping effects or state changes
    pub fn dry<R>(&mut self, st: &St, f: impl FnOnce(&mut Self, &mut St) -> R) -> R {
        let n = self.effects.len();
        let nl = self.loops.len();
        let seq = self.seq;
        let lf: Vec<(usize, usize)> = self.loop_frames.iter().map(|l| (l.conts.len(), l.breaks.len())).collect();
        let fr: Vec<usize> = self.frames.iter().map(|f| f.rets.len()).collect();
        let mut s = st.clone();
        let r = f(self, &mut s);
        self.effects.truncate(n);
        let _ = nl;
        self.seq = seq;
        for (l, (a, b)) in self.loop_frames.iter_mut().zip(lf) {
            l.conts.truncate(a);
            l.breaks.truncate(b);
        }
        for (f, n) in self.frames.iter_mut().zip(fr) {
            f.rets.truncate(n);
        }
        r
    }

    /// Run a loop body once, abstractly, for "some iteration".
    pub fn run_loop(
        &mut self,
        st: &mut St,
        iters: Vec<Tid>,
        guard: Bid,
        label: Option<String>,
        line: usize,
        body: &mut dyn FnMut(&mut Self, &mut St),
    ) -> Val {
        let endless = std::mem::take(&mut self.endless);
        let base = st.clone();
        if guard == F {
            let u = self.unit();
            return one(u);
        }
        // 1. which outer slots change?
        let changed: Vec<u32> = if iters.is_empty() {
            vec![]
        } else {
            let base2 = base.clone();
            let it2 = iters.clone();
            let lab = label.clone();
            self.dry(&base, |me, s| {
                let r = me.loop_once(s, &it2, guard, lab, line, body);
                let mut ch = vec![];
                for s in r.ends.iter().chain(r.breaks.iter().map(|x| &x.0)) {
                    for (k, v) in base2.mem.iter() {
                        if s.mem.get(k) != Some(v) && !ch.contains(k) {
                            ch.push(*k);
                        }
                    }
                }
                ch.sort();
                ch
            })
        };
        let mut lv: HashMap<u32, Tid> = HashMap::new();
        let mut base = base;
        for k in &changed {
            if self.str_slots.contains(k) {
                self.str_push(*k, vec![], false, &mut base);
            }
        }
        // variables carried from one iteration to the next
        let carried: Vec<u32> = changed
            .iter()
            .copied()
            .filter(|k| {
                let cur = base.mem.get(k).cloned().unwrap_or_default();
                !matches!(cur.as_slice(), [(_, t)] if matches!(self.t.get(*t), Term::Coll(_)))
            })
            .collect();
        let mut start = base.clone();
        if !carried.is_empty() {
            // each is known by its first value and by what an iteration makes of it
            let inits: Vec<String> = carried
                .iter()
                .map(|k| {
                    let v = base.mem.get(k).cloned().unwrap_or_default();
                    let t = self.single(v);
                    self.show(t).to_string()
                })
                .collect();
            let mut marks: HashMap<u32, Tid> = HashMap::new();
            for (n, k) in carried.iter().enumerate() {
                let dup = inits[..n].iter().filter(|x| **x == inits[n]).count();
                let v = self.lv_named(&format!("{} #{}", inits[n], dup), vec![]);
                marks.insert(*k, v);
            }
            let mut probe = base.clone();
            for k in &carried {
                Rc::make_mut(&mut probe.mem).insert(*k, one(marks[k]));
            }
            let it2 = iters.clone();
            let lab = label.clone();
            let keys = carried.clone();
            let names: Vec<String> = carried.iter().map(|k| self.show(marks[k]).to_string()).collect();
            let marks = &marks;
            let steps: Vec<Vec<(Bid, String)>> = self.dry(&probe, |me, s| {
                let r = me.loop_once(s, &it2, guard, lab, line, body);
                // given that the iteration reaches its end
                let mut reach = F;
                for s in r.ends.iter() {
                    reach = me.b.or(reach, s.pc);
                }
                let mut out = vec![];
                for (n, k) in keys.iter().enumerate() {
                    let mut o = vec![];
                    for s in r.ends.iter() {
                        let c = me.b.constrain(s.pc, reach);
                        for (g, t) in s.mem.get(k).cloned().unwrap_or_default() {
                            o.push((me.b.and(c, g), t));
                        }
                    }
                    let v = me.norm(o);
                    let v = me.flatten(&v);
                    if v.iter().any(|(_, t)| matches!(me.t.get(*t), Term::Bool(_))) {
                        let b = me.truth(&v);
                        let own = me.truth1(marks[k]);
                        let (x, _, _) = me.b.node(own);
                        let hi = me.b.cofactor(b, x, true);
                        let lo = me.b.cofactor(b, x, false);
                        out.push(vec![(hi, "true of true".to_string()), (lo, "true of false".to_string())]);
                        continue;
                    }
                    let mut m: std::collections::BTreeMap<String, Bid> = Default::default();
                    for (g, t) in v {
                        let s = me.show(t).replace(&names[n], "lv(self)");
                        let e = m.entry(s).or_insert(F);
                        *e = me.b.or(*e, g);
                    }
                    out.push(m.into_iter().map(|(s, g)| (me.b.constrain(g, reach), s)).collect());
                }
                out
            });
            for (n, k) in carried.iter().enumerate() {
                let dup = inits[..n].iter().zip(&steps).filter(|(i, s)| **i == inits[n] && **s == steps[n]).count();
                let v = self.lv_named(&format!("{} {}", inits[n], dup), steps[n].clone());
                lv.insert(*k, v);
                Rc::make_mut(&mut start.mem).insert(*k, one(v));
            }
        }
        let r = self.loop_once(&mut start, &iters, guard, label, line, body);
        let mut out = base.clone();
        // an endless `loop` is left only by break
        let infinite = endless;
        // leaving an endless loop by returning a constant is breaking out of it and returning
        // that constant
        let mut late: Option<Val> = None;
        let mut r = r;
        if infinite && r.breaks.iter().all(|(s, _)| s.pc == F) && r.ret_pcs.len() > 1 {
            let fi = self.frames.len() - 1;
            let n = self.frames[fi].rets.len();
            let first = n - r.ret_pcs.len();
            let konst: Vec<usize> = (first..n)
                .filter(|&i| match self.frames[fi].rets[i].1.as_slice() {
                    [(g, t)] => {
                        *g == T
                            && match self.t.get(*t) {
                                Term::Bool(_) | Term::Int(_) | Term::Str(_) => true,
                                Term::Ctor(_, f) => f.is_empty(),
                                Term::Tuple(f) => f.is_empty(),
                                _ => false,
                            }
                    }
                    _ => false,
                })
                .collect();
            if let [i] = konst.as_slice() {
                late = Some(self.frames[fi].rets[*i].1.clone());
                self.frames[fi].rets.remove(*i);
                r.ret_pcs.remove(*i - first);
            }
        }
        let mut ret = F;
        for p in &r.ret_pcs {
            ret = self.b.or(ret, *p);
        }
        let mut brk = F;
        for (s, _) in &r.breaks {
            brk = self.b.or(brk, s.pc);
        }
        // 2. merge states at the end of an iteration
        let ends: Vec<(Bid, St)> = r
            .ends
            .iter()
            .map(|s| (s.pc, s.clone()))
            .chain(r.breaks.iter().map(|(s, _)| (s.pc, s.clone())))
            .filter(|x| x.0 != F)
            .collect();
        for k in &changed {
            let alts: Vec<(Bid, Val)> =
                ends.iter().map(|(c, s)| (*c, s.mem.get(k).cloned().unwrap_or_default())).collect();
            if alts.is_empty() {
                continue;
            }
            let init = base.mem.get(k).cloned().unwrap_or_default();
            let newv = match lv.get(k) {
                None => match self.prefix_coll_pub(&alts) {
                    Some(items) => one(self.t.mk(Term::Coll(items))),
                    None => self.join_vals(alts),
                },
                Some(&lvt) => {
                    let fin = {
                        let mut o = vec![];
                        for (c, v) in alts {
                            for (g, t) in v {
                                o.push((self.b.and(c, g), t));
                            }
                        }
                        self.norm(o)
                    };
                    self.after_loop(&iters, lvt, init, fin, brk)
                }
            };
            Rc::make_mut(&mut out.mem).insert(*k, newv);
        }
        // heap
        let mut keys: Vec<Tid> = vec![];
        for (_, s) in &ends {
            for (k, v) in s.heap.iter() {
                if base.heap.get(k) != Some(v) && !keys.contains(k) {
                    keys.push(*k);
                }
            }
        }
        for k in keys {
            if matches!(self.t.get(k), Term::Call(n, _) if &**n == "len") {
                continue;
            }
            let init = base.heap.get(&k).cloned().unwrap_or_else(|| one(k));
            let mut fin = vec![];
            for (c, s) in &ends {
                for (g, t) in s.heap.get(&k).cloned().unwrap_or_else(|| init.clone()) {
                    fin.push((self.b.and(*c, g), t));
                }
            }
            let fin = self.norm(fin);
            let nv = if fin.iter().all(|x| init.iter().any(|y| y.1 == x.1)) {
                init
            } else if iters.is_empty() {
                fin
            } else {
                let m = self.single(fin);
                let mut a = iters.clone();
                a.push(m);
                let x = self.t.call("after_loop", a);
                one(x)
            };
            Rc::make_mut(&mut out.heap).insert(k, nv);
        }
        let er = self.exists_before(&iters, ret, brk);
        let ner = self.b.not(er);
        out.pc = self.b.and(base.pc, ner);
        if let Some(v) = late {
            let mut s = out.clone();
            self.do_return(&mut s, v, line);
        }
        if infinite && r.breaks.iter().all(|(s, _)| s.pc == F) {
            out.pc = F;
        }
        if iters.is_empty() {
            // a single unrolled body: control falls out of every end
            let mut pc = F;
            for (c, _) in &ends {
                pc = self.b.or(pc, *c);
            }
            let ng = self.b.not(guard);
            let x = self.b.or(pc, ng);
            out.pc = self.b.and(base.pc, x);
            // merge memory
            let mut outs: Vec<(Bid, St, Val)> = ends
                .into_iter()
                .map(|(c, mut s)| {
                    s.scopes = base.scopes.clone();
                    (c, s, vec![])
                })
                .collect();
            if ng != F {
                outs.push((ng, base.clone(), vec![]));
            }
            let pc = out.pc;
            let (s, _) = self.join(&base, outs);
            out = s;
            out.pc = pc;
        }
        *st = out;
        let mut vals = vec![];
        for (s, v) in r.breaks {
            vals.push((s.pc, v));
        }
        if infinite {
            return self.join_vals(vals);
        }
        let u = self.unit();
        one(u)
    }

    /// the variable with this first value and this step
    fn lv_named(&mut self, init: &str, step: Vec<(Bid, String)>) -> Tid {
        let mut id = None;
        for i in 0..self.b.carried.len() {
            let (a, b) = self.b.carried[i].clone();
            if a == init
                && b.len() == step.len()
                && b.iter().zip(&step).all(|(x, y)| x.1 == y.1 && (x.0 == y.0 || self.b.equiv(x.0, y.0)))
            {
                id = Some(i);
                break;
            }
        }
        let id = id.unwrap_or_else(|| {
            if std::env::var_os("CS_LV").is_some() {
                eprintln!("LV {} = init {}", self.b.carried.len(), init);
                for (g, t) in &step {
                    eprintln!("    {} WHEN {}", t, self.b.text(*g));
                }
            }
            self.b.carried.push((init.to_string(), step));
            self.b.carried.len() - 1
        });
        let i = self.t.mk(Term::Int(id as i128));
        self.t.call("lv", vec![i])
    }

    fn after_loop(&mut self, iters: &[Tid], lvt: Tid, init: Val, fin: Val, brk: Bid) -> Val {
        let lvs = self.show(lvt).to_string();
        // a flag: set by some iteration, or cleared by some iteration
        let is_flag = fin.iter().all(|(_, t)| *t == lvt || matches!(self.t.get(*t), Term::Bool(_)))
            && fin.iter().any(|(_, t)| *t != lvt);
        if is_flag {
            let own = self.truth1(lvt);
            let (v, _, _) = self.b.node(own);
            let (mut hi, mut lo) = (F, F);
            for (g, t) in &fin {
                let c = self.truth1(*t);
                let a = self.b.and(*g, c);
                hi = self.b.or(hi, a);
                let n = self.b.not(c);
                let d = self.b.and(*g, n);
                lo = self.b.or(lo, d);
            }
            let set = self.b.cofactor(hi, v, false);
            let clear = self.b.cofactor(lo, v, true);
            let pure = |me: &Self, f: Bid| !me.b.support(f).iter().any(|a| me.b.atoms[*a as usize].show().contains(&lvs));
            if clear == F && pure(self, set) {
                let e = self.exists_over(iters, set);
                let i = self.truth(&init);
                let r = self.b.or(i, e);
                return self.bool_val(r);
            }
            if set == F && pure(self, clear) {
                let e = self.exists_over(iters, clear);
                let i = self.truth(&init);
                let r = self.b.diff(i, e);
                return self.bool_val(r);
            }
        }
        let mut out = vec![];
        let mut any = F;
        for (g, t) in &fin {
            if *t == lvt {
                continue;
            }
            let s = self.show(*t).to_string();
            if s.contains(&lvs) {
                // accumulation
                let i = self.single(init.clone());
                let m = self.single(fin.clone());
                let mut a = iters.to_vec();
                a.push(i);
                a.push(m);
                let x = self.t.call("acc", a);
                return one(x);
            }
            // guard must not depend on the loop variable itself beyond "not yet"
            let mut gg = *g;
            let sup = self.b.support(gg);
            let mut once = {
                let d = self.b.diff(gg, brk);
                self.b.unsat(d)
            };
            for v in sup {
                if self.b.atoms[v as usize].show().contains(&lvs) {
                    once = true;
                    let mut set = std::collections::BTreeSet::new();
                    set.insert(v);
                    gg = self.b.exists(gg, &set);
                }
            }
            let e = self.exists_over(iters, gg);
            let na = self.b.not(any);
            let e2 = self.b.and(e, na);
            // set again and again: the last one stays
            let mut t = *t;
            if !once && iters.len() == 1 && !matches!(self.t.get(iters[0]), Term::Call(n, _) if &**n == "while") {
                let bases = self.elem_bases(iters[0]);
                if bases.iter().any(|b| free_elem(&s, b)) {
                    t = self.t.call("last_such", vec![t]);
                }
            }
            out.push((e2, t));
            any = self.b.or(any, e);
        }
        let na = self.b.not(any);
        for (g, t) in init {
            out.push((self.b.and(na, g), t));
        }
        self.norm(out)
    }

    fn loop_once(
        &mut self,
        st: &mut St,
        iters: &[Tid],
        guard: Bid,
        label: Option<String>,
        line: usize,
        body: &mut dyn FnMut(&mut Self, &mut St),
    ) -> LoopResult {
        let mut s = st.clone();
        self.pcs.push(st.pc);
        let fi = self.frames.len() - 1;
        let ret0 = self.frames[fi].rets.len();
        let id = self.loops.len();
        self.loops.push(LoopInfo { iters: iters.to_vec(), until: F, line });
        if !iters.is_empty() {
            self.loop_stack.push(id);
        }
        self.loop_frames.push(LoopFrame { label, conts: vec![], breaks: vec![] });
        s.pc = guard;
        body(self, &mut s);
        let fr = self.loop_frames.pop().unwrap();
        if !iters.is_empty() {
            self.loop_stack.pop();
        }
        let outer = self.pcs.pop().unwrap();
        let mut ends = vec![s];
        ends.extend(fr.conts);
        // returns inside the body
        let mut ret_pcs = vec![];
        let n = self.frames[fi].rets.len();
        let mut until = F;
        let mut brk = F;
        for (s, _) in &fr.breaks {
            brk = self.b.or(brk, s.pc);
        }
        for i in ret0..n {
            let local = self.frames[fi].rets[i].0.pc;
            ret_pcs.push(local);
            until = self.b.or(until, local);
            let e = self.exists_before(iters, local, brk);
            let np = self.b.and(outer, e);
            let r = &mut self.frames[fi].rets[i].0;
            r.pc = np;
        }
        for (s, _) in &fr.breaks {
            until = self.b.or(until, s.pc);
        }
        self.loops[id].until = until;
        LoopResult { ends, breaks: fr.breaks, ret_pcs }
    }

    pub fn prefix_coll_pub(&self, v: &[(Bid, Val)]) -> Option<Vec<Item>> {
        let mut colls: Vec<&Vec<Item>> = vec![];
        for (_, x) in v {
            match x.as_slice() {
                [(_, t)] => match self.t.get(*t) {
                    Term::Coll(i) => colls.push(i),
                    _ => return None,
                },
                _ => return None,
            }
        }
        let min = colls.iter().map(|c| c.len()).min()?;
        let mut k = 0;
        while k < min && colls.iter().all(|c| c[k] == colls[0][k]) {
            k += 1;
        }
        let mut r = colls[0][..k].to_vec();
        for c in colls {
            for i in &c[k..] {
                if !r.contains(i) {
                    r.push(i.clone());
                }
            }
        }
        Some(r)
    }

    /// append to a local collection
    pub fn coll_push(&mut self, slot: u32, v: Val, spread: bool, st: &mut St) {
        let cur = self.load(st, slot);
        let (pd, ld) = self.slot_depth[slot as usize];
        let mut g0 = st.pc;
        for i in (pd..self.pcs.len()).rev() {
            let p = self.pcs[i];
            g0 = self.b.and(p, g0);
        }
        // what was known when the slot was made is not repeated
        let made = self.slot_pc[slot as usize];
        g0 = self.b.constrain(g0, made);
        let loops: Vec<Tid> = self.loop_stack[ld.min(self.loop_stack.len())..]
            .iter()
            .flat_map(|&l| self.loops[l].iters.clone())
            .collect();
        let [(_, ct)] = cur.as_slice() else { return };
        let Term::Coll(mut items) = self.t.get(*ct).clone() else { return };
        for (g, t) in v {
            let t = self.deref_term(t, st);
            let gg = self.b.and(g0, g);
            if gg == F {
                continue;
            }
            if spread {
                // splice known items
                let inner = match self.t.get(t).clone() {
                    Term::Iter(x) => x,
                    _ => t,
                };
                if let Term::Coll(sub) = self.t.get(inner).clone() {
                    for it in sub {
                        let mut l = loops.clone();
                        l.extend(it.loops);
                        let g2 = self.b.and(gg, it.guard);
                        items.push(Item { loops: l, guard: g2, term: it.term, spread: it.spread });
                    }
                    continue;
                }
                if !loops.is_empty() && !self.combinator {
                    for it in self.items_of(inner) {
                        let mut l = loops.clone();
                        l.extend(it.loops);
                        let g2 = self.b.and(gg, it.guard);
                        items.push(Item { loops: l, guard: g2, term: it.term, spread: false });
                    }
                    continue;
                }
                items.push(Item { loops: loops.clone(), guard: gg, term: inner, spread: true });
            } else {
                items.push(Item { loops: loops.clone(), guard: gg, term: t, spread: false });
            }
        }
        let n = self.t.mk(Term::Coll(items));
        Rc::make_mut(&mut st.mem).insert(slot, one(n));
    }

    /// append to a local that owns a string
    pub fn str_push(&mut self, slot: u32, v: Val, spread: bool, st: &mut St) {
        let cur = self.load(st, slot);
        let fresh = matches!(cur.as_slice(), [(_, t)] if matches!(self.t.get(*t), Term::Coll(i)
            if i.iter().all(|x| matches!(self.t.get(x.term), Term::Call(n, _) if &**n == "piece"))));
        if !fresh {
            let made = self.slot_pc[slot as usize];
            let items = cur
                .into_iter()
                .map(|(g, t)| {
                    let term = self.t.call("piece", vec![t]);
                    Item { loops: vec![], guard: self.b.constrain(g, made), term, spread: false }
                })
                .collect();
            let c = self.t.mk(Term::Coll(items));
            Rc::make_mut(&mut st.mem).insert(slot, one(c));
        }
        if spread {
            let x = self.single(v);
            let x = self.deref_term(x, st);
            for it in self.items_of(x) {
                let term = self.t.call("piece", vec![it.term]);
                let c = self.t.mk(Term::Coll(vec![Item { term, ..it }]));
                self.coll_push(slot, one(c), true, st);
            }
            return;
        }
        let v = v
            .into_iter()
            .map(|(g, t)| {
                let t = self.deref_term(t, st);
                (g, self.t.call("piece", vec![t]))
            })
            .collect();
        self.coll_push(slot, v, false, st);
    }

    /// `t` is an Option or a Result
    pub fn optlike(&mut self, t: Tid) -> bool {
        match self.t.get(t) {
            Term::Ctor(n, _) => matches!(&**n, "Some" | "None" | "Ok" | "Err"),
            Term::Call(n, a) => {
                (&**n == "get" && a.len() == 2)
                    || (a.len() == 1 && matches!(&**n, "first" | "last" | "split_first" | "split_last"))
                    || matches!(self.ty(t).head(), Some("Option" | "Result"))
            }
            _ => matches!(self.ty(t).head(), Some("Option" | "Result")),
        }
    }

    /// elements an iteration over `t` visits
    pub fn items_of(&mut self, t: Tid) -> Vec<Item> {
        if !matches!(self.t.get(t), Term::Iter(_)) && self.optlike(t) {
            let g = self.good(t);
            let p = self.payload(t);
            return if g == F { vec![] } else { vec![Item { loops: vec![], guard: g, term: p, spread: false }] };
        }
        match self.t.get(t).clone() {
            Term::Iter(x) => self.items_of(x),
            Term::Coll(items) => {
                let mut out = vec![];
                for it in items {
                    if it.spread {
                        for sub in self.items_of(it.term) {
                            let mut l = it.loops.clone();
                            l.extend(sub.loops);
                            let g = self.b.and(it.guard, sub.guard);
                            out.push(Item { loops: l, guard: g, term: sub.term, spread: false });
                        }
                    } else {
                        out.push(it);
                    }
                }
                out
            }
            Term::Call(n, a) if &*n == "range" && a.len() == 2 => {
                if let (Term::Int(k), Term::Call(m, b)) = (self.t.get(a[0]).clone(), self.t.get(a[1]).clone()) {
                    if &*m == "len" && k > 0 {
                        let l = self.t.call("skip", vec![b[0], a[0]]);
                        let d = self.loop_count(l);
                        let i = self.t.mk(Term::Idx(b[0], d));
                        return vec![Item { loops: vec![l], guard: T, term: i, spread: false }];
                    }
                    if &*m == "len" && k == 0 {
                        let d = self.loop_count(b[0]);
                        let i = self.t.mk(Term::Idx(b[0], d));
                        return vec![Item { loops: vec![b[0]], guard: T, term: i, spread: false }];
                    }
                }
                let d = self.loop_count(t);
                let e = self.t.mk(Term::Elem(t, d));
                vec![Item { loops: vec![t], guard: T, term: e, spread: false }]
            }
            Term::Call(n, a) if &*n == "skip" && a.len() == 2 && matches!(self.t.get(a[1]), Term::Int(_)) => {
                let d = self.loop_count(t);
                let e = self.t.mk(Term::Elem(a[0], d));
                vec![Item { loops: vec![t], guard: T, term: e, spread: false }]
            }
            Term::Call(n, a) if &*n == "slice" && a.len() == 3 && self.t.get(a[2]) == &Term::Sym("..".into()) => {
                let l = self.t.call("skip", vec![a[0], a[1]]);
                let d = self.loop_count(l);
                let e = self.t.mk(Term::Elem(a[0], d));
                vec![Item { loops: vec![l], guard: T, term: e, spread: false }]
            }
            _ => {
                let d = self.loop_count(t);
                let e = self.t.mk(Term::Elem(t, d));
                vec![Item { loops: vec![t], guard: T, term: e, spread: false }]
            }
        }
    }
    pub fn loop_count(&self, t: Tid) -> u32 {
        self.loop_stack.iter().filter(|&&l| self.loops[l].iters.contains(&t)).count() as u32
    }
}

pub struct LoopResult {
    pub ends: Vec<St>,
    pub breaks: Vec<(St, Val)>,
    pub ret_pcs: Vec<Bid>,
}

/// the initialiser makes a string of the local's own
/// the condition and the block of the `if c { .. return .. }` which is the only way out of a loop and its first statement
fn leaves_at_once(l: &syn::ExprLoop) -> Option<(&Expr, &syn::Block)> {
    let syn::Stmt::Expr(Expr::If(i), _) = l.body.stmts.first()? else { return None };
    let last = i.then_branch.stmts.last()?;
    if i.else_branch.is_some() || l.label.is_some() || !matches!(last, syn::Stmt::Expr(Expr::Return(_), _)) {
        return None;
    }
    let words = |t: String| t.split(|c: char| !c.is_alphanumeric() && c != '_').map(String::from).collect::<Vec<_>>();
    if words(tokens(&l.body)).iter().any(|w| w == "break") || words(tokens(&i.cond)).iter().any(|w| w == "let") || tokens(&i.then_branch).contains("continue") {
        return None;
    }
    Some((&i.cond, &i.then_branch))
}

fn owned_string(pat: &syn::Pat, e: &Expr) -> bool {
    if let syn::Pat::Type(t) = pat {
        return tokens(&t.ty).replace(' ', "") == "String";
    }
    match e {
        Expr::MethodCall(m) => {
            matches!(m.method.to_string().as_str(), "to_string" | "to_owned" | "repeat" | "to_uppercase" | "to_lowercase")
                || (m.method == "collect" && m.turbofish.as_ref().is_some_and(|t| tokens(t).replace(' ', "") == "::<String>"))
        }
        Expr::Call(c) => match &*c.func {
            Expr::Path(p) => {
                let n = p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>();
                n.len() == 2 && n[0] == "String"
            }
            _ => false,
        },
        Expr::Macro(m) => m.mac.path.is_ident("format"),
        Expr::If(i) => {
            matches!(i.then_branch.stmts.last(), Some(syn::Stmt::Expr(x, None)) if owned_string(pat, x))
        }
        Expr::Paren(p) => owned_string(pat, &p.expr),
        _ => false,
    }
}

pub fn strip_type(p: &syn::Pat) -> &syn::Pat {
    match p {
        syn::Pat::Type(t) => strip_type(&t.pat),
        _ => p,
    }
}

pub fn is_option(t: &Ty) -> bool {
    t.head() == Some("Option")
}
