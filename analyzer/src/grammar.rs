//! Parser combinators. A value of an `impl Parser` type is a grammar, not a container:
//! its methods build larger grammars. They are kept in a normal form in which the spelling
//! of a grammar does not matter:
//!   P.seq(item.., value)    the items in order; `value` over πi, the output of item i
//!   P.with(item.., value)   the same where the value also looks at the place (ε)
//!   P.choice(alternative..) the first that matches; maps are pushed into the alternatives
//!   P.rec(body)             `recursive`, ρ standing for the grammar itself
use crate::bdd::{Atom, T};
use crate::eval::*;
use crate::program::Ty;
use crate::term::*;

/// functions of the combinator library that make a parser: (name, number of arguments)
const MAKERS: &[(&str, usize)] = &[("just", 1), ("choice", 1), ("recursive", 1), ("any", 0), ("end", 0), ("empty", 0), ("none_of", 1), ("one_of", 1)];

impl<'p> Ev<'p> {
    pub fn parser_call(&self, n: &str, arity: usize) -> bool {
        n.starts_with("P.") || MAKERS.contains(&(n, arity))
    }
    pub fn parser_ty() -> Ty {
        Ty::Named("Parser".into(), vec![])
    }
    pub fn is_parser(&mut self, t: Tid) -> bool {
        self.ty(t).head() == Some("Parser")
    }
    pub fn all_parsers(&mut self, v: &Val) -> bool {
        !v.is_empty() && v.clone().iter().all(|&(_, t)| self.is_parser(t))
    }
    fn pi(&mut self, i: usize) -> Tid {
        self.t.sym(&format!("π{i}"))
    }
    fn gparts(&mut self, p: Tid) -> (Vec<Tid>, Tid) {
        match self.t.get(p).clone() {
            Term::Call(n, mut a) if &*n == "P.seq" => {
                let s = a.pop().unwrap();
                (a, s)
            }
            _ => (vec![p], self.pi(0)),
        }
    }
    fn gseq(&mut self, mut items: Vec<Tid>, shape: Tid) -> Tid {
        if items.len() == 1 && shape == self.pi(0) {
            return items[0];
        }
        items.push(shape);
        self.t.call("P.seq", items)
    }
    /// what a grammar accepts, its output left out
    fn gstrip(&mut self, p: Tid) -> Vec<Tid> {
        match self.t.get(p).clone() {
            Term::Call(n, mut a) if &*n == "P.seq" || &*n == "P.with" => {
                a.pop();
                a.into_iter().flat_map(|x| self.gstrip(x)).collect()
            }
            Term::Call(n, a) if &*n == "P.choice" => {
                let u = self.unit();
                let alts = a
                    .into_iter()
                    .map(|x| {
                        let i = self.gstrip(x);
                        self.gseq(i, u)
                    })
                    .collect();
                vec![self.t.call("P.choice", alts)]
            }
            _ => vec![p],
        }
    }
    /// the value with every πi moved by k; None if that cannot be told
    fn gshift(&mut self, s: Tid, k: usize) -> Option<Tid> {
        if k == 0 {
            return Some(s);
        }
        let text = self.show(s);
        if !text.contains('π') {
            return Some(s);
        }
        if text.contains("P.") || text.contains('~') {
            return None;
        }
        let r = match self.t.get(s).clone() {
            Term::Sym(n) => {
                let i: usize = n.strip_prefix('π')?.parse().ok()?;
                self.pi(i + k)
            }
            Term::Tuple(v) => {
                let v = v.into_iter().map(|x| self.gshift(x, k)).collect::<Option<Vec<_>>>()?;
                self.t.mk(Term::Tuple(v))
            }
            Term::Field(b, f) => {
                let x = self.gshift(b, k)?;
                self.t.mk(Term::Field(x, f))
            }
            Term::Proj(b, v, f) => {
                let x = self.gshift(b, k)?;
                self.t.mk(Term::Proj(x, v, f))
            }
            Term::Elem(b, d) => {
                let x = self.gshift(b, k)?;
                self.t.mk(Term::Elem(x, d))
            }
            Term::Idx(b, d) => {
                let x = self.gshift(b, k)?;
                self.t.mk(Term::Idx(x, d))
            }
            Term::Iter(b) => {
                let x = self.gshift(b, k)?;
                self.t.mk(Term::Iter(x))
            }
            Term::Call(n, v) => {
                let v = v.into_iter().map(|x| self.gshift(x, k)).collect::<Option<Vec<_>>>()?;
                self.t.mk(Term::Call(n, v))
            }
            Term::Ctor(n, v) => {
                let v = v.into_iter().map(|(f, x)| Some((f, self.gshift(x, k)?))).collect::<Option<Vec<_>>>()?;
                self.t.mk(Term::Ctor(n, v))
            }
            Term::Fmt(parts) => {
                let parts = parts
                    .into_iter()
                    .map(|p| {
                        Some(match p {
                            FmtPart::Arg(t, f) => FmtPart::Arg(self.gshift(t, k)?, f),
                            p => p,
                        })
                    })
                    .collect::<Option<Vec<_>>>()?;
                self.t.mk(Term::Fmt(parts))
            }
            Term::Coll(items) => {
                let items = items
                    .into_iter()
                    .map(|it| {
                        Some(Item {
                            loops: it.loops.iter().map(|&l| self.gshift(l, k)).collect::<Option<Vec<_>>>()?,
                            guard: self.gshift_cond(it.guard, k),
                            term: self.gshift(it.term, k)?,
                            spread: it.spread,
                        })
                    })
                    .collect::<Option<Vec<_>>>()?;
                self.t.mk(Term::Coll(items))
            }
            Term::Mux(alts) => {
                let alts = alts
                    .into_iter()
                    .map(|(g, t)| Some((self.gshift_cond(g, k), self.gshift(t, k)?)))
                    .collect::<Option<Vec<_>>>()?;
                self.t.mk(Term::Mux(alts))
            }
            _ => return None,
        };
        Some(r)
    }
    fn gshift_cond(&mut self, g: crate::bdd::Bid, k: usize) -> crate::bdd::Bid {
        let ren = |s: &str| shift_text(s, k);
        self.b.rename(g, &|a| match a {
            Atom::Is(x, v) => Atom::Is(ren(x), v.clone()),
            Atom::Good(x) => Atom::Good(ren(x)),
            Atom::LtC(x, c) => Atom::LtC(ren(x), *c),
            Atom::EqC(x, c) => Atom::EqC(ren(x), ren(c)),
            Atom::Lt(x, y) => Atom::Lt(ren(x), ren(y)),
            Atom::Eq(x, y) => {
                let (x, y) = (ren(x), ren(y));
                if x <= y { Atom::Eq(x, y) } else { Atom::Eq(y, x) }
            }
            Atom::Exists(x, y) => Atom::Exists(ren(x), ren(y)),
            Atom::Is1(x) => Atom::Is1(ren(x)),
        })
    }
    /// parts of a grammar that comes after k items
    fn gparts_after(&mut self, p: Tid, k: usize) -> (Vec<Tid>, Tid) {
        let (i, s) = self.gparts(p);
        match self.gshift(s, k) {
            Some(s) => (i, s),
            None => (vec![p], self.pi(k)),
        }
    }
    fn gchoice(&mut self, alts: Vec<Tid>) -> Tid {
        let mut out = vec![];
        for a in alts {
            match self.t.get(a).clone() {
                Term::Call(n, v) if &*n == "P.choice" => out.extend(v),
                _ => out.push(a),
            }
        }
        if out.len() == 1 {
            return out[0];
        }
        self.t.call("P.choice", out)
    }
    /// a function handed to a combinator, applied to symbolic arguments
    fn gapply(&mut self, f: Tid, args: Vec<Tid>, st: &mut St, ln: usize) -> Tid {
        let n = match self.t.get(f).clone() {
            Term::Closure(i) => self.closures[i as usize].expr.inputs.len(),
            Term::FnRef(i) => self.p.fns[i as usize].params.len(),
            _ => 1,
        };
        let args: Vec<Val> = args.into_iter().take(n).map(one).collect();
        let lam = self.t.sym("lambda");
        let id = self.loops.len();
        self.loops.push(LoopInfo { iters: vec![lam], until: crate::bdd::F, line: 0 });
        self.loop_stack.push(id);
        let mut s = st.clone();
        self.lam_nest += 1;
        let v = self.apply(f, args, &mut s, ln);
        self.lam_nest -= 1;
        self.loop_stack.pop();
        st.mem = s.mem;
        let t = self.single(v);
        self.deref_term(t, st)
    }
    fn eps(&mut self) -> Tid {
        self.t.sym("ε")
    }
    fn gmap(&mut self, p: Tid, f: &dyn Fn(&mut Self, Tid, &mut St) -> Tid, st: &mut St) -> Tid {
        match self.t.get(p).clone() {
            Term::Call(n, a) if &*n == "P.choice" => {
                let alts = a.into_iter().map(|x| self.gmap(x, f, st)).collect();
                self.gchoice(alts)
            }
            Term::Call(n, mut a) if &*n == "P.with" => {
                let s = a.pop().unwrap();
                let b = f(self, s, st);
                a.push(b);
                self.t.call("P.with", a)
            }
            _ => {
                let (mut items, s) = self.gparts(p);
                let b = f(self, s, st);
                if self.show(b).contains('ε') {
                    items.push(b);
                    return self.t.call("P.with", items);
                }
                self.gseq(items, b)
            }
        }
    }
    fn gthen(&mut self, a: Tid, b: Tid, keep_a: bool, keep_b: bool) -> Tid {
        if !keep_a {
            let mut items = self.gstrip(a);
            let (ib, sb) = self.gparts_after(b, items.len());
            items.extend(ib);
            return self.gseq(items, sb);
        }
        let (mut items, sa) = self.gparts(a);
        if !keep_b {
            let ib = self.gstrip(b);
            items.extend(ib);
            return self.gseq(items, sa);
        }
        let (ib, sb) = self.gparts_after(b, items.len());
        items.extend(ib);
        let s = self.t.mk(Term::Tuple(vec![sa, sb]));
        self.gseq(items, s)
    }

    /// `recursive(|p| ..)`, `choice((a, b))`
    pub fn grammar_call(&mut self, name: &str, args: &[Val], st: &mut St, ln: usize) -> Option<Val> {
        match (name, args) {
            ("choice", [a]) => {
                let t = self.single(a.clone());
                let Term::Tuple(v) = self.t.get(t).clone() else { return None };
                Some(one(self.gchoice(v)))
            }
            ("recursive", [f]) => {
                let f = self.single(f.clone());
                if !matches!(self.t.get(f), Term::Closure(_)) {
                    return None;
                }
                let rho = self.t.sym(&format!("ρ{}", self.rec_nest));
                self.sym_ty.insert(rho, Self::parser_ty());
                self.ty_cache.insert(rho, Self::parser_ty());
                self.rec_nest += 1;
                let v = self.apply(f, vec![one(rho)], st, ln);
                self.rec_nest -= 1;
                let b = self.single(v);
                let b = self.deref_term(b, st);
                let name = self.show(rho).to_string();
                if !self.show(b).contains(&name) {
                    return Some(one(b));
                }
                Some(one(self.t.call("P.rec", vec![b])))
            }
            ("just" | "none_of" | "one_of", [a]) => {
                let a = self.single(a.clone());
                Some(one(self.t.call(name, vec![a])))
            }
            ("any" | "end" | "empty", []) => Some(one(self.t.call(name, vec![]))),
            _ => None,
        }
    }

    pub fn grammar_method(&mut self, name: &str, rv: &Val, m: &syn::ExprMethodCall, st: &mut St, ln: usize) -> Option<Val> {
        if matches!(name, "parse" | "parse_with_state" | "check" | "lazy") {
            return None;
        }
        let p = self.single(rv.clone());
        if matches!(name, "boxed" | "clone" | "memoized" | "collect" | "as_ref" | "by_ref") {
            return Some(one(p));
        }
        let args: Vec<Tid> = m
            .args
            .iter()
            .map(|a| {
                let v = self.eval(a, st);
                let v = self.deref_val(v, st);
                let v: Val = v.into_iter().map(|(g, t)| (g, self.deref_term(t, st))).collect();
                self.single(v)
            })
            .collect();
        let r = match (name, args.as_slice()) {
            ("then", [b]) => self.gthen(p, *b, true, true),
            ("ignore_then", [b]) => self.gthen(p, *b, false, true),
            ("then_ignore", [b]) => self.gthen(p, *b, true, false),
            ("delimited_by", [l, r]) => {
                let x = self.gthen(*l, p, false, true);
                self.gthen(x, *r, true, false)
            }
            ("padded_by", [b]) => {
                let x = self.gthen(*b, p, false, true);
                self.gthen(x, *b, true, false)
            }
            ("or", [b]) => self.gchoice(vec![p, *b]),
            ("map" | "map_with", [f]) => {
                let f = *f;
                let with = name == "map_with";
                self.gmap(
                    p,
                    &|me, x, st| {
                        let e = me.eps();
                        let a = if with { vec![x, e] } else { vec![x] };
                        me.gapply(f, a, st, ln)
                    },
                    st,
                )
            }
            ("to", [v]) => {
                let v = *v;
                self.gmap(p, &|_, _, _| v, st)
            }
            ("ignored", []) => {
                let u = self.unit();
                self.gmap(p, &|_, _, _| u, st)
            }
            ("validate" | "try_map" | "try_map_with" | "filter", [f]) => {
                let (mut items, s) = self.gparts(p);
                let e = self.eps();
                let em = self.t.sym("emitter");
                let b = self.gapply(*f, vec![s, e, em], st, ln);
                items.push(b);
                self.t.call(&format!("P.{name}"), items)
            }
            ("separated_by", [b]) => {
                let i = self.gstrip(*b);
                let u = self.unit();
                let b = if i.len() == 1 { i[0] } else { self.gseq(i, u) };
                self.t.call("P.separated_by", vec![p, b])
            }
            _ => {
                let mut v = vec![p];
                for a in args {
                    let fun = match self.t.get(a) {
                        Term::Closure(_) | Term::FnRef(_) => true,
                        Term::Sym(s) => s.starts_with("ctor "),
                        _ => false,
                    };
                    if fun {
                        let d = self.lam_nest;
                        let xs: Vec<Tid> = (0..3).map(|k| self.t.sym(&format!("λ{d}_{k}"))).collect();
                        let b = self.gapply(a, xs, st, ln);
                        v.push(self.t.call("lambda", vec![b]));
                    } else {
                        v.push(a);
                    }
                }
                self.t.call(&format!("P.{name}"), v)
            }
        };
        Some(one(r))
    }

    /// `select! { pattern => value, .. }`: one token that matches
    pub fn grammar_select(&mut self, ts: proc_macro2::TokenStream, st: &mut St) -> Option<Val> {
        use syn::parse::Parser;
        let arms = (|input: syn::parse::ParseStream| {
            let mut v = vec![];
            while !input.is_empty() {
                let p = syn::Pat::parse_multi_with_leading_vert(input)?;
                let g = if input.peek(syn::Token![if]) {
                    let _: syn::Token![if] = input.parse()?;
                    Some(input.parse::<syn::Expr>()?)
                } else {
                    None
                };
                let _: syn::Token![=>] = input.parse()?;
                let e: syn::Expr = input.parse()?;
                let _: Option<syn::Token![,]> = input.parse()?;
                v.push((p, g, e));
            }
            Ok(v)
        })
        .parse2(ts)
        .ok()?;
        let tok = self.pi(0);
        let mut alts = vec![];
        let mut before = T;
        for (p, g, e) in arms {
            let (mut c, binds) = self.test_val(&p, &one(tok));
            let mut s = st.clone();
            s.pc = self.assume(st.pc, c);
            self.push_scope(&mut s);
            for (n, x) in binds {
                self.bind(&mut s, &n, x);
            }
            if let Some(g) = g {
                let (h, _) = self.eval_cond(&g, &mut s);
                c = self.b.and(c, h);
            }
            let v = self.eval(&e, &mut s);
            let v = self.single(v);
            let v = self.deref_term(v, &s);
            c = self.b.and(c, before);
            let n = self.b.not(c);
            before = self.b.and(before, n);
            let txt = self.b.text(c);
            let c = self.t.mk(Term::Str(txt.as_str().into()));
            let i = self.t.call("P.tok", vec![c]);
            alts.push(self.gseq(vec![i], v));
        }
        Some(one(self.gchoice(alts)))
    }
}

/// every πi of a text moved by k
fn shift_text(s: &str, k: usize) -> String {
    let mut out = String::new();
    let mut parts = s.split('π');
    out.push_str(parts.next().unwrap_or(""));
    for p in parts {
        let n = p.chars().take_while(|c| c.is_ascii_digit()).count();
        out.push('π');
        match p[..n].parse::<usize>() {
            Ok(i) => out.push_str(&(i + k).to_string()),
            Err(_) => out.push_str(&p[..n]),
        }
        out.push_str(&p[n..]);
    }
    out
}
