//! Normal form of the values effects carry: a value whose parts depend on
//! conditions becomes guarded alternatives with unconditional parts; sequences,
//! strings and pretty-printer documents are flattened.
use crate::bdd::{Bid, F, T};
use crate::eval::*;
use crate::term::{FmtPart, Item, Term, Tid};

/// more alternatives than this and the value stays as it is
const LIMIT: usize = 16;

fn push_part(ps: &mut Vec<FmtPart>, p: FmtPart) {
    if let (Some(FmtPart::Str(x)), FmtPart::Str(s)) = (ps.last_mut(), &p) {
        *x = format!("{}{}", x, s).as_str().into();
        return;
    }
    if matches!(&p, FmtPart::Str(s) if s.is_empty()) {
        return;
    }
    ps.push(p);
}

impl<'p> Ev<'p> {
    /// the alternatives of `t`, each unconditional as far as it can be made so
    pub fn canon(&mut self, t: Tid) -> Val {
        if let Some(v) = self.canon_memo.get(&t) {
            return v.clone();
        }
        let v = self.canon_raw(t);
        let v = if v.len() > LIMIT { one(t) } else { v };
        self.canon_memo.insert(t, v.clone());
        v
    }

    fn product(&mut self, parts: &[Tid]) -> Option<Vec<(Bid, Vec<Tid>)>> {
        let mut acc: Vec<(Bid, Vec<Tid>)> = vec![(T, vec![])];
        for &p in parts {
            let alts = self.canon(p);
            let mut next = vec![];
            for (g, pre) in &acc {
                for (h, x) in &alts {
                    let c = self.b.and(*g, *h);
                    if c == F || (alts.len() > 1 && self.b.unsat(c)) {
                        continue;
                    }
                    let mut l = pre.clone();
                    l.push(*x);
                    next.push((c, l));
                }
            }
            if next.len() > LIMIT {
                return None;
            }
            acc = next;
        }
        Some(acc)
    }

    fn canon_raw(&mut self, t: Tid) -> Val {
        match self.t.get(t).clone() {
            Term::Mux(alts) => {
                let mut out: Val = vec![];
                for (g, x) in alts {
                    for (h, y) in self.canon(x) {
                        let c = self.b.and(g, h);
                        if c != F && !self.b.unsat(c) {
                            out.push((c, y));
                        }
                    }
                }
                if out.len() > LIMIT {
                    return one(t);
                }
                self.norm(out)
            }
            Term::Call(n, _) if &*n == "lambda" || &*n == "acc" || &*n == "while" => one(t),
            Term::Call(n, a) => match self.product(&a) {
                Some(v) => {
                    let v = v.into_iter().map(|(g, a)| (g, self.recall(&n, a))).collect();
                    self.norm(v)
                }
                None => one(t),
            },
            Term::Tuple(a) => match self.product(&a) {
                Some(v) => {
                    let v = v.into_iter().map(|(g, a)| (g, self.t.mk(Term::Tuple(a)))).collect();
                    self.norm(v)
                }
                None => one(t),
            },
            Term::Ctor(n, f) => {
                let parts: Vec<Tid> = f.iter().map(|x| x.1).collect();
                match self.product(&parts) {
                    Some(v) => {
                        let v = v
                            .into_iter()
                            .map(|(g, a)| {
                                let f = f.iter().map(|x| x.0.clone()).zip(a).collect();
                                let c = self.t.mk(Term::Ctor(n.clone(), f));
                                (g, self.doc(c))
                            })
                            .collect();
                        self.norm(v)
                    }
                    None => one(t),
                }
            }
            Term::Fmt(ps) => {
                let args: Vec<Tid> = ps
                    .iter()
                    .filter_map(|p| match p {
                        FmtPart::Arg(t, _) => Some(*t),
                        _ => None,
                    })
                    .collect();
                match self.product(&args) {
                    Some(v) => {
                        let v = v
                            .into_iter()
                            .map(|(g, a)| {
                                let mut it = a.into_iter();
                                let mut out = vec![];
                                for p in &ps {
                                    match p {
                                        FmtPart::Str(s) => push_part(&mut out, FmtPart::Str(s.clone())),
                                        FmtPart::Arg(_, sp) => {
                                            let x = it.next().unwrap();
                                            self.piece(x, sp, &mut out);
                                        }
                                    }
                                }
                                (g, self.mk_fmt(out))
                            })
                            .collect();
                        self.norm(v)
                    }
                    None => one(t),
                }
            }
            Term::Coll(items) => self.canon_coll(t, items),
            Term::Iter(x) => {
                let v = self.canon(x);
                v.into_iter()
                    .map(|(g, x)| (g, if matches!(self.t.get(x), Term::Coll(_)) { x } else { self.t.mk(Term::Iter(x)) }))
                    .collect()
            }
            _ => one(t),
        }
    }

    fn recall(&mut self, n: &crate::term::S, a: Vec<Tid>) -> Tid {
        if &**n == "join" && a.len() == 2 {
            if let Term::Coll(items) = self.t.get(a[0]).clone() {
                if items.is_empty() {
                    return self.t.mk(Term::Str("".into()));
                }
                if let [Item { loops, guard, term, spread: false }] = items.as_slice() {
                    if loops.is_empty() && *guard == T {
                        return *term;
                    }
                }
            }
        }
        self.t.mk(Term::Call(n.clone(), a))
    }

    /// append the text of `x` to a string
    fn piece(&mut self, x: Tid, spec: &str, out: &mut Vec<FmtPart>) {
        if spec.is_empty() {
            match self.t.get(x).clone() {
                Term::Str(s) => return push_part(out, FmtPart::Str(s)),
                Term::Sym(s) if s.starts_with('\'') && s.ends_with('\'') => {
                    if let Ok(c) = syn::parse_str::<syn::LitChar>(&s) {
                        return push_part(out, FmtPart::Str(c.value().to_string().as_str().into()));
                    }
                }
                Term::Fmt(ps) => {
                    for p in ps {
                        push_part(out, p);
                    }
                    return;
                }
                _ => {}
            }
        }
        out.push(FmtPart::Arg(x, spec.into()));
    }

    pub fn mk_fmt(&mut self, ps: Vec<FmtPart>) -> Tid {
        match ps.as_slice() {
            [] => self.t.mk(Term::Str("".into())),
            [FmtPart::Str(s)] => self.t.mk(Term::Str(s.clone())),
            [FmtPart::Arg(t, sp)] if sp.is_empty() => *t,
            _ => self.t.mk(Term::Fmt(ps)),
        }
    }

    fn is_piece(&self, t: Tid) -> Option<Tid> {
        match self.t.get(t) {
            Term::Call(n, a) if &**n == "piece" && a.len() == 1 => Some(a[0]),
            _ => None,
        }
    }

    /// a loop over all but the first k elements is a loop over all, from position k on
    pub fn loop_src(&mut self, l: Tid) -> (Tid, Bid) {
        if let Term::Call(n, a) = self.t.get(l).clone() {
            if &*n == "skip" && a.len() == 2 {
                if let Term::Int(k) = self.t.get(a[1]).clone() {
                    let i = self.t.mk(Term::Idx(a[0], 0));
                    let c = self.lt_const(i, k);
                    let (s, g) = self.loop_src(a[0]);
                    let c = self.b.not(c);
                    return (s, self.b.and(g, c));
                }
            }
        }
        (l, T)
    }

    /// the source has as many elements as an iteration over it under `g` needs
    pub fn long_enough(&mut self, l: Tid, g: Bid) -> Bid {
        let i = self.t.mk(Term::Idx(l, 0));
        let i = self.show(i).to_string();
        let mut best = 0;
        for v in self.b.support(g) {
            if let crate::bdd::Atom::LtC(s, c) = self.b.atoms[v as usize].clone() {
                if s == i && c > best && self.b.cofactor(g, v, true) == F {
                    best = c;
                }
            }
        }
        if best == 0 {
            return self.nonempty(l);
        }
        let n = self.mk_len(l);
        let z = self.lt_const(n, best + 1);
        self.b.not(z)
    }

    /// the guard at the first iteration over `l`, when it depends on the position only
    fn at_first(&mut self, g: Bid, l: Tid) -> Option<Bid> {
        let i = self.t.mk(Term::Idx(l, 0));
        let i = self.show(i).to_string();
        let bases = self.elem_bases(l);
        let mut r = g;
        for v in self.b.support(g) {
            if let crate::bdd::Atom::LtC(s, c) = self.b.atoms[v as usize].clone() {
                if s == i {
                    r = self.b.cofactor(r, v, 0 < c);
                    continue;
                }
            }
            let s = self.b.atoms[v as usize].show();
            if s.contains('λ') || s.contains("lv(") || bases.iter().any(|b| free_elem(&s, b)) {
                return None;
            }
        }
        Some(r)
    }

    /// `x` with the current element of the loop over `l` replaced by its first element
    fn at_zero(&mut self, t: Tid, l: Tid) -> Option<Tid> {
        let list = |me: &mut Self, v: Vec<Tid>| v.into_iter().map(|x| me.at_zero(x, l)).collect::<Option<Vec<_>>>();
        Some(match self.t.get(t).clone() {
            Term::Elem(x, 0) if x == l => {
                let z = self.t.mk(Term::Int(0));
                self.mk_at(l, z)
            }
            Term::Idx(x, 0) if x == l => self.t.mk(Term::Int(0)),
            Term::Field(b, f) => {
                let x = self.at_zero(b, l)?;
                self.field_of(x, &f)
            }
            Term::Proj(b, v, f) => {
                let x = self.at_zero(b, l)?;
                self.project(x, &v, &f)
            }
            Term::Tuple(v) => {
                let v = list(self, v)?;
                self.t.mk(Term::Tuple(v))
            }
            Term::Call(n, v) => {
                let v = list(self, v)?;
                self.t.mk(Term::Call(n, v))
            }
            Term::Ctor(n, v) => {
                let (k, v): (Vec<_>, Vec<_>) = v.into_iter().unzip();
                let v = list(self, v)?;
                self.t.mk(Term::Ctor(n, k.into_iter().zip(v).collect()))
            }
            Term::Sym(_) | Term::Int(_) | Term::Str(_) | Term::Bool(_) => t,
            _ => {
                let s = self.show(t).to_string();
                let b = self.elem_bases(l);
                if b.iter().any(|b| free_elem(&s, b)) {
                    return None;
                }
                t
            }
        })
    }

    /// runs over one sequence which treat its first element apart: the first iteration comes first
    fn peel(&mut self, items: Vec<Item>) -> Vec<Item> {
        let mut out = vec![];
        let mut i = 0;
        while i < items.len() {
            let mut j = i + 1;
            let one_loop = items[i].loops.len() == 1 && !items[i].spread;
            while one_loop && j < items.len() && items[j].loops == items[i].loops && !items[j].spread {
                j += 1;
            }
            let run = &items[i..j];
            i = j;
            if !one_loop {
                out.extend(run.iter().cloned());
                continue;
            }
            let l = run[0].loops[0];
            let idx = self.t.mk(Term::Idx(l, 0));
            let first = self.lt_const(idx, 1);
            let mut head = vec![];
            let mut tail = vec![];
            let mut apart = false;
            let mut ok = true;
            for it in run {
                let Some(g) = self.at_first(it.guard, l) else {
                    ok = false;
                    break;
                };
                let Some(t) = self.at_zero(it.term, l) else {
                    ok = false;
                    break;
                };
                let later = self.b.diff(it.guard, first);
                let nf = self.b.not(first);
                let rest = self.b.constrain(it.guard, nf);
                apart |= !self.b.equiv(g, rest);
                if g != F {
                    let ne = self.nonempty(l);
                    let g = self.b.and(g, ne);
                    head.push(Item { loops: vec![], guard: g, term: t, spread: false });
                }
                if !self.b.unsat(later) {
                    tail.push(Item { guard: later, ..it.clone() });
                }
            }
            if ok && apart {
                out.extend(head);
                out.extend(tail);
            } else {
                out.extend(run.iter().cloned());
            }
        }
        out
    }

    pub fn mentions_elem(&mut self, g: Bid, loops: &[Tid]) -> bool {
        if g == T {
            return false;
        }
        let mut bases: Vec<String> = vec![];
        for &l in loops {
            bases.extend(self.elem_bases(l));
        }
        self.b.support(g).into_iter().any(|v| {
            let s = self.b.atoms[v as usize].show();
            s.contains('λ') || s.contains("lv(") || bases.iter().any(|b| free_elem(&s, b))
        })
    }

    /// the order of neighbours of which only one is there means nothing
    fn sort_exclusive(&mut self, items: Vec<Item>) -> Vec<Item> {
        let mut out: Vec<Item> = vec![];
        let mut run: Vec<(std::rc::Rc<str>, Item)> = vec![];
        for i in items {
            let apart = run.iter().all(|(_, r)| {
                let x = self.b.and(r.guard, i.guard);
                x == F || self.b.unsat(x)
            });
            if !apart {
                run.sort_by(|a, b| a.0.cmp(&b.0));
                out.extend(run.drain(..).map(|x| x.1));
            }
            let s = self.show(i.term);
            run.push((s, i));
        }
        run.sort_by(|a, b| a.0.cmp(&b.0));
        out.extend(run.into_iter().map(|x| x.1));
        out
    }

    fn canon_coll(&mut self, t: Tid, items: Vec<Item>) -> Val {
        if self.combinator {
            return one(t);
        }
        // expand spreads, split alternatives of terms
        let mut flat: Vec<Item> = vec![];
        for it in items {
            let subs = if it.spread {
                let mut v = vec![];
                for (g, x) in self.canon(it.term) {
                    let g = self.b.and(it.guard, g);
                    for s in self.items_of(x) {
                        let mut l = it.loops.clone();
                        l.extend(s.loops);
                        let gg = self.b.and(g, s.guard);
                        v.push(Item { loops: l, guard: gg, term: s.term, spread: false });
                    }
                }
                v
            } else {
                vec![it]
            };
            for s in subs {
                let mut alts = self.canon(s.term);
                if alts.len() > 1 {
                    let mut keyed: Vec<_> = alts.into_iter().map(|(g, x)| (self.show(x), g, x)).collect();
                    keyed.sort_by(|a, b| a.0.cmp(&b.0));
                    alts = keyed.into_iter().map(|(_, g, x)| (g, x)).collect();
                }
                for (g, x) in alts {
                    let mut gg = self.b.and(s.guard, g);
                    if gg == F {
                        continue;
                    }
                    let mut loops = vec![];
                    for &l in &s.loops {
                        let (l, c) = self.loop_src(l);
                        loops.push(l);
                        gg = self.b.and(gg, c);
                    }
                    flat.push(Item { loops, guard: gg, term: x, spread: false });
                }
            }
        }
        let mut flat = self.peel(flat);
        for it in flat.iter_mut() {
            for &l in &it.loops.clone() {
                let ne = self.long_enough(l, it.guard);
                if !self.mentions_elem(ne, &it.loops) {
                    it.guard = self.b.and(it.guard, ne);
                }
            }
        }
        // conditions that do not depend on an element of the sequence itself are decided first
        let mut conds: Vec<Bid> = vec![];
        for it in &flat {
            if it.loops.is_empty() {
                if it.guard != T && !conds.contains(&it.guard) {
                    conds.push(it.guard);
                }
            } else {
                let ls = it.loops.clone();
                for l in ls {
                    let ne = self.long_enough(l, it.guard);
                    if ne != T && !self.mentions_elem(ne, &it.loops) && !conds.contains(&ne) {
                        conds.push(ne);
                    }
                }
            }
        }
        let mut cells: Vec<Bid> = vec![T];
        for c in conds {
            let nc = self.b.not(c);
            let mut next = vec![];
            for g in cells {
                for h in [c, nc] {
                    let x = self.b.and(g, h);
                    if x != F && !self.b.unsat(x) {
                        next.push(x);
                    }
                }
            }
            if next.len() > LIMIT {
                if flat.iter().any(|i| !i.loops.is_empty()) {
                    return one(t);
                }
                let v = self.sort_exclusive(flat);
                return one(self.t.mk(Term::Coll(v)));
            }
            cells = next;
        }
        let mut out: Val = vec![];
        for g in cells {
            let mut its: Vec<Item> = vec![];
            for it in &flat {
                let x = self.b.and(it.guard, g);
                if x == F || self.b.unsat(x) {
                    continue;
                }
                let mut guard = if it.loops.is_empty() { T } else { self.b.constrain(it.guard, g) };
                if guard != T && self.b.equiv(x, g) {
                    guard = T;
                }
                its.push(Item { loops: it.loops.clone(), guard, term: it.term, spread: false });
            }
            let c = self.mk_seq(its);
            out.push((g, c));
        }
        self.norm(out)
    }

    fn mk_seq(&mut self, mut its: Vec<Item>) -> Tid {
        if !its.is_empty() && its.iter().all(|i| self.is_piece(i.term).is_some()) {
            if its.iter().all(|i| i.loops.is_empty()) {
                let mut ps = vec![];
                for i in its {
                    let x = self.is_piece(i.term).unwrap();
                    self.piece(x, "", &mut ps);
                }
                return self.mk_fmt(ps);
            }
            // runs of literal text become one piece
            let mut out: Vec<Item> = vec![];
            let mut run: Vec<FmtPart> = vec![];
            let empty = self.mk_fmt(vec![]);
            for mut i in its {
                if !i.loops.is_empty() {
                    let x = self.is_piece(i.term).unwrap();
                    let mut ps = vec![];
                    self.piece(x, "", &mut ps);
                    let f = self.mk_fmt(ps);
                    i.term = self.t.call("piece", vec![f]);
                }
                if i.loops.is_empty() {
                    let x = self.is_piece(i.term).unwrap();
                    self.piece(x, "", &mut run);
                    continue;
                }
                if !run.is_empty() {
                    let f = self.mk_fmt(std::mem::take(&mut run));
                    let term = self.t.call("piece", vec![f]);
                    if f != empty {
                        out.push(Item { loops: vec![], guard: T, term, spread: false });
                    }
                }
                out.push(i);
            }
            if !run.is_empty() {
                let f = self.mk_fmt(run);
                let term = self.t.call("piece", vec![f]);
                if f != empty {
                    out.push(Item { loops: vec![], guard: T, term, spread: false });
                }
            }
            return self.t.mk(Term::Coll(out));
        }
        // every element of one sequence, in order: that sequence
        if let [i] = its.as_slice() {
            if i.guard == T && i.loops.len() == 1 {
                if let Term::Elem(x, _) = self.t.get(i.term) {
                    if *x == i.loops[0] {
                        return *x;
                    }
                }
            }
        }
        // a table of signatures is looked up by key: the order of its rows is immaterial
        let row = |me: &Self, i: &Item| {
            i.guard == T
                && i.loops.is_empty()
                && matches!(me.t.get(i.term), Term::Ctor(n, _) if n.ends_with("Signature"))
        };
        if its.len() > 1 && its.iter().all(|i| row(self, i)) {
            let mut keyed: Vec<_> = its.into_iter().map(|i| (self.show(i.term), i)).collect();
            keyed.sort_by(|a, b| a.0.cmp(&b.0));
            its = keyed.into_iter().map(|x| x.1).collect();
        }
        self.t.mk(Term::Coll(its))
    }

    /// documents of the pretty-printer: concatenation is associative, Nil is its unit
    fn doc(&mut self, t: Tid) -> Tid {
        let Term::Ctor(n, f) = self.t.get(t).clone() else { return t };
        if &*n != "Doc::Concat" || f.len() != 1 {
            return t;
        }
        let Term::Coll(items) = self.t.get(f[0].1).clone() else { return t };
        let mut out: Vec<Item> = vec![];
        for it in items {
            match self.t.get(it.term).clone() {
                Term::Ctor(m, _) if &*m == "Doc::Nil" => {}
                Term::Ctor(m, g) if &*m == "Doc::Concat" && matches!(self.t.get(g[0].1), Term::Coll(_)) => {
                    let Term::Coll(sub) = self.t.get(g[0].1).clone() else { continue };
                    for s in sub {
                        let mut l = it.loops.clone();
                        l.extend(s.loops);
                        let gg = self.b.and(it.guard, s.guard);
                        self.doc_push(&mut out, Item { loops: l, guard: gg, term: s.term, spread: s.spread });
                    }
                }
                _ => self.doc_push(&mut out, it),
            }
        }
        match out.as_slice() {
            [] => self.t.mk(Term::Ctor("Doc::Nil".into(), vec![])),
            [i] if i.loops.is_empty() && i.guard == T && !i.spread => i.term,
            _ => {
                let c = self.t.mk(Term::Coll(out));
                self.t.mk(Term::Ctor(n, vec![(f[0].0.clone(), c)]))
            }
        }
    }

    fn doc_push(&mut self, out: &mut Vec<Item>, it: Item) {
        let text = |me: &Self, t: Tid| match me.t.get(t) {
            Term::Ctor(n, f) if &**n == "Doc::Text" && f.len() == 1 => Some((f[0].0.clone(), f[0].1)),
            _ => None,
        };
        if let (Some(l), true) = (out.last().cloned(), it.loops.is_empty() && it.guard == T && !it.spread) {
            if l.loops.is_empty() && l.guard == T && !l.spread {
                if let (Some((k, a)), Some((_, b))) = (text(self, l.term), text(self, it.term)) {
                    let mut ps = vec![];
                    self.piece(a, "", &mut ps);
                    self.piece(b, "", &mut ps);
                    let f = self.mk_fmt(ps);
                    let t = self.t.mk(Term::Ctor("Doc::Text".into(), vec![(k, f)]));
                    out.last_mut().unwrap().term = t;
                    return;
                }
            }
        }
        out.push(it);
    }
}
