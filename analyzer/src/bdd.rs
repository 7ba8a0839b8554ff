//! A small reduced ordered BDD package over canonical atoms, plus the theory of those atoms
//! (variants of one subject exclude each other, integer thresholds are monotone, ...).
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub type Bid = u32;
pub const F: Bid = 0;
pub const T: Bid = 1;

/// A canonical atom. `kind` decides the theory it takes part in.
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Atom {
    /// subject is of enum variant ("Enum::Variant")
    Is(String, String),
    /// Option/Result subject carries a success value
    Good(String),
    /// integer subject < constant
    LtC(String, i128),
    /// subject == non-integer literal or constant
    EqC(String, String),
    /// a < b (both symbolic)
    Lt(String, String),
    /// a == b (sorted)
    Eq(String, String),
    /// there is an element of the collection for which the formula text holds
    Exists(String, String),
    /// opaque boolean term
    Is1(String),
}

impl Atom {
    pub fn show(&self) -> String {
        match self {
            Atom::Is(a, v) => format!("is({} ; {})", a, v),
            Atom::Good(a) => format!("ok({})", a),
            Atom::LtC(a, c) => format!("ltc({} ; {})", a, c),
            Atom::EqC(a, c) => format!("eqc({} ; {})", a, c),
            Atom::Lt(a, b) => format!("lt({} ; {})", a, b),
            Atom::Eq(a, b) => format!("eq({} ; {})", a, b),
            Atom::Exists(a, b) => format!("exists({} ; {})", a, b),
            Atom::Is1(a) => format!("holds({})", a),
        }
    }
    pub fn to_json(&self) -> serde_json::Value {
        use serde_json::json;
        match self {
            Atom::Is(a, v) => json!(["is", a, v]),
            Atom::Good(a) => json!(["ok", a]),
            Atom::LtC(a, c) => json!(["ltc", a, c.to_string()]),
            Atom::EqC(a, c) => json!(["eqc", a, c]),
            Atom::Lt(a, b) => json!(["lt", a, b]),
            Atom::Eq(a, b) => json!(["eq", a, b]),
            Atom::Exists(a, b) => json!(["exists", a, b]),
            Atom::Is1(a) => json!(["holds", a]),
        }
    }
    pub fn from_json(v: &serde_json::Value) -> Option<Atom> {
        let a = v.as_array()?;
        let s = |i: usize| a.get(i).and_then(|x| x.as_str()).map(|x| x.to_string());
        Some(match a.first()?.as_str()? {
            "is" => Atom::Is(s(1)?, s(2)?),
            "ok" => Atom::Good(s(1)?),
            "ltc" => Atom::LtC(s(1)?, s(2)?.parse().ok()?),
            "eqc" => Atom::EqC(s(1)?, s(2)?),
            "lt" => Atom::Lt(s(1)?, s(2)?),
            "eq" => Atom::Eq(s(1)?, s(2)?),
            "exists" => Atom::Exists(s(1)?, s(2)?),
            "holds" => Atom::Is1(s(1)?),
            _ => return None,
        })
    }
    pub fn subject(&self) -> &str {
        match self {
            Atom::Is(a, _)
            | Atom::Good(a)
            | Atom::LtC(a, _)
            | Atom::EqC(a, _)
            | Atom::Lt(a, _)
            | Atom::Eq(a, _)
            | Atom::Exists(a, _)
            | Atom::Is1(a) => a,
        }
    }
}

pub struct Bdd {
    nodes: Vec<(u32, Bid, Bid)>,
    uniq: HashMap<(u32, Bid, Bid), Bid>,
    and_cache: HashMap<(Bid, Bid), Bid>,
    not_cache: HashMap<Bid, Bid>,
    pub atoms: Vec<Atom>,
    atom_ids: HashMap<Atom, u32>,
    pub overflow: bool,
    pub limit: usize,
    /// enum name -> variant names (exhaustive)
    pub enums: HashMap<String, Vec<String>>,
    text_cache: HashMap<Bid, String>,
    /// the conditions known under a quantifier, by what is quantified over
    pub some: HashMap<String, Vec<(Bid, String)>>,
    /// variables carried around a loop: first value and what an iteration makes of it
    pub carried: Vec<(String, Vec<(Bid, String)>)>,
}

impl Bdd {
    pub fn new() -> Self {
        Bdd {
            nodes: vec![(u32::MAX, 0, 0), (u32::MAX, 1, 1)],
            uniq: HashMap::new(),
            and_cache: HashMap::new(),
            not_cache: HashMap::new(),
            atoms: vec![],
            atom_ids: HashMap::new(),
            overflow: false,
            limit: 4_000_000,
            enums: HashMap::new(),
            text_cache: HashMap::new(),
            some: HashMap::new(),
            carried: vec![],
        }
    }
    pub fn node_count(&self) -> usize {
        self.nodes.len()
    }
    pub fn atom_id(&mut self, a: Atom) -> u32 {
        if let Some(&i) = self.atom_ids.get(&a) {
            return i;
        }
        let i = self.atoms.len() as u32;
        self.atoms.push(a.clone());
        self.atom_ids.insert(a, i);
        i
    }
    pub fn atom(&mut self, a: Atom) -> Bid {
        let i = self.atom_id(a);
        self.mk(i, F, T)
    }
    /// the same formula over other atoms
    pub fn rename(&mut self, b: Bid, f: &dyn Fn(&Atom) -> Atom) -> Bid {
        fn go(s: &mut Bdd, b: Bid, f: &dyn Fn(&Atom) -> Atom, memo: &mut HashMap<Bid, Bid>) -> Bid {
            if b == T || b == F {
                return b;
            }
            if let Some(&r) = memo.get(&b) {
                return r;
            }
            let (v, lo, hi) = s.nodes[b as usize];
            let lo = go(s, lo, f, memo);
            let hi = go(s, hi, f, memo);
            let a = f(&s.atoms[v as usize].clone());
            let c = s.atom(a);
            let r = s.ite(c, hi, lo);
            memo.insert(b, r);
            r
        }
        go(self, b, f, &mut HashMap::new())
    }
    pub fn mk(&mut self, v: u32, lo: Bid, hi: Bid) -> Bid {
        if lo == hi {
            return lo;
        }
        if let Some(&b) = self.uniq.get(&(v, lo, hi)) {
            return b;
        }
        if self.nodes.len() > self.limit {
            self.overflow = true;
            return F;
        }
        let b = self.nodes.len() as Bid;
        self.nodes.push((v, lo, hi));
        self.uniq.insert((v, lo, hi), b);
        b
    }
    pub fn node(&self, b: Bid) -> (u32, Bid, Bid) {
        self.nodes[b as usize]
    }
    pub fn not(&mut self, a: Bid) -> Bid {
        if a == F {
            return T;
        }
        if a == T {
            return F;
        }
        if let Some(&r) = self.not_cache.get(&a) {
            return r;
        }
        let (v, lo, hi) = self.node(a);
        let l = self.not(lo);
        let h = self.not(hi);
        let r = self.mk(v, l, h);
        self.not_cache.insert(a, r);
        self.not_cache.insert(r, a);
        r
    }
    pub fn and(&mut self, a: Bid, b: Bid) -> Bid {
        if a == F || b == F {
            return F;
        }
        if a == T {
            return b;
        }
        if b == T || a == b {
            return a;
        }
        let k = if a < b { (a, b) } else { (b, a) };
        if let Some(&r) = self.and_cache.get(&k) {
            return r;
        }
        if self.overflow {
            return F;
        }
        let (va, la, ha) = self.node(a);
        let (vb, lb, hb) = self.node(b);
        let v = va.min(vb);
        let (la, ha) = if va == v { (la, ha) } else { (a, a) };
        let (lb, hb) = if vb == v { (lb, hb) } else { (b, b) };
        let l = self.and(la, lb);
        let h = self.and(ha, hb);
        let r = self.mk(v, l, h);
        self.and_cache.insert(k, r);
        r
    }
    pub fn or(&mut self, a: Bid, b: Bid) -> Bid {
        let na = self.not(a);
        let nb = self.not(b);
        let n = self.and(na, nb);
        self.not(n)
    }
    pub fn diff(&mut self, a: Bid, b: Bid) -> Bid {
        let nb = self.not(b);
        self.and(a, nb)
    }
    pub fn ite(&mut self, c: Bid, t: Bid, e: Bid) -> Bid {
        let x = self.and(c, t);
        let nc = self.not(c);
        let y = self.and(nc, e);
        self.or(x, y)
    }
    pub fn xor(&mut self, a: Bid, b: Bid) -> Bid {
        let x = self.diff(a, b);
        let y = self.diff(b, a);
        self.or(x, y)
    }
    /// f with atom v := val
    pub fn cofactor(&mut self, f: Bid, v: u32, val: bool) -> Bid {
        let mut memo = HashMap::new();
        self.cof(f, v, val, &mut memo)
    }
    fn cof(&mut self, f: Bid, v: u32, val: bool, memo: &mut HashMap<Bid, Bid>) -> Bid {
        if f <= 1 {
            return f;
        }
        let (x, lo, hi) = self.node(f);
        if x > v {
            return f;
        }
        if x == v {
            return if val { hi } else { lo };
        }
        if let Some(&r) = memo.get(&f) {
            return r;
        }
        let l = self.cof(lo, v, val, memo);
        let h = self.cof(hi, v, val, memo);
        let r = self.mk(x, l, h);
        memo.insert(f, r);
        r
    }
    pub fn exists(&mut self, f: Bid, vs: &BTreeSet<u32>) -> Bid {
        let mut f = f;
        for &v in vs {
            let a = self.cofactor(f, v, true);
            let b = self.cofactor(f, v, false);
            f = self.or(a, b);
        }
        f
    }
    pub fn forall(&mut self, f: Bid, vs: &BTreeSet<u32>) -> Bid {
        let mut f = f;
        for &v in vs {
            let a = self.cofactor(f, v, true);
            let b = self.cofactor(f, v, false);
            f = self.and(a, b);
        }
        f
    }
    /// what is left of `f` once `c` is known (generalised cofactor)
    pub fn constrain(&mut self, f: Bid, c: Bid) -> Bid {
        if c == T || c == F || f == T || f == F {
            return f;
        }
        if f == c {
            return T;
        }
        let mut memo = std::collections::HashMap::new();
        self.constrain_(f, c, &mut memo)
    }
    fn constrain_(&mut self, f: Bid, c: Bid, memo: &mut std::collections::HashMap<(Bid, Bid), Bid>) -> Bid {
        if c == T || f == T || f == F {
            return f;
        }
        if f == c {
            return T;
        }
        if let Some(&r) = memo.get(&(f, c)) {
            return r;
        }
        let (vf, f0, f1) = self.node(f);
        let (vc, c0, c1) = self.node(c);
        let v = vf.min(vc);
        let (f0, f1) = if vf == v { (f0, f1) } else { (f, f) };
        let (c0, c1) = if vc == v { (c0, c1) } else { (c, c) };
        let r = if c1 == F {
            self.constrain_(f0, c0, memo)
        } else if c0 == F {
            self.constrain_(f1, c1, memo)
        } else {
            let l = self.constrain_(f0, c0, memo);
            let h = self.constrain_(f1, c1, memo);
            self.mk(v, l, h)
        };
        memo.insert((f, c), r);
        r
    }
    pub fn support(&self, f: Bid) -> BTreeSet<u32> {
        let mut s = BTreeSet::new();
        let mut seen = std::collections::HashSet::new();
        let mut st = vec![f];
        while let Some(x) = st.pop() {
            if x <= 1 || !seen.insert(x) {
                continue;
            }
            let (v, l, h) = self.node(x);
            s.insert(v);
            st.push(l);
            st.push(h);
        }
        s
    }

    /// Assume atom `v` has value `val` in f, with what the theory implies for the other atoms in
    /// f's support, and conjoin the literal.
    pub fn and_lit(&mut self, f: Bid, v: u32, val: bool) -> Bid {
        if f == F {
            return F;
        }
        let mut g = self.cofactor(f, v, val);
        let a = self.atoms[v as usize].clone();
        let sup = self.support(g);
        for w in sup {
            if w == v {
                continue;
            }
            let b = self.atoms[w as usize].clone();
            if let Some(x) = self.implied(&a, val, &b) {
                g = self.cofactor(g, w, x);
            }
        }
        let lit = if val { self.mk(v, F, T) } else { self.mk(v, T, F) };
        self.and(lit, g)
    }

    /// value of atom b implied by a=val, if any
    fn implied(&self, a: &Atom, val: bool, b: &Atom) -> Option<bool> {
        match (a, b) {
            (Atom::Is(s, x), Atom::Is(t, y)) if s == t && x != y => {
                if val {
                    return Some(false);
                }
                let (e, _) = x.rsplit_once("::")?;
                let vs = self.enums.get(e)?;
                if vs.len() == 2 && y.starts_with(e) {
                    return Some(true);
                }
                None
            }
            (Atom::EqC(s, x), Atom::EqC(t, y)) if s == t && x != y && val => Some(false),
            (Atom::LtC(s, x), Atom::LtC(t, y)) if s == t => {
                if val && x <= y {
                    Some(true)
                } else if !val && y <= x {
                    Some(false)
                } else {
                    None
                }
            }
            (Atom::Lt(s, x), Atom::Eq(t, y)) | (Atom::Eq(s, x), Atom::Lt(t, y))
                if s == t && x == y && val =>
            {
                Some(false)
            }
            _ => None,
        }
    }

    /// conjunction of theory axioms for the given atoms
    /// what the meaning of the atoms implies: pairs `a = x -> b = y`, and groups of which one must hold
    fn clauses(&mut self, vs: &BTreeSet<u32>) -> (Vec<(u32, bool, u32, bool)>, Vec<Vec<u32>>) {
        let mut groups: BTreeMap<String, Vec<u32>> = BTreeMap::new();
        for &v in vs {
            let a = &self.atoms[v as usize];
            let key = match a {
                Atom::Is(s, _) => format!("is {}", s),
                Atom::EqC(s, _) => format!("eqc {}", s),
                Atom::LtC(s, _) => format!("ltc {}", s),
                Atom::Lt(s, b) | Atom::Eq(s, b) => format!("ord {} {}", s, b),
                _ => continue,
            };
            groups.entry(key).or_default().push(v);
        }
        let mut imps = vec![];
        let mut full = vec![];
        for (_, g) in groups {
            for i in 0..g.len() {
                for j in 0..g.len() {
                    if i == j {
                        continue;
                    }
                    let (a, b) = (self.atoms[g[i] as usize].clone(), self.atoms[g[j] as usize].clone());
                    for val in [true, false] {
                        if let Some(x) = self.implied(&a, val, &b) {
                            imps.push((g[i], val, g[j], x));
                        }
                    }
                }
            }
            // exhaustiveness
            if let Some(Atom::Is(_, v0)) = g.first().map(|&v| self.atoms[v as usize].clone()) {
                if let Some((e, _)) = v0.rsplit_once("::") {
                    if let Some(all) = self.enums.get(e) {
                        if all.len() == g.len() {
                            full.push(g.clone());
                        }
                    }
                }
            }
        }
        // what has an element is not empty
        for &v in vs {
            let Atom::Exists(c, _) = self.atoms[v as usize].clone() else { continue };
            let l = format!("len({})", c);
            for &w in vs {
                if self.atoms[w as usize] == Atom::LtC(l.clone(), 1) {
                    imps.push((v, true, w, false));
                }
            }
        }
        (imps, full)
    }

    fn lit(&mut self, v: u32, val: bool) -> Bid {
        if val { self.mk(v, F, T) } else { self.mk(v, T, F) }
    }

    /// a way to satisfy x that respects the meaning of its atoms, looked for within a bounded number of steps
    fn witness(&self, x: Bid, imps: &[(u32, bool, u32, bool)], full: &[Vec<u32>]) -> bool {
        let mut next: HashMap<(u32, bool), Vec<(u32, bool)>> = HashMap::new();
        for &(a, va, b, vb) in imps {
            next.entry((a, va)).or_default().push((b, vb));
            next.entry((b, !vb)).or_default().push((a, !va));
        }
        let mut of: HashMap<u32, Vec<usize>> = HashMap::new();
        for (i, g) in full.iter().enumerate() {
            for &v in g {
                of.entry(v).or_default().push(i);
            }
        }
        fn set(
            v: u32,
            val: bool,
            asg: &mut HashMap<u32, bool>,
            trail: &mut Vec<u32>,
            next: &HashMap<(u32, bool), Vec<(u32, bool)>>,
            of: &HashMap<u32, Vec<usize>>,
            full: &[Vec<u32>],
        ) -> bool {
            let mut work = vec![(v, val)];
            while let Some((v, val)) = work.pop() {
                match asg.get(&v) {
                    Some(&o) if o == val => continue,
                    Some(_) => return false,
                    None => {}
                }
                asg.insert(v, val);
                trail.push(v);
                work.extend(next.get(&(v, val)).into_iter().flatten());
                if !val {
                    for &g in of.get(&v).into_iter().flatten() {
                        if full[g].iter().any(|w| asg.get(w) == Some(&true)) {
                            continue;
                        }
                        let open: Vec<u32> = full[g].iter().copied().filter(|w| !asg.contains_key(w)).collect();
                        match open.as_slice() {
                            [] => return false,
                            [w] => work.push((*w, true)),
                            _ => {}
                        }
                    }
                }
            }
            true
        }
        #[allow(clippy::too_many_arguments)]
        fn go(
            b: &Bdd,
            x: Bid,
            asg: &mut HashMap<u32, bool>,
            trail: &mut Vec<u32>,
            next: &HashMap<(u32, bool), Vec<(u32, bool)>>,
            of: &HashMap<u32, Vec<usize>>,
            full: &[Vec<u32>],
            steps: &mut usize,
        ) -> bool {
            if x == T {
                return true;
            }
            if x == F || *steps == 0 {
                return false;
            }
            *steps -= 1;
            let (v, lo, hi) = b.node(x);
            if let Some(&val) = asg.get(&v) {
                return go(b, if val { hi } else { lo }, asg, trail, next, of, full, steps);
            }
            for (val, y) in [(true, hi), (false, lo)] {
                if y == F {
                    continue;
                }
                let mark = trail.len();
                if set(v, val, asg, trail, next, of, full) && go(b, y, asg, trail, next, of, full, steps) {
                    return true;
                }
                while trail.len() > mark {
                    let w = trail.pop().unwrap();
                    asg.remove(&w);
                }
            }
            false
        }
        let mut steps = 20_000usize;
        go(self, x, &mut HashMap::new(), &mut vec![], &next, &of, full, &mut steps)
    }

    /// a ≡ b modulo theory
    pub fn equiv(&mut self, a: Bid, b: Bid) -> bool {
        let x = self.xor(a, b);
        self.unsat(x)
    }
    pub fn unsat(&mut self, x: Bid) -> bool {
        if x == F {
            return true;
        }
        if x == T {
            return false;
        }
        let sup = self.support(x);
        let (imps, full) = self.clauses(&sup);
        if imps.is_empty() && full.is_empty() || self.witness(x, &imps, &full) {
            return false;
        }
        let mut x = x;
        for (a, va, b, vb) in imps {
            let l = self.lit(a, !va);
            let r = self.lit(b, vb);
            let c = self.or(l, r);
            x = self.and(x, c);
            if x == F {
                return true;
            }
        }
        for g in full {
            let mut any = F;
            for v in g {
                let l = self.lit(v, true);
                any = self.or(any, l);
            }
            x = self.and(x, any);
        }
        x == F
    }

    /// Deterministic text of a formula, independent of atom creation order.
    pub fn text(&mut self, f: Bid) -> String {
        if f == T {
            return "true".into();
        }
        if f == F {
            return "false".into();
        }
        if let Some(s) = self.text_cache.get(&f) {
            return s.clone();
        }
        let sup = self.support(f);
        let mut names: Vec<(String, u32)> =
            sup.iter().map(|&v| (self.atoms[v as usize].show(), v)).collect();
        names.sort();
        let r = if names.len() > 24 {
            // too wide for a canonical rebuild: name the atoms only
            let h = self.digest(f, &mut HashMap::new());
            format!("wide#{:016x}[{}]", h, names.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(" , "))
        } else {
            let mut budget = 4000usize;
            let mut memo = HashMap::new();
            self.text_rec(f, &names, 0, &mut budget, &mut memo)
        };
        self.text_cache.insert(f, r.clone());
        r
    }
    /// the function's polynomial at a point given by its atoms' names: equal functions have equal
    /// digests whatever the order of the atoms
    fn digest(&self, f: Bid, memo: &mut HashMap<Bid, u64>) -> u64 {
        const P: u128 = (1 << 61) - 1;
        if f == F {
            return 0;
        }
        if f == T {
            return 1;
        }
        if let Some(&r) = memo.get(&f) {
            return r;
        }
        let (v, lo, hi) = self.node(f);
        let (l, h) = (self.digest(lo, memo) as u128, self.digest(hi, memo) as u128);
        let mut x = 0xcbf29ce484222325u64;
        for c in self.atoms[v as usize].show().bytes() {
            x = (x ^ c as u64).wrapping_mul(0x100000001b3);
        }
        let x = x as u128 % P;
        let r = ((x * h + (P + 1 - x) * l) % P) as u64;
        memo.insert(f, r);
        r
    }

    fn text_rec(
        &mut self,
        f: Bid,
        names: &[(String, u32)],
        i: usize,
        budget: &mut usize,
        memo: &mut HashMap<(Bid, usize), String>,
    ) -> String {
        if f == T {
            return "1".into();
        }
        if f == F {
            return "0".into();
        }
        if let Some(s) = memo.get(&(f, i)) {
            return s.clone();
        }
        let mut i = i;
        loop {
            let Some(&(_, v)) = names.get(i) else { return "?".into() };
            let hi = self.cofactor(f, v, true);
            let lo = self.cofactor(f, v, false);
            if hi == lo {
                i += 1;
                continue;
            }
            if *budget == 0 {
                return "...".into();
            }
            *budget -= 1;
            let h = self.text_rec(hi, names, i + 1, budget, memo);
            let l = self.text_rec(lo, names, i + 1, budget, memo);
            let n = &names[i].0;
            let r = match (h.as_str(), l.as_str()) {
                ("1", "0") => n.clone(),
                ("0", "1") => format!("!{}", n),
                (_, "0") => format!("{} & {}", n, paren(&h)),
                ("0", _) => format!("!{} & {}", n, paren(&l)),
                ("1", _) => format!("{} | {}", n, paren(&l)),
                (_, "1") => format!("!{} | {}", n, paren(&h)),
                _ => format!("{} ? {} : {}", n, paren(&h), paren(&l)),
            };
            memo.insert((f, i), r.clone());
            return r;
        }
    }

    /// serialise as node table: ([atoms json], [[atom, lo, hi]...], root)
    pub fn to_json(&self, f: Bid) -> serde_json::Value {
        use serde_json::json;
        if f <= 1 {
            return json!(f == T);
        }
        let mut ids: HashMap<Bid, usize> = HashMap::new();
        ids.insert(F, 0);
        ids.insert(T, 1);
        let mut rows = vec![];
        let mut atoms = vec![];
        let mut aid: HashMap<u32, usize> = HashMap::new();
        fn go(
            b: &Bdd,
            f: Bid,
            ids: &mut HashMap<Bid, usize>,
            rows: &mut Vec<serde_json::Value>,
            atoms: &mut Vec<serde_json::Value>,
            aid: &mut HashMap<u32, usize>,
        ) -> usize {
            if let Some(&i) = ids.get(&f) {
                return i;
            }
            let (v, l, h) = b.node(f);
            let l = go(b, l, ids, rows, atoms, aid);
            let h = go(b, h, ids, rows, atoms, aid);
            let a = *aid.entry(v).or_insert_with(|| {
                atoms.push(b.atoms[v as usize].to_json());
                atoms.len() - 1
            });
            rows.push(serde_json::json!([a, l, h]));
            let i = rows.len() + 1;
            ids.insert(f, i);
            i
        }
        go(self, f, &mut ids, &mut rows, &mut atoms, &mut aid);
        json!({"atoms": atoms, "nodes": rows})
    }
    pub fn from_json(&mut self, v: &serde_json::Value) -> Option<Bid> {
        if let Some(b) = v.as_bool() {
            return Some(if b { T } else { F });
        }
        let atoms: Vec<Atom> =
            v["atoms"].as_array()?.iter().map(Atom::from_json).collect::<Option<Vec<_>>>()?;
        let ids: Vec<Bid> = atoms.into_iter().map(|a| self.atom(a)).collect();
        let mut built = vec![F, T];
        for n in v["nodes"].as_array()? {
            let a = n[0].as_u64()? as usize;
            let l = built[n[1].as_u64()? as usize];
            let h = built[n[2].as_u64()? as usize];
            let r = self.ite(ids[a], h, l);
            built.push(r);
        }
        built.last().copied()
    }
}

fn paren(s: &str) -> String {
    if s.contains(" | ") || s.contains(" & ") || s.contains(" ? ") {
        format!("({})", s)
    } else {
        s.to_string()
    }
}
