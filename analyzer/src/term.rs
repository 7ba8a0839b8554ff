//! Hash-consed canonical terms.
use crate::bdd::{Bdd, Bid, T as BT};
use std::collections::HashMap;
use std::rc::Rc;

pub type Tid = u32;
pub type S = Rc<str>;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Item {
    pub loops: Vec<Tid>,
    pub guard: Bid,
    pub term: Tid,
    /// term is itself a collection whose elements are meant
    pub spread: bool,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum FmtPart {
    Str(S),
    Arg(Tid, S),
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Term {
    Sym(S),
    Int(i128),
    Str(S),
    Bool(bool),
    Field(Tid, S),
    /// payload `field` of enum variant; variant "Ok" stands for Some and Ok
    Proj(Tid, S, S),
    Elem(Tid, u32),
    Idx(Tid, u32),
    Call(S, Vec<Tid>),
    Ctor(S, Vec<(S, Tid)>),
    Tuple(Vec<Tid>),
    Coll(Vec<Item>),
    Fmt(Vec<FmtPart>),
    Closure(u32),
    FnRef(u32),
    Ref(u32),
    Iter(Tid),
    /// guarded alternatives collapsed into one term
    Mux(Vec<(Bid, Tid)>),
}

pub struct Terms {
    pub v: Vec<Term>,
    ids: HashMap<Term, Tid>,
    shown: HashMap<Tid, Rc<str>>,
    /// when set, string literals inside format! are dropped from rendering
    pub drop_fmt: bool,
    /// long terms are written out
    pub long: bool,
    pub fn_names: Vec<Rc<str>>,
}

impl Terms {
    pub fn new() -> Self {
        Terms { v: vec![], ids: HashMap::new(), shown: HashMap::new(), drop_fmt: false, long: false, fn_names: vec![] }
    }
    pub fn mk(&mut self, t: Term) -> Tid {
        if let Some(&i) = self.ids.get(&t) {
            return i;
        }
        let i = self.v.len() as Tid;
        self.v.push(t.clone());
        self.ids.insert(t, i);
        i
    }
    pub fn get(&self, t: Tid) -> &Term {
        &self.v[t as usize]
    }
    pub fn sym(&mut self, s: &str) -> Tid {
        self.mk(Term::Sym(s.into()))
    }
    pub fn call(&mut self, n: &str, a: Vec<Tid>) -> Tid {
        self.mk(Term::Call(n.into(), a))
    }
    pub fn show(&mut self, b: &mut Bdd, t: Tid) -> Rc<str> {
        if let Some(s) = self.shown.get(&t) {
            return s.clone();
        }
        let term = self.v[t as usize].clone();
        let list = |me: &mut Self, b: &mut Bdd, a: &[Tid]| {
            a.iter().map(|&x| me.show(b, x).to_string()).collect::<Vec<_>>().join(", ")
        };
        let s: String = match term {
            Term::Sym(s) => s.to_string(),
            Term::Int(i) => i.to_string(),
            Term::Str(s) => format!("{:?}", s),
            Term::Bool(x) => x.to_string(),
            Term::Field(x, f) => format!("{}.{}", self.show(b, x), f),
            Term::Proj(x, v, f) => {
                if &*v == "Ok" {
                    format!("{}?", self.show(b, x))
                } else {
                    format!("{}@{}.{}", self.show(b, x), v, f)
                }
            }
            Term::Elem(x, d) => {
                if d == 0 {
                    format!("each({})", self.show(b, x))
                } else {
                    format!("each{}({})", d, self.show(b, x))
                }
            }
            Term::Idx(x, d) => {
                if d == 0 {
                    format!("idx({})", self.show(b, x))
                } else {
                    format!("idx{}({})", d, self.show(b, x))
                }
            }
            Term::Call(n, a) => format!("{}({})", n, list(self, b, &a)),
            Term::Ctor(n, f) => {
                if f.is_empty() {
                    n.to_string()
                } else {
                    let mut fs: Vec<String> =
                        f.iter().map(|(k, v)| format!("{}: {}", k, self.show(b, *v))).collect();
                    fs.sort();
                    format!("{}{{{}}}", n, fs.join(", "))
                }
            }
            Term::Tuple(a) => format!("({})", list(self, b, &a)),
            Term::Coll(items) => {
                let v: Vec<String> = items
                    .iter()
                    .map(|i| {
                        let l = i.loops.iter().map(|&x| self.show(b, x).to_string()).collect::<Vec<_>>();
                        let g = if i.guard == BT { String::new() } else { format!(" if {}", b.text(i.guard)) };
                        let sp = if i.spread { ".." } else { "" };
                        let f = if l.is_empty() { String::new() } else { format!(" for {}", l.join(" for ")) };
                        format!("{}{}{}{}", sp, self.show(b, i.term), f, g)
                    })
                    .collect();
                format!("[{}]", v.join("; "))
            }
            Term::Fmt(p) => {
                let v: Vec<String> = p
                    .iter()
                    .filter_map(|x| match x {
                        FmtPart::Str(s) => {
                            if self.drop_fmt {
                                None
                            } else {
                                Some(format!("{:?}", s))
                            }
                        }
                        FmtPart::Arg(t, spec) => Some(format!("{}{}", self.show(b, *t), spec)),
                    })
                    .collect();
                format!("fmt[{}]", v.join(" "))
            }
            Term::Closure(i) => format!("closure#{}", i),
            Term::FnRef(i) => match self.fn_names.get(i as usize) {
                Some(n) => format!("fn:{}", n),
                None => format!("fn#{}", i),
            },
            Term::Ref(i) => format!("ref#{}", i),
            Term::Iter(x) => format!("iter({})", self.show(b, x)),
            Term::Mux(alts) => {
                let mut v: Vec<String> =
                    alts.iter().map(|(g, t)| format!("{} => {}", b.text(*g), self.show(b, *t))).collect();
                v.sort();
                format!("mux{{{}}}", v.join(" | "))
            }
        };
        let s = if s.len() > 2400 && !self.long && std::env::var_os("CS_LONG").is_none() {
            let mut h: u64 = 0xcbf29ce484222325;
            for c in s.bytes() {
                h = (h ^ c as u64).wrapping_mul(0x100000001b3);
            }
            let mut cut = 300;
            while !s.is_char_boundary(cut) || s.as_bytes()[cut - 1].is_ascii_alphanumeric() || s.as_bytes()[cut - 1] == b'_' {
                cut -= 1;
            }
            format!("{}~{:016x}", &s[..cut], h)
        } else {
            s
        };
        let r: Rc<str> = s.into();
        self.shown.insert(t, r.clone());
        r
    }
}
