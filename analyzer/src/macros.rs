//! Item-level uses of the project's own `macro_rules`: expanded, so that the functions
//! and types they generate are read like written ones.
use proc_macro2::{Delimiter, Group, Ident, Spacing, TokenStream, TokenTree};
use std::collections::HashMap;

enum P {
    Tok(String),
    Var(String, String),
    Group(Delimiter, Vec<P>),
    Rep(Vec<P>, Option<String>, char),
}

#[derive(Clone)]
enum Bind {
    Tok(Vec<TokenTree>),
    Seq(Vec<Bind>),
}
type Binds = HashMap<String, Bind>;

pub struct Rules {
    arms: Vec<(Vec<P>, Vec<TokenTree>)>,
}

fn punct(t: &TokenTree, c: char) -> bool {
    matches!(t, TokenTree::Punct(p) if p.as_char() == c)
}

/// `$( .. ) sep op`: (separator, operator, tokens used after the group)
fn rep_tail(t: &[TokenTree]) -> Option<(Option<String>, char, usize)> {
    let op = |t: &TokenTree| match t {
        TokenTree::Punct(p) if matches!(p.as_char(), '*' | '+' | '?') => Some(p.as_char()),
        _ => None,
    };
    let first = t.first()?;
    if let Some(o) = op(first) {
        return Some((None, o, 1));
    }
    Some((Some(first.to_string()), op(t.get(1)?)?, 2))
}

fn pattern(t: &[TokenTree]) -> Option<Vec<P>> {
    let mut out = vec![];
    let mut i = 0;
    while i < t.len() {
        if punct(&t[i], '$') {
            match t.get(i + 1)? {
                TokenTree::Group(g) if g.delimiter() == Delimiter::Parenthesis => {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    let (sep, op, n) = rep_tail(&t[i + 2..])?;
                    out.push(P::Rep(pattern(&inner)?, sep, op));
                    i += 2 + n;
                }
                TokenTree::Ident(n) => {
                    let TokenTree::Ident(k) = t.get(i + 3)? else { return None };
                    out.push(P::Var(n.to_string(), k.to_string()));
                    i += 4;
                }
                _ => return None,
            }
            continue;
        }
        match &t[i] {
            TokenTree::Group(g) => {
                let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                out.push(P::Group(g.delimiter(), pattern(&inner)?));
            }
            x => out.push(P::Tok(x.to_string())),
        }
        i += 1;
    }
    Some(out)
}

fn vars(p: &[P], out: &mut Vec<String>) {
    for x in p {
        match x {
            P::Var(n, _) => out.push(n.clone()),
            P::Group(_, i) | P::Rep(i, _, _) => vars(i, out),
            P::Tok(_) => {}
        }
    }
}

fn matches(p: &[P], t: &[TokenTree], mut i: usize, b: &mut Binds) -> Option<usize> {
    for (k, x) in p.iter().enumerate() {
        match x {
            P::Tok(s) => {
                if t.get(i)?.to_string() != *s {
                    return None;
                }
                i += 1;
            }
            P::Group(d, inner) => {
                let TokenTree::Group(g) = t.get(i)? else { return None };
                if g.delimiter() != *d {
                    return None;
                }
                let ts: Vec<TokenTree> = g.stream().into_iter().collect();
                if matches(inner, &ts, 0, b)? != ts.len() {
                    return None;
                }
                i += 1;
            }
            P::Var(n, kind) => {
                let start = i;
                match kind.as_str() {
                    "ident" => {
                        let TokenTree::Ident(_) = t.get(i)? else { return None };
                        i += 1;
                    }
                    "literal" => {
                        if punct(t.get(i)?, '-') {
                            i += 1;
                        }
                        let TokenTree::Literal(_) = t.get(i)? else { return None };
                        i += 1;
                    }
                    "tt" => {
                        t.get(i)?;
                        i += 1;
                    }
                    _ => {
                        let stop = match p.get(k + 1) {
                            Some(P::Tok(s)) => Some(s.clone()),
                            _ => Some(",".to_string()),
                        };
                        while i < t.len() && stop.as_deref() != Some(t[i].to_string().as_str()) {
                            i += 1;
                        }
                        if i == start {
                            return None;
                        }
                    }
                }
                b.insert(n.clone(), Bind::Tok(t[start..i].to_vec()));
            }
            P::Rep(inner, sep, op) => {
                let mut vs = vec![];
                vars(inner, &mut vs);
                let mut seqs: HashMap<String, Vec<Bind>> = vs.iter().map(|v| (v.clone(), vec![])).collect();
                let mut n = 0;
                loop {
                    let mut at = i;
                    if n > 0 {
                        if *op == '?' {
                            break;
                        }
                        if let Some(s) = sep {
                            if t.get(at).map(|x| x.to_string()).as_ref() != Some(s) {
                                break;
                            }
                            at += 1;
                        }
                    }
                    let mut nb = Binds::new();
                    match matches(inner, t, at, &mut nb) {
                        Some(j) if j > i => {
                            i = j;
                            n += 1;
                            for v in &vs {
                                if let Some(x) = nb.remove(v) {
                                    seqs.get_mut(v)?.push(x);
                                }
                            }
                        }
                        _ => break,
                    }
                }
                if *op == '+' && n == 0 {
                    return None;
                }
                for (v, s) in seqs {
                    b.insert(v, Bind::Seq(s));
                }
            }
        }
    }
    Some(i)
}

fn used(t: &[TokenTree], out: &mut Vec<String>) {
    for (i, x) in t.iter().enumerate() {
        match x {
            TokenTree::Group(g) => used(&g.stream().into_iter().collect::<Vec<_>>(), out),
            TokenTree::Ident(n) if i > 0 && punct(&t[i - 1], '$') => out.push(n.to_string()),
            _ => {}
        }
    }
}

fn transcribe(t: &[TokenTree], b: &Binds) -> Option<Vec<TokenTree>> {
    let mut out = vec![];
    let mut i = 0;
    while i < t.len() {
        if punct(&t[i], '$') {
            match t.get(i + 1)? {
                TokenTree::Group(g) => {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    let (sep, _, n) = rep_tail(&t[i + 2..])?;
                    let mut us = vec![];
                    used(&inner, &mut us);
                    let len = us.iter().filter_map(|u| match b.get(u) {
                        Some(Bind::Seq(s)) => Some(s.len()),
                        _ => None,
                    });
                    let len = len.max()?;
                    for k in 0..len {
                        let mut nb = b.clone();
                        for u in &us {
                            if let Some(Bind::Seq(s)) = b.get(u) {
                                nb.insert(u.clone(), s.get(k)?.clone());
                            }
                        }
                        if k > 0 {
                            if let Some(s) = &sep {
                                out.extend(s.parse::<TokenStream>().ok()?);
                            }
                        }
                        out.extend(transcribe(&inner, &nb)?);
                    }
                    i += 2 + n;
                }
                TokenTree::Ident(n) if n == "crate" => {
                    out.push(TokenTree::Ident(n.clone()));
                    i += 2;
                }
                TokenTree::Ident(n) => {
                    let Some(Bind::Tok(x)) = b.get(&n.to_string()) else { return None };
                    out.extend(x.iter().cloned());
                    i += 2;
                }
                _ => return None,
            }
            continue;
        }
        match &t[i] {
            TokenTree::Group(g) => {
                let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                let mut ng = Group::new(g.delimiter(), transcribe(&inner, b)?.into_iter().collect());
                ng.set_span(g.span());
                out.push(TokenTree::Group(ng));
            }
            x => out.push(x.clone()),
        }
        i += 1;
    }
    Some(out)
}

pub fn rules_of(body: TokenStream) -> Option<Rules> {
    let t: Vec<TokenTree> = body.into_iter().collect();
    let mut arms = vec![];
    let mut i = 0;
    while i < t.len() {
        let (TokenTree::Group(p), Some(TokenTree::Group(b))) = (&t[i], t.get(i + 3)) else { return None };
        let pat: Vec<TokenTree> = p.stream().into_iter().collect();
        arms.push((pattern(&pat)?, b.stream().into_iter().collect()));
        i += 4;
        if i < t.len() && punct(&t[i], ';') {
            i += 1;
        }
    }
    Some(Rules { arms })
}

fn snake(s: &str) -> String {
    let mut o = String::new();
    let cs: Vec<char> = s.chars().collect();
    for (i, c) in cs.iter().enumerate() {
        if c.is_uppercase() && i > 0 && (cs[i - 1].is_lowercase() || cs[i - 1].is_ascii_digit() || cs.get(i + 1).is_some_and(|n| n.is_lowercase())) {
            o.push('_');
        }
        o.extend(c.to_lowercase());
    }
    o
}

/// `[< a $b:snake:upper >]`
fn paste(t: Vec<TokenTree>) -> Vec<TokenTree> {
    t.into_iter()
        .map(|x| {
            let TokenTree::Group(g) = &x else { return x };
            let inner: Vec<TokenTree> = g.stream().into_iter().collect();
            if g.delimiter() == Delimiter::Bracket && inner.len() > 2 && punct(&inner[0], '<') && punct(&inner[inner.len() - 1], '>') {
                let mut s = String::new();
                let mut cur = String::new();
                let mut modif = false;
                for y in &inner[1..inner.len() - 1] {
                    match y {
                        TokenTree::Punct(p) if p.as_char() == ':' => modif = true,
                        TokenTree::Ident(m) if modif => {
                            cur = match m.to_string().as_str() {
                                "snake" => snake(&cur),
                                "upper" => cur.to_uppercase(),
                                "lower" => cur.to_lowercase(),
                                o => format!("{cur}_{o}"),
                            };
                            modif = false;
                        }
                        y => {
                            s += &cur;
                            cur = y.to_string().trim_matches('"').to_string();
                        }
                    }
                }
                s += &cur;
                return TokenTree::Ident(Ident::new(&s, g.span()));
            }
            let mut ng = Group::new(g.delimiter(), paste(inner).into_iter().collect());
            ng.set_span(g.span());
            TokenTree::Group(ng)
        })
        .collect()
}

/// expand the known macros inside a token sequence
fn inside(t: Vec<TokenTree>, known: &HashMap<String, Rules>, depth: usize) -> Vec<TokenTree> {
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    while i < t.len() {
        if let (TokenTree::Ident(n), Some(TokenTree::Punct(p)), Some(TokenTree::Group(g))) = (&t[i], t.get(i + 1), t.get(i + 2)) {
            if p.as_char() == '!' && p.spacing() == Spacing::Alone {
                let arg: Vec<TokenTree> = g.stream().into_iter().collect();
                if n == "paste" {
                    out.extend(inside(paste(arg), known, depth));
                    i += 3;
                    continue;
                }
                if let Some(x) = known.get(&n.to_string()).and_then(|r| once(r, &arg)) {
                    if depth < 8 {
                        let mut ng = Group::new(Delimiter::Parenthesis, inside(x, known, depth + 1).into_iter().collect());
                        ng.set_span(g.span());
                        out.push(TokenTree::Group(ng));
                        i += 3;
                        continue;
                    }
                }
            }
        }
        match &t[i] {
            TokenTree::Group(g) => {
                let mut ng = Group::new(g.delimiter(), inside(g.stream().into_iter().collect(), known, depth).into_iter().collect());
                ng.set_span(g.span());
                out.push(TokenTree::Group(ng));
            }
            x => out.push(x.clone()),
        }
        i += 1;
    }
    out
}

fn once(r: &Rules, arg: &[TokenTree]) -> Option<Vec<TokenTree>> {
    r.arms.iter().find_map(|(p, body)| {
        let mut b = Binds::new();
        if matches(p, arg, 0, &mut b)? != arg.len() {
            return None;
        }
        transcribe(body, &b)
    })
}

/// the items an item-level use of one of the project's macros stands for
pub fn expand(name: &str, arg: TokenStream, known: &HashMap<String, Rules>) -> Option<Vec<syn::Item>> {
    let arg: Vec<TokenTree> = arg.into_iter().collect();
    let body = once(known.get(name)?, &arg)?;
    let ts: TokenStream = inside(body, known, 0).into_iter().collect();
    Some(syn::parse2::<syn::File>(ts).ok()?.items)
}
