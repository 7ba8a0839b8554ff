//! Loads and indexes the Rust sources of /repo (test code excluded).
use std::collections::{BTreeMap, HashMap};
use std::path::{Path, PathBuf};
use std::rc::Rc;
use syn::spanned::Spanned;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ty {
    Named(String, Vec<Ty>),
    Tuple(Vec<Ty>),
    Slice(Box<Ty>),
    Unknown,
}
impl Ty {
    pub fn head(&self) -> Option<&str> {
        match self {
            Ty::Named(n, _) => Some(n),
            _ => None,
        }
    }
    pub fn arg(&self, i: usize) -> Ty {
        match self {
            Ty::Named(_, a) => a.get(i).cloned().unwrap_or(Ty::Unknown),
            _ => Ty::Unknown,
        }
    }
    pub fn mentions(&self, f: &dyn Fn(&str) -> bool) -> bool {
        match self {
            Ty::Named(n, a) => f(n) || a.iter().any(|x| x.mentions(f)),
            Ty::Tuple(a) => a.iter().any(|x| x.mentions(f)),
            Ty::Slice(x) => x.mentions(f),
            Ty::Unknown => false,
        }
    }
}

pub struct FnInfo {
    /// unique identity: id(), with the file appended when several functions share the id
    pub key: String,
    /// receiver, parameter and return types, as text
    pub sig: String,
    /// takes `&mut self` or a `&mut` parameter
    pub has_mut: bool,
    /// which arguments (the receiver first) are taken by `&mut`
    pub muts: Vec<bool>,
    pub body_text: String,
    pub name: String,
    pub krate: String,
    pub file: String,
    pub module: String,
    pub self_ty: Option<String>,
    pub trait_: Option<String>,
    /// enum variants etc: attributes as text
    pub attrs: Vec<String>,
    pub has_self: bool,
    pub params: Vec<(syn::Pat, Ty)>,
    pub ret: Ty,
    pub ret_iter: bool,
    pub is_pub: bool,
    pub block: Rc<syn::Block>,
    pub line: usize,
    pub end_line: usize,
}
impl FnInfo {
    /// identity that survives moving between files: crate, impl, name
    pub fn id(&self) -> String {
        let mut s = format!("{}::", self.krate);
        if let Some(t) = &self.trait_ {
            s += &format!("<{} for {}>::", t, self.self_ty.clone().unwrap_or_default());
        } else if let Some(t) = &self.self_ty {
            s += &format!("{}::", t);
        }
        s + &self.name
    }
}

#[derive(Clone)]
pub struct FieldInfo {
    pub name: String,
    pub ty: Ty,
    pub raw: String,
    pub attrs: Vec<String>,
}
#[derive(Clone)]
pub struct VariantInfo {
    pub name: String,
    pub fields: Vec<FieldInfo>,
    pub named: bool,
    pub attrs: Vec<String>,
    pub disc: Option<String>,
}
pub struct EnumInfo {
    pub name: String,
    pub krate: String,
    pub file: String,
    pub variants: Vec<VariantInfo>,
    pub attrs: Vec<String>,
}
pub struct StructInfo {
    pub name: String,
    pub krate: String,
    pub file: String,
    pub fields: Vec<FieldInfo>,
    pub named: bool,
    pub attrs: Vec<String>,
}

pub struct SrcFile {
    pub rel: String,
    pub krate: String,
    pub ast: syn::File,
    pub text: String,
}

#[derive(Default)]
pub struct Program {
    pub files: Vec<SrcFile>,
    pub fns: Vec<FnInfo>,
    pub by_name: HashMap<String, Vec<usize>>,
    pub enums: BTreeMap<String, EnumInfo>,
    pub structs: BTreeMap<String, StructInfo>,
    /// const name -> list of (crate, owner type, expr, file)
    pub consts: HashMap<String, Vec<(String, Option<String>, syn::Expr, String)>>,
    pub macros: Vec<(String, String, String)>,
    /// the project's macros whose item-level uses were expanded
    pub expanded: Vec<String>,
    pub type_aliases: HashMap<String, Ty>,
    pub errors: Vec<String>,
    /// names defined more than once as enum/struct (ambiguous)
    pub dup_types: Vec<String>,
}

pub const CRATES: &[(&str, &str)] = &[
    ("parser", "crates/compiler/parser/src"),
    ("semantic", "crates/compiler/semantic/src"),
    ("diagnostics", "crates/compiler/diagnostics/src"),
    ("formatter", "crates/compiler/formatter/src"),
    ("project", "crates/compiler/cairo-m-project/src"),
    ("cargo_cairo_m", "crates/cargo-cairo-m/src"),
    ("compiler", "crates/compiler/src"),
    ("mir", "crates/compiler/mir/src"),
    ("codegen", "crates/compiler/codegen/src"),
    ("common", "crates/common/src"),
    ("runner", "crates/runner/src"),
    ("prover", "crates/prover/src"),
    ("ls", "crates/cairo-m-ls/src"),
    ("wasm", "crates/wasm/src"),
];

fn walk(dir: &Path, out: &mut Vec<PathBuf>) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    let mut v: Vec<_> = rd.flatten().map(|e| e.path()).collect();
    v.sort();
    for p in v {
        if p.is_dir() {
            if p.file_name().is_some_and(|n| n == "tests") {
                continue;
            }
            walk(&p, out);
        } else if p.extension().is_some_and(|e| e == "rs") {
            let stem = p.file_stem().unwrap().to_string_lossy().to_string();
            if stem.ends_with("_tests") || stem.ends_with("_test") || stem == "tests" || stem == "test_support" || stem == "testing" {
                continue;
            }
            out.push(p);
        }
    }
}

pub fn tokens(t: &impl quote::ToTokens) -> String {
    t.to_token_stream().to_string()
}

fn is_test_attr(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = tokens(a).replace(' ', "");
        s == "#[test]" || s.starts_with("#[cfg(test)") || s.starts_with("#[cfg(all(test") || s == "#[rstest]"
    })
}
fn attrs_text(attrs: &[syn::Attribute]) -> Vec<String> {
    attrs
        .iter()
        .filter(|a| !a.path().is_ident("doc"))
        .map(|a| tokens(a))
        .collect()
}

pub fn ty_of(t: &syn::Type, self_ty: Option<&str>) -> Ty {
    use syn::Type::*;
    match t {
        Reference(r) => ty_of(&r.elem, self_ty),
        Paren(r) => ty_of(&r.elem, self_ty),
        Group(r) => ty_of(&r.elem, self_ty),
        Tuple(t) => Ty::Tuple(t.elems.iter().map(|x| ty_of(x, self_ty)).collect()),
        Slice(s) => Ty::Slice(Box::new(ty_of(&s.elem, self_ty))),
        Array(s) => Ty::Slice(Box::new(ty_of(&s.elem, self_ty))),
        Path(p) => {
            let Some(seg) = p.path.segments.last() else { return Ty::Unknown };
            let mut name = seg.ident.to_string();
            let args: Vec<Ty> = match &seg.arguments {
                syn::PathArguments::AngleBracketed(a) => a
                    .args
                    .iter()
                    .filter_map(|x| match x {
                        syn::GenericArgument::Type(t) => Some(ty_of(t, self_ty)),
                        _ => None,
                    })
                    .collect(),
                _ => vec![],
            };
            if name == "Self" {
                if let Some(s) = self_ty {
                    name = s.to_string();
                }
            }
            match name.as_str() {
                // transparent wrappers
                "Box" | "Rc" | "Arc" | "Spanned" | "Cow" | "RefCell" | "Mutex" | "RwLock" if !args.is_empty() => {
                    args.into_iter().next().unwrap()
                }
                "Vec" | "VecDeque" if !args.is_empty() => Ty::Slice(Box::new(args.into_iter().next().unwrap())),
                _ => Ty::Named(name, args),
            }
        }
        ImplTrait(i)
            if i.bounds.iter().any(|b| {
                matches!(b, syn::TypeParamBound::Trait(t) if t.path.segments.last().is_some_and(|s| s.ident == "Parser"))
            }) =>
        {
            Ty::Named("Parser".into(), vec![])
        }
        ImplTrait(_) | TraitObject(_) => Ty::Unknown,
        _ => Ty::Unknown,
    }
}

struct Ctx<'a> {
    p: &'a mut Program,
    krate: String,
    file: String,
    module: String,
    known: &'a HashMap<String, crate::macros::Rules>,
}

impl<'a> Ctx<'a> {
    fn items(&mut self, items: &[syn::Item]) {
        for it in items {
            self.item(it)
        }
    }
    fn item(&mut self, it: &syn::Item) {
        match it {
            syn::Item::Fn(f) => {
                if is_test_attr(&f.attrs) {
                    return;
                }
                self.add_fn(&f.sig, &f.block, &f.attrs, matches!(f.vis, syn::Visibility::Public(_)), None, None);
            }
            syn::Item::Impl(im) => {
                if is_test_attr(&im.attrs) {
                    return;
                }
                let st = match ty_of(&im.self_ty, None) {
                    Ty::Named(n, _) => n,
                    Ty::Slice(_) => "[]".to_string(),
                    _ => tokens(&im.self_ty).replace(' ', ""),
                };
                let st = if let syn::Type::Path(p) = &*im.self_ty {
                    p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or(st)
                } else {
                    st
                };
                let tr = im.trait_.as_ref().map(|(_, p, _)| {
                    // keep generic args out: `From<X>` matters though
                    let s = p.segments.last().unwrap();
                    tokens(s).replace(' ', "")
                });
                for x in &im.items {
                    match x {
                        syn::ImplItem::Fn(f) => {
                            if is_test_attr(&f.attrs) {
                                continue;
                            }
                            let is_pub = matches!(f.vis, syn::Visibility::Public(_)) || tr.is_some();
                            self.add_fn(&f.sig, &f.block, &f.attrs, is_pub, Some(st.clone()), tr.clone());
                        }
                        syn::ImplItem::Const(c) => {
                            self.p.consts.entry(c.ident.to_string()).or_default().push((
                                self.krate.clone(),
                                Some(st.clone()),
                                c.expr.clone(),
                                self.file.clone(),
                            ));
                        }
                        _ => {}
                    }
                }
            }
            syn::Item::Trait(t) => {
                for x in &t.items {
                    if let syn::TraitItem::Fn(f) = x {
                        if let Some(b) = &f.default {
                            self.add_fn(&f.sig, b, &f.attrs, true, Some(t.ident.to_string()), Some("default".into()));
                        }
                    }
                }
            }
            syn::Item::Enum(e) => {
                if is_test_attr(&e.attrs) {
                    return;
                }
                let variants = e
                    .variants
                    .iter()
                    .map(|v| VariantInfo {
                        name: v.ident.to_string(),
                        named: matches!(v.fields, syn::Fields::Named(_)),
                        fields: fields(&v.fields, Some(&e.ident.to_string())),
                        attrs: attrs_text(&v.attrs),
                        disc: v.discriminant.as_ref().map(|(_, x)| tokens(x)),
                    })
                    .collect();
                let name = e.ident.to_string();
                if self.p.enums.contains_key(&name) || self.p.structs.contains_key(&name) {
                    self.p.dup_types.push(name.clone());
                }
                self.p.enums.entry(name.clone()).or_insert(EnumInfo {
                    name,
                    krate: self.krate.clone(),
                    file: self.file.clone(),
                    variants,
                    attrs: attrs_text(&e.attrs),
                });
            }
            syn::Item::Struct(s) => {
                if is_test_attr(&s.attrs) {
                    return;
                }
                let name = s.ident.to_string();
                if self.p.enums.contains_key(&name) || self.p.structs.contains_key(&name) {
                    self.p.dup_types.push(name.clone());
                }
                let si = StructInfo {
                    name: name.clone(),
                    krate: self.krate.clone(),
                    file: self.file.clone(),
                    named: matches!(s.fields, syn::Fields::Named(_)),
                    fields: fields(&s.fields, Some(&name)),
                    attrs: attrs_text(&s.attrs),
                };
                self.p.structs.entry(name).or_insert(si);
            }
            syn::Item::Const(c) => {
                self.p.consts.entry(c.ident.to_string()).or_default().push((
                    self.krate.clone(),
                    None,
                    (*c.expr).clone(),
                    self.file.clone(),
                ));
            }
            syn::Item::Static(c) => {
                self.p.consts.entry(c.ident.to_string()).or_default().push((
                    self.krate.clone(),
                    Some("static".into()),
                    (*c.expr).clone(),
                    self.file.clone(),
                ));
            }
            syn::Item::Mod(m) => {
                if is_test_attr(&m.attrs) {
                    return;
                }
                if let Some((_, items)) = &m.content {
                    if m.ident == "tests" || m.ident == "test" {
                        return;
                    }
                    let old = self.module.clone();
                    self.module = format!("{}::{}", old, m.ident);
                    self.items(items);
                    self.module = old;
                }
            }
            syn::Item::Type(t) => {
                self.p.type_aliases.insert(t.ident.to_string(), ty_of(&t.ty, None));
            }
            syn::Item::Macro(m) => {
                let name = m
                    .ident
                    .as_ref()
                    .map(|i| i.to_string())
                    .unwrap_or_else(|| format!("{}!", tokens(&m.mac.path).replace(' ', "")));
                if m.ident.is_none() {
                    if let Some(items) = crate::macros::expand(name.trim_end_matches('!'), m.mac.tokens.clone(), self.known) {
                        self.items(&items);
                        self.p.expanded.push(name.trim_end_matches('!').to_string());
                        return;
                    }
                }
                self.p.macros.push((name, self.file.clone(), m.mac.tokens.to_string()));
            }
            _ => {}
        }
    }
    fn add_fn(
        &mut self,
        sig: &syn::Signature,
        block: &syn::Block,
        attrs: &[syn::Attribute],
        is_pub: bool,
        self_ty: Option<String>,
        trait_: Option<String>,
    ) {
        let mut params = vec![];
        let mut has_self = false;
        for a in &sig.inputs {
            match a {
                syn::FnArg::Receiver(_) => has_self = true,
                syn::FnArg::Typed(t) => params.push(((*t.pat).clone(), ty_of(&t.ty, self_ty.as_deref()))),
            }
        }
        let (ret, ret_iter) = match &sig.output {
            syn::ReturnType::Default => (Ty::Tuple(vec![]), false),
            syn::ReturnType::Type(_, t) => (ty_of(t, self_ty.as_deref()), tokens(t).contains("Iterator")),
        };
        let has_mut = tokens(&sig.inputs).contains("& mut ") || tokens(&sig.inputs).contains("&mut ");
        let has_mut = has_mut || sig.inputs.iter().any(|a| match a {
            syn::FnArg::Receiver(r) => r.reference.is_some() && r.mutability.is_some(),
            syn::FnArg::Typed(t) => matches!(&*t.ty, syn::Type::Reference(r) if r.mutability.is_some()),
        });
        let muts = sig
            .inputs
            .iter()
            .map(|a| match a {
                syn::FnArg::Receiver(r) => r.reference.is_some() && r.mutability.is_some(),
                syn::FnArg::Typed(t) => matches!(&*t.ty, syn::Type::Reference(r) if r.mutability.is_some()),
            })
            .collect();
        let idx = self.p.fns.len();
        self.p.by_name.entry(sig.ident.to_string()).or_default().push(idx);
        self.p.fns.push(FnInfo {
            key: String::new(),
            sig: String::new(),
            has_mut,
            muts,
            body_text: tokens(block),
            name: sig.ident.to_string(),
            krate: self.krate.clone(),
            file: self.file.clone(),
            module: self.module.clone(),
            self_ty,
            trait_,
            attrs: attrs_text(attrs),
            has_self,
            params,
            ret,
            ret_iter,
            is_pub,
            block: Rc::new(block.clone()),
            line: sig.ident.span().start().line,
            end_line: block.span().end().line,
        });
        // functions and types declared inside the body
        struct Inner(Vec<syn::Item>);
        impl<'a> syn::visit::Visit<'a> for Inner {
            fn visit_item(&mut self, i: &'a syn::Item) {
                self.0.push(i.clone());
            }
        }
        let mut inner = Inner(vec![]);
        syn::visit::Visit::visit_block(&mut inner, block);
        self.items(&inner.0);
    }
}

fn fields(f: &syn::Fields, self_ty: Option<&str>) -> Vec<FieldInfo> {
    f.iter()
        .enumerate()
        .map(|(i, x)| FieldInfo {
            name: x.ident.as_ref().map(|i| i.to_string()).unwrap_or_else(|| i.to_string()),
            ty: ty_of(&x.ty, self_ty),
            raw: tokens(&x.ty).replace(' ', ""),
            attrs: attrs_text(&x.attrs),
        })
        .collect()
}

pub fn load(repo: &Path, only: Option<&[&str]>) -> Program {
    let mut p = Program::default();
    for (k, dir) in CRATES {
        if let Some(o) = only {
            if !o.contains(k) {
                continue;
            }
        }
        let mut files = vec![];
        walk(&repo.join(dir), &mut files);
        if files.is_empty() {
            p.errors.push(format!("no sources under {}", dir));
        }
        for f in files {
            let rel = f.strip_prefix(repo).unwrap().to_string_lossy().to_string();
            let text = match std::fs::read_to_string(&f) {
                Ok(t) => t,
                Err(e) => {
                    p.errors.push(format!("{}: {}", rel, e));
                    continue;
                }
            };
            match syn::parse_file(&text) {
                Ok(ast) => p.files.push(SrcFile { rel, krate: k.to_string(), ast, text }),
                Err(e) => p.errors.push(format!("{}: {}", rel, e)),
            }
        }
    }
    let files = std::mem::take(&mut p.files);
    let mut known = HashMap::new();
    for f in &files {
        for it in &f.ast.items {
            if let syn::Item::Macro(m) = it {
                if let (Some(n), Some(r)) = (&m.ident, crate::macros::rules_of(m.mac.tokens.clone())) {
                    known.insert(n.to_string(), r);
                }
            }
        }
    }
    for f in &files {
        let module = f
            .rel
            .rsplit("/src/")
            .next()
            .unwrap_or("")
            .trim_end_matches(".rs")
            .trim_end_matches("/mod")
            .replace('/', "::");
        let mut c = Ctx { p: &mut p, krate: f.krate.clone(), file: f.rel.clone(), module, known: &known };
        c.items(&f.ast.items);
    }
    p.files = files;
    let mut n: HashMap<String, usize> = HashMap::new();
    for f in &p.fns {
        *n.entry(f.id()).or_default() += 1;
    }
    let mut used: HashMap<String, usize> = HashMap::new();
    for f in p.fns.iter_mut() {
        let id = f.id();
        let mut k = if n[&id] > 1 { format!("{}@{}", id, f.file) } else { id };
        let c = used.entry(k.clone()).or_default();
        *c += 1;
        if *c > 1 {
            k = format!("{}#{}", k, c);
        }
        f.key = k;
        f.sig = format!("{}{:?}->{:?}", f.has_self, f.params.iter().map(|p| &p.1).collect::<Vec<_>>(), f.ret);
    }
    p
}

impl Program {
    pub fn find_fns(&self, krate: &str, self_ty: Option<&str>, name: &str) -> Vec<usize> {
        self.by_name
            .get(name)
            .map(|v| {
                v.iter()
                    .copied()
                    .filter(|&i| {
                        let f = &self.fns[i];
                        f.krate == krate && (self_ty.is_none() || f.self_ty.as_deref() == self_ty)
                    })
                    .collect()
            })
            .unwrap_or_default()
    }
    pub fn variant(&self, en: &str, v: &str) -> Option<&VariantInfo> {
        self.enums.get(en)?.variants.iter().find(|x| x.name == v)
    }
}
