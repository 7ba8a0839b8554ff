//! Rules read off the current sources alone, without the reference: each says what every
//! tree has to satisfy, names the obligations it found and reports the construct that fails.
use crate::program::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use crate::eval::Ev;
use std::rc::Rc;
use syn::visit::Visit;

pub struct Report {
    pub rule: &'static str,
    pub obligations: usize,
    /// (stable id, place, text)
    pub failures: Vec<(String, String, String)>,
    /// why the rule decided nothing, if it did not
    pub skipped: Option<String>,
}

type Rule = fn(&Program) -> Report;

const TABLE: &[(&str, Rule)] = &[
    ("P01", token_table),
    ("P03", operator_table),
    ("P06", formatter_reads_every_part),
    ("P07", operators_printed),
    ("P09", analysis_reads_every_part),
    ("P09", type_names_name_types),
    ("P13", expressions_typed),
    ("P13", statements_descended_types),
    ("P17", statements_descended_flow),
    ("P18", literals_everywhere),
    ("P19", statements_descended_structure),
    ("P19", written_types_checked),
    ("P21", validators_registered),
    ("P24", queries_pure),
    ("P26", codes_distinct),
    ("P30", results_used),
    ("P32", operands_covered),
    ("P35", lowering_reads_every_part),
    ("P36", opcodes_distinct),
    ("P37", handlers_match_dispatch),
    ("P39", transcript_mirrored),
    ("P40", components_listed),
    ("P47", lookups_in_own_file),
    ("P47", query_recursion),
];

pub fn run(id: &str, p: &Program) -> Vec<Report> {
    TABLE.iter().filter(|(i, _)| *i == id).map(|(_, r)| r(p)).collect()
}

fn squash(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}
fn report(rule: &'static str) -> Report {
    Report { rule, obligations: 0, failures: vec![], skipped: None }
}

// ---------------------------------------------------------------- P01
fn token_table(p: &Program) -> Report {
    let mut r = report("each #[token] spelling belongs to one token, and Display prints a token with a spelling it is recognised from");
    let Some(e) = p.enums.get("TokenType") else {
        r.skipped = Some("no TokenType".into());
        return r;
    };
    let mut by: HashMap<String, String> = HashMap::new();
    let mut spell: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for v in &e.variants {
        for a in &v.attrs {
            let s = squash(a);
            let Some(x) = s.strip_prefix("#[token(\"") else { continue };
            let Some(j) = x.find("\")").or_else(|| x.find("\",")) else { continue };
            let lit = x[..j].to_string();
            r.obligations += 1;
            if let Some(o) = by.insert(lit.clone(), v.name.clone()) {
                r.failures.push((format!("spelling {lit}"), e.file.clone(), format!("`{lit}` is the spelling of both {o} and {}", v.name)));
            }
            spell.entry(v.name.clone()).or_default().push(lit);
        }
    }
    // what Display prints
    for f in p.fns.iter().filter(|f| f.self_ty.as_deref().is_some_and(|t| t.starts_with("TokenType")) && f.name == "fmt" && f.trait_.as_deref().is_some_and(|t| t.starts_with("Display"))) {
        for (pat, body) in arms(&f.block) {
            let mut names = vec![];
            pat_paths(&pat, &mut names);
            for n in names {
                let Some(want) = spell.get(&n) else { continue };
                let mut lits = vec![];
                literals(&body, &mut lits);
                let shown: Vec<String> = lits.into_iter().map(|l| l.replace("{{", "{").replace("}}", "}")).filter(|l| !l.is_empty()).collect();
                if let [one] = shown.as_slice() {
                    r.obligations += 1;
                    if !want.contains(one) {
                        r.failures.push((format!("display {n}"), format!("{}:{}", f.file, f.line), format!("{n} is recognised from {want:?} but shown as `{one}`")));
                    }
                }
            }
        }
    }
    r
}

struct Arms(Vec<(syn::Pat, syn::Expr)>);
impl<'a> Visit<'a> for Arms {
    fn visit_arm(&mut self, a: &'a syn::Arm) {
        self.0.push((a.pat.clone(), (*a.body).clone()));
        syn::visit::visit_arm(self, a);
    }
}
fn arms(b: &syn::Block) -> Vec<(syn::Pat, syn::Expr)> {
    let mut v = Arms(vec![]);
    v.visit_block(b);
    v.0
}
fn pat_paths(p: &syn::Pat, out: &mut Vec<String>) {
    let last = |x: &syn::Path| x.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
    match p {
        syn::Pat::Path(x) => out.push(last(&x.path)),
        syn::Pat::TupleStruct(x) => out.push(last(&x.path)),
        syn::Pat::Struct(x) => out.push(last(&x.path)),
        syn::Pat::Ident(x) => out.push(x.ident.to_string()),
        syn::Pat::Or(o) => o.cases.iter().for_each(|c| pat_paths(c, out)),
        syn::Pat::Paren(x) => pat_paths(&x.pat, out),
        syn::Pat::Reference(x) => pat_paths(&x.pat, out),
        _ => {}
    }
}
fn literals(e: &syn::Expr, out: &mut Vec<String>) {
    fn toks(t: proc_macro2::TokenStream, out: &mut Vec<String>) {
        for x in t {
            match x {
                proc_macro2::TokenTree::Literal(l) => {
                    if let syn::Lit::Str(s) = syn::Lit::new(l) {
                        out.push(s.value());
                    }
                }
                proc_macro2::TokenTree::Group(g) => toks(g.stream(), out),
                _ => {}
            }
        }
    }
    use quote::ToTokens;
    toks(e.to_token_stream(), out);
}

// ---------------------------------------------------------------- coverage of the syntax tree
/// which fields of which variants and structs some code in the files reads
struct Reads {
    /// `E::V` -> fields bound by a pattern (name or position)
    bound: HashMap<String, HashSet<String>>,
    fields: HashSet<String>,
}
impl<'a> Visit<'a> for Reads {
    fn visit_pat_struct(&mut self, s: &'a syn::PatStruct) {
        let v = s.path.segments.last().map(|x| x.ident.to_string()).unwrap_or_default();
        for f in &s.fields {
            if !matches!(&*f.pat, syn::Pat::Wild(_)) {
                let n = match &f.member {
                    syn::Member::Named(i) => i.to_string(),
                    syn::Member::Unnamed(i) => i.index.to_string(),
                };
                let unused = matches!(&*f.pat, syn::Pat::Ident(i) if i.ident.to_string().starts_with('_'));
                if !unused {
                    self.bound.entry(v.clone()).or_default().insert(n);
                }
            }
        }
        syn::visit::visit_pat_struct(self, s);
    }
    fn visit_pat_tuple_struct(&mut self, s: &'a syn::PatTupleStruct) {
        let v = s.path.segments.last().map(|x| x.ident.to_string()).unwrap_or_default();
        let n = s.elems.len();
        for (i, e) in s.elems.iter().enumerate() {
            let unused = matches!(e, syn::Pat::Wild(_) | syn::Pat::Rest(_))
                || matches!(e, syn::Pat::Ident(i) if i.ident.to_string().starts_with('_'));
            if !unused {
                // positions after a `..` count from the end: take them all
                if s.elems.iter().take(i).any(|x| matches!(x, syn::Pat::Rest(_))) {
                    for k in 0..8 {
                        self.bound.entry(v.clone()).or_default().insert(k.to_string());
                    }
                }
                let _ = n;
                self.bound.entry(v.clone()).or_default().insert(i.to_string());
            }
        }
        syn::visit::visit_pat_tuple_struct(self, s);
    }
    fn visit_expr_field(&mut self, f: &'a syn::ExprField) {
        if let syn::Member::Named(i) = &f.member {
            self.fields.insert(i.to_string());
        }
        syn::visit::visit_expr_field(self, f);
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        // conditions and arguments inside macros
        use syn::parse::Parser;
        type Args = syn::punctuated::Punctuated<syn::Expr, syn::Token![,]>;
        if let Ok(a) = Args::parse_terminated.parse2(m.tokens.clone()) {
            for e in &a {
                self.visit_expr(e);
            }
        } else {
            // `matches!(x, P { .. })` and friends: take any identifier as read
            let s = m.tokens.to_string();
            let mut dot = false;
            for t in m.tokens.clone() {
                match t {
                    proc_macro2::TokenTree::Punct(c) => dot = c.as_char() == '.',
                    proc_macro2::TokenTree::Ident(i) if dot => {
                        self.fields.insert(i.to_string());
                        dot = false;
                    }
                    _ => dot = false,
                }
            }
            let _ = s;
        }
    }
}
struct Callees(HashSet<String>);
impl<'a> Visit<'a> for Callees {
    fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
        if let syn::Expr::Path(p) = &*c.func {
            if let Some(s) = p.path.segments.last() {
                self.0.insert(s.ident.to_string());
            }
        }
        syn::visit::visit_expr_call(self, c);
    }
    fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
        self.0.insert(m.method.to_string());
        syn::visit::visit_expr_method_call(self, m);
    }
}
fn reads(p: &Program, files: &[&str]) -> (Reads, usize) {
    let mut r = Reads { bound: HashMap::new(), fields: HashSet::new() };
    let mut n = 0;
    // the functions of the files, and the helpers elsewhere they hand the work to
    let mut todo: Vec<usize> = (0..p.fns.len()).filter(|&i| files.iter().any(|x| p.fns[i].file.contains(x))).collect();
    let home: HashSet<String> = todo.iter().map(|&i| p.fns[i].krate.clone()).collect();
    let mut seen: BTreeSet<usize> = BTreeSet::new();
    while let Some(i) = todo.pop() {
        if !seen.insert(i) {
            continue;
        }
        let f = &p.fns[i];
        n += 1;
        r.visit_block(&f.block);
        let mut c = Callees(HashSet::new());
        c.visit_block(&f.block);
        for w in &c.0 {
            if crate::calls::is_common_std(w) || matches!(w.as_str(), "new" | "default" | "from" | "fmt" | "format" | "parse" | "parse_file") {
                continue;
            }
            let Some(v) = p.by_name.get(w) else { continue };
            // a name several functions share says nothing about which one is called
            if let [j] = v.as_slice() {
                if home.contains(&p.fns[*j].krate) || p.fns[*j].krate == "parser" {
                    todo.push(*j);
                }
            }
        }
    }
    (r, n)
}
const AST: &str = "parser/src/parser.rs";

fn coverage(
    p: &Program,
    rule: &'static str,
    files: &[&str],
    enums: &[&str],
    structs: &[&str],
    file_of: &str,
    want: &dyn Fn(&str) -> bool,
    exempt: &[&str],
) -> Report {
    let mut r = report(rule);
    let (rd, n) = reads(p, files);
    if n == 0 {
        r.skipped = Some(format!("no function in {files:?}"));
        return r;
    }
    for e in enums {
        let Some(en) = p.enums.get(*e).filter(|x| x.file.contains(file_of)) else { continue };
        for v in &en.variants {
            for f in &v.fields {
                if !want(&f.raw) {
                    continue;
                }
                let id = format!("{}::{}.{}", e, v.name, f.name);
                if exempt.contains(&id.as_str()) {
                    continue;
                }
                r.obligations += 1;
                if !rd.bound.get(&v.name).is_some_and(|b| b.contains(&f.name)) {
                    r.failures.push((format!("unread {id}"), en.file.clone(), format!("no code in {} reads {id}", files.join(", "))));
                }
            }
        }
    }
    for s in structs {
        let Some(st) = p.structs.get(*s).filter(|x| x.file.contains(file_of)) else { continue };
        for f in &st.fields {
            if !want(&f.raw) {
                continue;
            }
            let id = format!("{}.{}", s, f.name);
            if exempt.contains(&id.as_str()) {
                continue;
            }
            r.obligations += 1;
            if !rd.fields.contains(&f.name) && !rd.bound.get(*s).is_some_and(|b| b.contains(&f.name)) {
                r.failures.push((format!("unread {id}"), st.file.clone(), format!("no code in {} reads {id}", files.join(", "))));
            }
        }
    }
    r
}
const AST_ENUMS: &[&str] = &["Expression", "Statement", "Pattern", "TypeExpr", "TopLevelItem", "UseItems", "NamedType"];
const AST_STRUCTS: &[&str] = &["Parameter", "ConstDef", "FunctionDef", "StructDef", "UseStmt", "ParsedModule"];

fn formatter_reads_every_part(p: &Program) -> Report {
    coverage(
        p,
        "every field of every syntax-tree node is read by the formatter's rules",
        &["compiler/formatter/src/"],
        AST_ENUMS,
        AST_STRUCTS,
        AST,
        &|t| !squash(t).contains("SimpleSpan"),
        &[],
    )
}
fn holds_code(t: &str) -> bool {
    let s = squash(t);
    ["Expression", "Statement", "TypeExpr", "Pattern", "Parameter", "ConstDef", "FunctionDef", "StructDef", "UseStmt", "TopLevelItem"]
        .iter()
        .any(|x| s.contains(x))
}
fn analysis_reads_every_part(p: &Program) -> Report {
    coverage(
        p,
        "every field that holds an expression, statement, pattern or type is read by the semantic analysis",
        &["semantic/src/semantic_index.rs", "semantic/src/visitor.rs"],
        AST_ENUMS,
        AST_STRUCTS,
        AST,
        &|t| holds_code(t),
        &[],
    )
}
fn expressions_typed(p: &Program) -> Report {
    coverage(
        p,
        "every sub-expression of an expression is read by the type rules",
        &["semantic/src/type_resolution.rs", "validation/type_validator.rs"],
        &["Expression", "Statement"],
        &[],
        AST,
        &|t| squash(t).contains("Expression"),
        &[],
    )
}
fn lowering_reads_every_part(p: &Program) -> Report {
    coverage(
        p,
        "every sub-expression and statement is read by the lowering",
        &["mir/src/lowering"],
        &["Expression", "Statement"],
        &[],
        AST,
        &|t| {
            // the types written in the source are taken from the semantic analysis
            holds_code(&squash(t).replace("TypeExpr", ""))
        },
        &[],
    )
}

// ---------------------------------------------------------------- P32
fn operands_covered(p: &Program) -> Report {
    let mut r = report("every operand field of every MIR instruction and terminator is read by the operand collection and by the operand replacement");
    for (what, fns) in [("collection", &["used_values", "collect_used_values"][..]), ("replacement", &["replace_value_uses", "replace_value_id", "replace_operands", "replace_values"][..])] {
        for (en, file) in [("InstructionKind", "mir/src/instruction.rs"), ("Terminator", "mir/src/terminator.rs")] {
            let Some(e) = p.enums.get(en) else { continue };
            let mut rd = Reads { bound: HashMap::new(), fields: HashSet::new() };
            let mut n = 0;
            for f in p.fns.iter().filter(|f| f.file.contains(file) && fns.contains(&f.name.as_str())) {
                n += 1;
                rd.visit_block(&f.block);
            }
            if n == 0 {
                r.skipped = Some(format!("no {what} function of {en}"));
                continue;
            }
            for v in &e.variants {
                for f in &v.fields {
                    let t = squash(&f.raw);
                    let operand = t.contains("Value") && !t.contains("ValueId") || t == "Place";
                    if !operand {
                        continue;
                    }
                    r.obligations += 1;
                    if !rd.bound.get(&v.name).is_some_and(|b| b.contains(&f.name)) {
                        r.failures.push((
                            format!("{what} {en}::{}.{}", v.name, f.name),
                            e.file.clone(),
                            format!("operand {en}::{}.{} is not part of the operand {what}", v.name, f.name),
                        ));
                    }
                }
            }
        }
    }
    r
}

// ---------------------------------------------------------------- P18, P19 (findings)
fn literals_everywhere(p: &Program) -> Report {
    let mut r = report("the literal range check is applied to every literal expression, wherever it stands");
    let own: Vec<&FnInfo> = p.fns.iter().filter(|f| f.file.contains("literal_validator.rs")).collect();
    let Some(f) = own.iter().find(|f| f.name == "validate") else {
        r.skipped = Some("no literal validator".into());
        return r;
    };
    r.obligations = 1;
    let walks = own.iter().any(|f| ["all_expressions", "walk_expr", "visit_expr", "walk_statement", "visit_stmt"].iter().any(|w| f.body_text.contains(w)));
    if !walks {
        r.failures.push((
            "literal range only checked in initialisers".into(),
            format!("{}:{}", f.file, f.line),
            "LiteralValidator::validate looks at the initialisers of let and const definitions only: a literal that is an argument, operand, return value, assigned value, field or element is not range-checked".into(),
        ));
    }
    r
}
// ---------------------------------------------------------------- P21
fn validators_registered(p: &Program) -> Report {
    let mut r = report("every type that implements Validator is put into the registry");
    let mut all = String::new();
    for f in p.fns.iter().filter(|f| f.file.contains("validation/validator.rs") || f.file.ends_with("semantic/src/db.rs")) {
        all += &f.body_text;
        all.push(' ');
    }
    let ws: HashSet<String> = all.split(|c: char| !c.is_alphanumeric() && c != '_').map(|s| s.to_string()).collect();
    for f in p.fns.iter().filter(|f| f.name == "validate" && f.trait_.as_deref() == Some("Validator")) {
        let Some(t) = &f.self_ty else { continue };
        r.obligations += 1;
        if !ws.contains(t) {
            r.failures.push((format!("unregistered {t}"), format!("{}:{}", f.file, f.line), format!("{t} implements Validator but is not put into any registry")));
        }
    }
    r
}

// ---------------------------------------------------------------- P24
const IMPURE: &[&str] = &[
    "std :: fs", "fs :: read", "fs :: write", "File :: open", "env :: var", "env :: args", "env :: current_dir",
    "SystemTime :: now", "Instant :: now", "thread_rng", "rand ::", "RandomState", "thread :: spawn", "process :: id",
];
fn queries_pure(p: &Program) -> Report {
    let mut r = report("no function reachable from a tracked query reads files, environment, clock or random numbers, or touches global mutable state");
    // global mutable state
    let mut globals: BTreeMap<String, String> = BTreeMap::new();
    for f in &p.files {
        if !f.rel.contains("/src/") || f.rel.contains("/tests/") {
            continue;
        }
        for it in &f.ast.items {
            match it {
                syn::Item::Static(s) => {
                    let t = squash(&tokens(&s.ty));
                    let m = !matches!(s.mutability, syn::StaticMutability::None);
                    let cell = ["Cell", "Mutex", "RwLock", "Atomic", "Once", "Lazy", "DashMap"].iter().any(|c| t.contains(c));
                    // a value computed once from nothing is a constant
                    let konst = (t.contains("LazyLock") || t.contains("OnceLock") || t.contains("Lazy<")) && !["Mutex", "RwLock", "RefCell", "Atomic", "DashMap"].iter().any(|c| t.contains(c));
                    if m || (cell && !konst) {
                        globals.insert(s.ident.to_string(), f.rel.clone());
                    }
                }
                syn::Item::Macro(m) if m.mac.path.is_ident("thread_local") => {
                    for t in m.mac.tokens.to_string().split("static ").skip(1) {
                        let n = t.split(|c: char| !c.is_alphanumeric() && c != '_').next().unwrap_or("").to_string();
                        globals.insert(n, f.rel.clone());
                    }
                }
                _ => {}
            }
        }
    }
    // names called, by function; resolved by name within the analysis crates
    let scope = |f: &FnInfo| ["semantic", "parser", "diagnostics"].contains(&f.krate.as_str());
    let mut seen: BTreeSet<usize> = BTreeSet::new();
    let mut todo: Vec<usize> = vec![];
    for (i, f) in p.fns.iter().enumerate() {
        if f.attrs.iter().any(|a| squash(a).contains("salsa::tracked") || squash(a).contains("tracked")) && scope(f) {
            r.obligations += 1;
            todo.push(i);
        }
    }
    while let Some(i) = todo.pop() {
        if !seen.insert(i) {
            continue;
        }
        let f = &p.fns[i];
        for w in f.body_text.split(|c: char| !c.is_alphanumeric() && c != '_') {
            if crate::calls::is_common_std(w) || matches!(w, "new" | "default" | "from" | "fmt" | "main" | "set_text" | "value" | "name" | "data" | "span") {
                continue;
            }
            if let Some(v) = p.by_name.get(w) {
                todo.extend(v.iter().copied().filter(|&j| scope(&p.fns[j])));
            }
        }
    }
    for &i in &seen {
        let f = &p.fns[i];
        r.obligations += 1;
        for w in IMPURE {
            if squash(&f.body_text).contains(&squash(w)) {
                r.failures.push((format!("impure {} {}", f.id(), squash(w)), format!("{}:{}", f.file, f.line), format!("{} is reachable from a tracked query and uses {}", f.id(), squash(w))));
            }
        }
        for (g, at) in &globals {
            if f.body_text.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == g) {
                r.failures.push((format!("global {} {}", f.id(), g), format!("{}:{}", f.file, f.line), format!("{} is reachable from a tracked query and uses the mutable global {} ({})", f.id(), g, at)));
            }
        }
    }
    r
}

// ---------------------------------------------------------------- P26
fn codes_distinct(p: &Program) -> Report {
    let mut r = report("every DiagnosticCode maps to a number of its own");
    let Some(e) = p.enums.get("DiagnosticCode") else {
        r.skipped = Some("no DiagnosticCode".into());
        return r;
    };
    let all: HashSet<&str> = e.variants.iter().map(|v| v.name.as_str()).collect();
    for f in p.fns.iter().filter(|f| f.file.contains("diagnostics/src") && f.name == "from" && f.self_ty.as_deref() == Some("u32")) {
        let mut by: HashMap<String, String> = HashMap::new();
        for (pat, body) in arms(&f.block) {
            let syn::Expr::Lit(l) = &body else { continue };
            let syn::Lit::Int(n) = &l.lit else { continue };
            let mut names = vec![];
            pat_paths(&pat, &mut names);
            for v in names.into_iter().filter(|v| all.contains(v.as_str())) {
                r.obligations += 1;
                if let Some(o) = by.insert(n.base10_digits().to_string(), v.clone()) {
                    r.failures.push((format!("code {}", n.base10_digits()), format!("{}:{}", f.file, f.line), format!("{o} and {v} share the code {}", n.base10_digits())));
                }
            }
        }
    }
    if r.obligations == 0 {
        r.skipped = Some("no code table found".into());
    }
    r
}

// ---------------------------------------------------------------- P30
const FALLIBLE: &[&str] = &[
    "read_to_string", "read_dir", "write", "create_dir", "create_dir_all", "canonicalize", "metadata", "copy", "rename",
    "remove_file", "remove_dir_all", "set_permissions", "write_all", "flush", "strip_prefix", "set_current_dir",
];
struct Drops<'p> {
    p: &'p Program,
    found: Vec<(usize, String)>,
    calls: usize,
}
impl Drops<'_> {
    fn fallible(&self, e: &syn::Expr) -> Option<String> {
        match e {
            syn::Expr::Call(c) => {
                let syn::Expr::Path(p) = &*c.func else { return None };
                let n = p.path.segments.last()?.ident.to_string();
                let ws = self.p.by_name.get(&n).is_some_and(|v| !v.is_empty() && v.iter().all(|&i| self.p.fns[i].ret.head() == Some("Result")));
                let fs = FALLIBLE.contains(&n.as_str()) && p.path.segments.len() > 1;
                (ws || fs).then_some(n)
            }
            syn::Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if matches!(n.as_str(), "with_context" | "context" | "map_err") {
                    return self.fallible(&m.receiver);
                }
                FALLIBLE.contains(&n.as_str()).then_some(n)
            }
            syn::Expr::Paren(p) => self.fallible(&p.expr),
            _ => None,
        }
    }
    fn drop_(&mut self, e: &syn::Expr, how: &str) {
        use syn::spanned::Spanned;
        if let Some(n) = self.fallible(e) {
            self.found.push((e.span().start().line, format!("the result of {n} is {how}")));
        }
    }
}
impl<'a> Visit<'a> for Drops<'_> {
    fn visit_stmt(&mut self, s: &'a syn::Stmt) {
        match s {
            syn::Stmt::Expr(e, Some(_)) => {
                self.drop_(e, "discarded");
                if let syn::Expr::MethodCall(m) = e {
                    if m.method == "ok" || m.method == "unwrap_or_default" || m.method == "is_ok" || m.method == "is_err" {
                        self.drop_(&m.receiver, "discarded");
                    }
                }
            }
            syn::Stmt::Local(l) => {
                if let (syn::Pat::Wild(_), Some(i)) = (crate::expr::strip_type(&l.pat), &l.init) {
                    self.drop_(&i.expr, "discarded");
                }
            }
            _ => {}
        }
        syn::visit::visit_stmt(self, s);
    }
    fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
        if self.fallible(&syn::Expr::MethodCall(m.clone())).is_some() {
            self.calls += 1;
        }
        if m.method == "unwrap_or_default" {
            self.drop_(&m.receiver, "replaced by a default");
        }
        syn::visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
        if self.fallible(&syn::Expr::Call(c.clone())).is_some() {
            self.calls += 1;
        }
        syn::visit::visit_expr_call(self, c);
    }
}
fn results_used(p: &Program) -> Report {
    let mut r = report("no result of a file operation or fallible project function is discarded or defaulted");
    for f in p.fns.iter().filter(|f| ["cairo-m-project/src", "cargo-cairo-m/src", "compiler/compiler/src"].iter().any(|x| f.file.contains(x))) {
        let mut d = Drops { p, found: vec![], calls: 0 };
        d.visit_block(&f.block);
        r.obligations += d.calls;
        for (l, t) in d.found {
            r.failures.push((format!("{} {}", f.id(), t), format!("{}:{}", f.file, l), format!("in {}: {}", f.id(), t)));
        }
    }
    r
}

// ---------------------------------------------------------------- P36
fn opcodes_distinct(p: &Program) -> Report {
    let mut r = report("every machine instruction has an opcode of its own");
    let Some(f) = p.files.iter().find(|f| f.rel.contains("common/src/instruction.rs")) else {
        r.skipped = Some("no instruction table".into());
        return r;
    };
    for it in &f.ast.items {
        let syn::Item::Macro(m) = it else { continue };
        if !m.mac.path.is_ident("instructions") {
            continue;
        }
        let ts: Vec<proc_macro2::TokenTree> = m.mac.tokens.clone().into_iter().collect();
        let mut by: HashMap<String, String> = HashMap::new();
        let mut names: HashSet<String> = HashSet::new();
        for w in ts.windows(3) {
            if let (proc_macro2::TokenTree::Ident(n), proc_macro2::TokenTree::Punct(e), proc_macro2::TokenTree::Literal(l)) = (&w[0], &w[1], &w[2]) {
                if e.as_char() != '=' {
                    continue;
                }
                r.obligations += 1;
                names.insert(n.to_string());
                let digits: String = l.to_string().replace('_', "").chars().take_while(|c| c.is_ascii_digit()).collect();
                if let Some(o) = by.insert(digits.clone(), n.to_string()) {
                    r.failures.push((format!("opcode {digits}"), f.rel.clone(), format!("{o} and {n} share opcode {digits}")));
                }
            }
        }
    }
    if r.obligations == 0 {
        r.skipped = Some("no instruction table".into());
    }
    r
}

// ---------------------------------------------------------------- P39
struct Transcript(Vec<String>);
impl<'a> Visit<'a> for Transcript {
    fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
        syn::visit::visit_expr_method_call(self, m);
        let uses = m.args.iter().any(|a| {
            let s = squash(&tokens(a));
            s == "channel" || s == "&mutchannel"
        });
        let recv = squash(&tokens(&m.receiver));
        let root = recv.rsplit('.').next().unwrap_or("").trim_end_matches("()").to_string();
        if uses {
            let n = m.method.to_string();
            if n == "commit" {
                self.0.push("commit".into());
            } else {
                self.0.push(format!("{root}.{n}"));
            }
        } else if recv == "channel" && m.method.to_string().starts_with("mix") {
            let a = m.args.iter().map(|a| squash(&tokens(a)).rsplit('.').next().unwrap_or("").to_string()).collect::<Vec<_>>();
            self.0.push(format!("{}({})", m.method, a.join(",")));
        }
    }
    fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
        syn::visit::visit_expr_call(self, c);
        let uses = c.args.iter().any(|a| {
            let s = squash(&tokens(a));
            s == "channel" || s == "&mutchannel"
        });
        if uses {
            let n = squash(&tokens(&c.func)).split("::<").next().unwrap_or("").to_string();
            self.0.push(match n.as_str() {
                "prove" | "verify" => "stark".into(),
                x if x.ends_with("::grind") => return,
                x => x.to_string(),
            });
        }
    }
}
fn transcript_mirrored(p: &Program) -> Report {
    let mut r = report("prover and verifier put the same values into the transcript and draw from it in the same order");
    let seq = |name: &str| -> Option<(Vec<String>, String)> {
        let f = p.fns.iter().find(|f| f.name == name)?;
        let mut t = Transcript(vec![]);
        t.visit_block(&f.block);
        Some((t.0, format!("{}:{}", f.file, f.line)))
    };
    let (Some((a, at)), Some((b, bt))) = (seq("prove_cairo_m"), seq("verify_cairo_m")) else {
        r.skipped = Some("prover or verifier entry point not found".into());
        return r;
    };
    // helpers that take the channel hide part of the order
    let helper = |s: &String| !s.contains('.') && !s.contains('(') && s != "commit" && s != "stark" && !s.contains("::");
    if a.iter().chain(&b).any(helper) {
        r.skipped = Some("the transcript is handed to a helper".into());
        return r;
    }
    let norm = |v: &[String]| -> Vec<String> { v.to_vec() };
    let (x, y) = (norm(&a), norm(&b));
    // the preprocessed commitment is fixed: prover and verifier may differ in where the public data goes only if both agree
    r.obligations = x.len().max(y.len());
    if x != y {
        let i = x.iter().zip(&y).position(|(a, b)| a != b).unwrap_or(x.len().min(y.len()));
        let g = |v: &[String]| v.get(i).cloned().unwrap_or_else(|| "nothing".into());
        r.failures.push((format!("step {i} {} {}", g(&x), g(&y)), bt, format!("step {i} of the transcript is {} in the prover ({at}) but {} in the verifier", g(&x), g(&y))));
    }
    r
}

// ---------------------------------------------------------------- P40
fn components_listed(p: &Program) -> Report {
    let mut r = report("every component field of Claim, InteractionClaim and Components takes part in every function that goes through the components");
    for (st, fns) in [
        ("Claim", &["log_sizes", "mix_into"][..]),
        ("InteractionClaim", &["claimed_sum", "mix_into"][..]),
        ("Components", &["provers", "verifiers"][..]),
    ] {
        // the one in components/mod.rs
        for f in p.fns.iter().filter(|f| f.file.ends_with("prover/src/components/mod.rs") && f.self_ty.as_deref() == Some(st) && fns.contains(&f.name.as_str())) {
            let Some(fields) = struct_in(p, "prover/src/components/mod.rs", st) else { continue };
            let ws: HashSet<&str> = f.body_text.split(|c: char| !c.is_alphanumeric() && c != '_').collect();
            for x in fields {
                r.obligations += 1;
                if !ws.contains(x.as_str()) {
                    r.failures.push((format!("{}::{} {}", st, f.name, x), format!("{}:{}", f.file, f.line), format!("{st}::{} leaves out the component {x}", f.name)));
                }
            }
        }
    }
    if r.obligations == 0 {
        r.skipped = Some("no component lists found".into());
    }
    r
}
fn struct_in(p: &Program, file: &str, name: &str) -> Option<Vec<String>> {
    let f = p.files.iter().find(|f| f.rel.ends_with(file))?;
    f.ast.items.iter().find_map(|i| match i {
        syn::Item::Struct(s) if s.ident == name => {
            Some(s.fields.iter().filter_map(|x| x.ident.as_ref().map(|i| i.to_string())).collect())
        }
        _ => None,
    })
}

// ---------------------------------------------------------------- P03, P07
/// the spellings `#[token]` gives each token
fn spellings(p: &Program) -> HashMap<String, Vec<String>> {
    let mut m: HashMap<String, Vec<String>> = HashMap::new();
    if let Some(e) = p.enums.get("TokenType") {
        for v in &e.variants {
            for a in &v.attrs {
                let s = squash(a);
                let Some(x) = s.strip_prefix("#[token(\"") else { continue };
                let Some(j) = x.find("\")").or_else(|| x.find("\",")) else { continue };
                m.entry(v.name.clone()).or_default().push(x[..j].to_string());
            }
        }
    }
    m
}
/// which operator each token is parsed as, read off the grammar of the expression parser
fn op_calls(p: &Program) -> Vec<(String, String, String)> {
    let mut out = BTreeSet::new();
    let mut ev = Ev::new(p, Rc::new(|f: &FnInfo| !f.is_pub && f.file.ends_with(AST)));
    ev.t.long = true;
    for (i, f) in p.fns.iter().enumerate().filter(|(_, f)| {
        let t = if f.file.ends_with(AST) && f.trait_.is_none() { tokens_of(&f.block) } else { String::new() };
        t.contains("TokenType") && (t.contains("BinaryOp::") || t.contains("UnaryOp::"))
    }) {
        let _ = f;
        let sum = crate::compare::summarise(&mut ev, i);
        for e in &sum.effs {
            let mut rest = e.term.as_str();
            while let Some(j) = rest.find("just(TokenType::") {
                rest = &rest[j + 16..];
                let tok: String = rest.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                let after = rest[tok.len()..].trim_start_matches([')', ',', ' ', '(']);
                for ty in ["BinaryOp", "UnaryOp"] {
                    if let Some(o) = after.strip_prefix(ty).and_then(|x| x.strip_prefix("::")) {
                        let op: String = o.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                        out.insert((ty.to_string(), op, tok.clone()));
                    }
                }
            }
        }
    }
    out.into_iter().collect()
}
fn tokens_of(b: &syn::Block) -> String {
    squash(&quote::ToTokens::to_token_stream(b).to_string())
}
fn operator_table(p: &Program) -> Report {
    let mut r = report("every binary operator is parsed from exactly one token, and no token is parsed as two binary operators");
    let calls: Vec<_> = op_calls(p).into_iter().filter(|c| c.0 == "BinaryOp").collect();
    let Some(e) = p.enums.get("BinaryOp").filter(|e| e.file.ends_with(AST)) else {
        r.skipped = Some("no BinaryOp in the parser".into());
        return r;
    };
    if calls.is_empty() {
        r.skipped = Some("the operators are not written as (token, operator) pairs".into());
        return r;
    }
    let mut tok: HashMap<&String, &String> = HashMap::new();
    for v in &e.variants {
        r.obligations += 1;
        let mine: BTreeSet<&String> = calls.iter().filter(|c| c.1 == v.name).map(|c| &c.2).collect();
        // built some other way: not decided here
        let elsewhere = mine.is_empty()
            && p.fns.iter().any(|f| f.file.ends_with(AST) && f.trait_.is_none() && tokens_of(&f.block).contains(&format!("BinaryOp::{}", v.name)));
        if mine.len() != 1 && !elsewhere {
            r.failures.push((format!("operator {}", v.name), e.file.clone(), format!("BinaryOp::{} is parsed from {:?}", v.name, mine)));
        }
    }
    for (_, op, t) in &calls {
        if let Some(o) = tok.insert(t, op) {
            if o != op {
                r.failures.push((format!("token {t}"), e.file.clone(), format!("TokenType::{t} is parsed as both {o} and {op}")));
            }
        }
    }
    r
}
fn operators_printed(p: &Program) -> Report {
    let mut r = report("an operator is printed with the spelling of the token it is parsed from");
    let sp = spellings(p);
    let calls = op_calls(p);
    for f in p.fns.iter().filter(|f| f.name == "fmt" && f.file.ends_with(AST) && f.trait_.as_deref().is_some_and(|t| t.contains("Display"))) {
        let Some(ty) = f.self_ty.clone().filter(|t| t == "BinaryOp" || t == "UnaryOp") else { continue };
        for (pat, body) in arms(&f.block) {
            let mut names = vec![];
            pat_paths(&pat, &mut names);
            let mut lits = vec![];
            literals(&body, &mut lits);
            let [one] = lits.as_slice() else { continue };
            for n in names {
                for c in calls.iter().filter(|c| c.0 == ty && c.1 == n) {
                    let Some(want) = sp.get(&c.2) else { continue };
                    r.obligations += 1;
                    if !want.contains(one) {
                        r.failures.push((format!("printed {ty}::{n}"), format!("{}:{}", f.file, f.line), format!("{ty}::{n} is parsed from {want:?} but printed as `{one}`")));
                    }
                }
            }
        }
    }
    if r.obligations == 0 {
        r.skipped = Some("no printed operator table found".into());
    }
    r
}

// ---------------------------------------------------------------- P13, P17, P19
/// a validator that walks statements has to go into every statement that holds statements
fn descends(p: &Program, rule: &'static str, file: &'static str, also: &[&'static str]) -> Report {
    let mut files = vec![file];
    files.extend(also);
    coverage(
        p,
        rule,
        &files,
        &["Statement"],
        &[],
        AST,
        &|t| squash(t).contains("Statement"),
        // the loop head of a `for` is a let and an assignment: the flow analysis has nothing to find in them
        if file.contains("control_flow") { &["Statement::For.init", "Statement::For.step"] } else { &[] },
    )
}
fn statements_descended_types(p: &Program) -> Report {
    descends(p, "the type checks go into every statement held by a statement", "validation/type_validator.rs", &[])
}
fn statements_descended_flow(p: &Program) -> Report {
    descends(p, "the control-flow checks go into every statement body", "validation/control_flow_validator.rs", &[])
}
fn statements_descended_structure(p: &Program) -> Report {
    descends(p, "the structural checks go into every statement held by a statement", "validation/structural_validator.rs", &[])
}

fn written_types_checked(p: &Program) -> Report {
    coverage(
        p,
        "every type written in a declaration, statement or expression, and every type inside it, is read by the type checks",
        &["validation/type_validator.rs"],
        &["Expression", "Statement", "TypeExpr"],
        &["Parameter", "ConstDef", "FunctionDef", "StructDef"],
        AST,
        &|t| squash(t).contains("TypeExpr"),
        &[],
    )
}

// ---------------------------------------------------------------- P37
struct Extracts(Vec<(String, BTreeSet<String>)>);
impl<'a> Visit<'a> for Extracts {
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        if m.path.segments.last().is_some_and(|s| s.ident == "extract_as") {
            let t: Vec<proc_macro2::TokenTree> = m.tokens.clone().into_iter().collect();
            if let (Some(proc_macro2::TokenTree::Ident(v)), Some(last)) = (t.get(2), t.get(4)) {
                let mut fs = BTreeSet::new();
                match last {
                    proc_macro2::TokenTree::Ident(i) => {
                        fs.insert(i.to_string());
                    }
                    proc_macro2::TokenTree::Group(g) => {
                        for x in g.stream() {
                            if let proc_macro2::TokenTree::Ident(i) = x {
                                fs.insert(i.to_string());
                            }
                        }
                    }
                    _ => {}
                }
                self.0.push((v.to_string(), fs));
            }
        }
    }
}
/// the operands each instruction declares
fn instruction_fields(p: &Program) -> HashMap<String, BTreeSet<String>> {
    let mut out = HashMap::new();
    for f in p.files.iter().filter(|f| f.rel.contains("common/src/instruction.rs")) {
        for it in &f.ast.items {
            let syn::Item::Macro(m) = it else { continue };
            if !m.mac.path.is_ident("instructions") {
                continue;
            }
            let ts: Vec<proc_macro2::TokenTree> = m.mac.tokens.clone().into_iter().collect();
            for w in ts.windows(4) {
                if let (proc_macro2::TokenTree::Ident(n), proc_macro2::TokenTree::Punct(e), proc_macro2::TokenTree::Literal(_), proc_macro2::TokenTree::Group(g)) =
                    (&w[0], &w[1], &w[2], &w[3])
                {
                    if e.as_char() != '=' {
                        continue;
                    }
                    let inner: Vec<proc_macro2::TokenTree> = g.stream().into_iter().collect();
                    let mut fs = BTreeSet::new();
                    for x in inner.windows(2) {
                        if let (proc_macro2::TokenTree::Ident(a), proc_macro2::TokenTree::Punct(c)) = (&x[0], &x[1]) {
                            if c.as_char() == ':' {
                                fs.insert(a.to_string());
                            }
                        }
                    }
                    out.insert(n.to_string(), fs);
                }
            }
        }
    }
    out
}
fn handlers_match_dispatch(p: &Program) -> Report {
    let mut r = report("the handler an instruction is dispatched to decodes that instruction, with all its operands, and handles no other");
    let fields = instruction_fields(p);
    let Some(d) = p.fns.iter().find(|f| f.name == "instruction_to_fn" && f.file.contains("runner/src/vm")) else {
        r.skipped = Some("no dispatch table".into());
        return r;
    };
    let mut handler: HashMap<String, String> = HashMap::new();
    let mut seen: HashMap<String, String> = HashMap::new();
    for (pat, body) in arms(&d.block) {
        let mut names = vec![];
        pat_paths(&pat, &mut names);
        let syn::Expr::Path(h) = &body else { continue };
        let Some(h) = h.path.segments.last().map(|s| s.ident.to_string()) else { continue };
        for n in names {
            r.obligations += 1;
            if let Some(o) = seen.insert(h.clone(), n.clone()) {
                r.failures.push((format!("handler {h}"), format!("{}:{}", d.file, d.line), format!("{o} and {n} are both dispatched to {h}")));
            }
            handler.insert(h.clone(), n);
        }
    }
    let check = |r: &mut Report, h: &str, v: &str, fs: Option<&BTreeSet<String>>, at: String| {
        let Some(want) = handler.get(h) else { return };
        r.obligations += 1;
        if want != v {
            r.failures.push((format!("decodes {h}"), at.clone(), format!("{want} is dispatched to {h}, which decodes {v}")));
        }
        if let (Some(fs), Some(all)) = (fs, fields.get(v)) {
            if fs != all {
                r.failures.push((format!("operands {h}"), at, format!("{h} decodes {fs:?} of {v}, which has {all:?}")));
            }
        }
    };
    for f in p.fns.iter().filter(|f| f.file.contains("runner/src/vm/instructions/")) {
        let mut e = Extracts(vec![]);
        e.visit_block(&f.block);
        if let [(v, fs)] = e.0.as_slice() {
            check(&mut r, &f.name, v, Some(fs), format!("{}:{}", f.file, f.line));
        }
    }
    // handlers a macro generates: `name!(handler, Variant, ..)`
    for f in p.files.iter().filter(|f| f.rel.contains("runner/src/vm/instructions/")) {
        for it in &f.ast.items {
            let syn::Item::Macro(m) = it else { continue };
            let t: Vec<proc_macro2::TokenTree> = m.mac.tokens.clone().into_iter().collect();
            if let (Some(proc_macro2::TokenTree::Ident(h)), Some(proc_macro2::TokenTree::Ident(v))) = (t.first(), t.get(2)) {
                check(&mut r, &h.to_string(), &v.to_string(), None, f.rel.clone());
            }
        }
    }
    r
}

// ---------------------------------------------------------------- P47
struct IdUses {
    index: BTreeSet<String>,
    file: BTreeSet<String>,
}
impl<'a> Visit<'a> for IdUses {
    fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
        let r = squash(&tokens(&m.receiver));
        match m.method.to_string().as_str() {
            "id_in_file" => {
                self.index.insert(r);
            }
            "file" => {
                self.file.insert(r);
            }
            _ => {}
        }
        syn::visit::visit_expr_method_call(self, m);
    }
}
fn lookups_in_own_file(p: &Program) -> Report {
    let mut r = report("a definition's number is only used together with the file that defines it: an index of another file does not have that entry");
    for f in p.fns.iter().filter(|f| f.krate == "semantic") {
        let mut u = IdUses { index: BTreeSet::new(), file: BTreeSet::new() };
        u.visit_block(&f.block);
        for x in &u.index {
            r.obligations += 1;
            if !u.file.contains(x) {
                r.failures.push((
                    format!("file of {} in {}", x, f.id()),
                    format!("{}:{}", f.file, f.line),
                    format!("{} takes the number of the definition {x} without looking at the file that defines it", f.id()),
                ));
            }
        }
    }
    r
}
fn query_recursion(p: &Program) -> Report {
    let mut r = report("queries that can reach themselves through the definition of a name recover from a cycle of definitions");
    let q: Vec<usize> = (0..p.fns.len())
        .filter(|&i| p.fns[i].attrs.iter().any(|a| squash(a).contains("salsa::tracked")) && ["semantic", "parser", "mir"].contains(&p.fns[i].krate.as_str()))
        .collect();
    let ix: HashMap<&str, usize> = q.iter().map(|&i| (p.fns[i].name.as_str(), i)).collect();
    // which queries a query reaches without passing through another query
    let mut edges: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
    for &i in &q {
        r.obligations += 1;
        let mut seen = BTreeSet::new();
        let mut todo = vec![i];
        while let Some(j) = todo.pop() {
            if !seen.insert(j) {
                continue;
            }
            let mut c = Callees(HashSet::new());
            c.visit_block(&p.fns[j].block);
            for w in &c.0 {
                if let Some(&k) = ix.get(w.as_str()) {
                    edges.entry(i).or_default().insert(k);
                } else if let Some([k]) = p.by_name.get(w).map(|v| v.as_slice()) {
                    if p.fns[*k].krate == p.fns[i].krate && !crate::calls::is_common_std(w) {
                        todo.push(*k);
                    }
                }
            }
        }
    }
    let reach = |from: usize| -> BTreeSet<usize> {
        let mut seen = BTreeSet::new();
        let mut todo: Vec<usize> = edges.get(&from).into_iter().flatten().copied().collect();
        while let Some(j) = todo.pop() {
            if seen.insert(j) {
                todo.extend(edges.get(&j).into_iter().flatten().copied());
            }
        }
        seen
    };
    let all: BTreeMap<usize, BTreeSet<usize>> = q.iter().map(|&i| (i, reach(i))).collect();
    let mut done: BTreeSet<usize> = BTreeSet::new();
    for &i in &q {
        if done.contains(&i) || !all[&i].contains(&i) {
            continue;
        }
        let scc: BTreeSet<usize> = all[&i].iter().copied().filter(|j| all[j].contains(&i)).collect();
        done.extend(&scc);
        // a query that only calls itself walks down a finished type
        if scc.len() == 1 {
            continue;
        }
        let mut names: Vec<&str> = scc.iter().map(|&j| p.fns[j].name.as_str()).collect();
        names.sort();
        let recovers = scc.iter().any(|&j| p.fns[j].attrs.iter().any(|a| a.contains("cycle_fn") || a.contains("cycle_result") || a.contains("cycle_initial")));
        if !recovers {
            r.failures.push((
                format!("query cycle {}", names[0]),
                format!("{}:{}", p.fns[i].file, p.fns[i].line),
                format!("the queries {} call each other through the definitions of names and none recovers from a cycle: a struct that contains itself ends the analysis with a panic", names.join(", ")),
            ));
        }
    }
    r
}

// ---------------------------------------------------------------- P09
fn type_names_name_types(p: &Program) -> Report {
    let mut r = report("a type name that denotes something other than a type is reported");
    for f in p.fns.iter().filter(|f| f.file.contains("semantic/src/validation/") && f.body_text.contains("type_usages")) {
        r.obligations += 1;
        let kind = f.body_text.contains("DefinitionKind :: Struct");
        if !kind {
            r.failures.push((
                "type name denotes a value".into(),
                format!("{}:{}", f.file, f.line),
                format!("{} accepts a type name as soon as something of that name is defined: `fn f() -> f` or a parameter typed with a constant's name passes", f.id()),
            ));
        }
    }
    if r.obligations == 0 {
        r.skipped = Some("no check over the type names used".into());
    }
    r
}
