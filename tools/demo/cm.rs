// cm fmt FILE | cm parse FILE | cm check NAME=FILE... (first is the entry module)
use cairo_m_compiler_parser::{Db as ParserDb, SourceFile, Upcast};
use cairo_m_compiler_semantic::db::{Crate, project_validate_semantics};
use cairo_m_compiler_semantic::SemanticDb;
#[salsa::db]
#[derive(Clone, Default)]
pub struct TestDb {
    storage: salsa::Storage<Self>,
}
#[salsa::db]
impl salsa::Database for TestDb {}
#[salsa::db]
impl ParserDb for TestDb {}
#[salsa::db]
impl SemanticDb for TestDb {}
impl Upcast<dyn ParserDb> for TestDb {
    fn upcast(&self) -> &(dyn ParserDb + 'static) {
        self
    }
    fn upcast_mut(&mut self) -> &mut (dyn ParserDb + 'static) {
        self
    }
}
fn run() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let db = TestDb::default();
    let rd = |p: &str| std::fs::read_to_string(p).unwrap();
    match a[0].as_str() {
        "fmt" => {
            let f = SourceFile::new(&db, rd(&a[1]), "test.cm".to_string());
            print!("{}", cairo_m_formatter::format_source_file(&db, f, &cairo_m_formatter::FormatterConfig::default()));
        }
        "parse" => {
            let f = SourceFile::new(&db, rd(&a[1]), "test.cm".to_string());
            let p = cairo_m_compiler_parser::parse_file(&db, f);
            println!("{:?}", p.module);
            for d in p.diagnostics.iter() {
                println!("DIAG {:?} {:?} {:?} {}", d.severity, d.code, d.span, d.message);
            }
        }
        "check" => {
            let mut m = std::collections::HashMap::new();
            let mut first = None;
            for x in &a[1..] {
                let (n, p) = x.split_once('=').unwrap_or(("main", x.as_str()));
                first.get_or_insert(n.to_string());
                m.insert(n.to_string(), SourceFile::new(&db, rd(p), format!("{n}.cm")));
            }
            let c = Crate::new(&db, m, first.unwrap(), std::path::PathBuf::from("."), "t".to_string());
            for d in project_validate_semantics(&db, c).iter() {
                println!("{:?} {:?} {} {} {}", d.severity, d.code, d.file_path, d.span, d.message);
            }
        }
        "project" => {
            let p = match cairo_m_project::discover_project(std::path::Path::new(&a[1])) {
                Ok(Some(p)) => p,
                r => return println!("DISCOVER {r:?}"),
            };
            println!("NAME {} ROOT {}", p.name, p.root_directory.display());
            match p.source_files() {
                Ok(mut f) => {
                    f.sort();
                    f.iter().for_each(|x| println!("FILE {} {:?}", x.display(), p.module_name_from_path(x).ok()))
                }
                Err(e) => println!("FILES ERR {e}"),
            }
            match cairo_m_compiler_semantic::db::crate_from_project(&db, p) {
                Ok(c) => {
                    let mut m: Vec<_> = c.modules(&db).keys().cloned().collect();
                    m.sort();
                    println!("MODULES {m:?} ENTRY {}", c.entry_point(&db));
                    for d in project_validate_semantics(&db, c).iter() {
                        println!("{:?} {:?} {} {} {}", d.severity, d.code, d.file_path, d.span, d.message);
                    }
                }
                Err(d) => d.iter().for_each(|d| println!("ERR {:?} {}", d.code, d.message)),
            }
        }
        // delta STEP...: NAME=FILE sets a module's text, -NAME removes it, get prints the diagnostics
        "delta" => {
            use salsa::Setter;
            let mut db = db;
            let mut tr = cairo_m_compiler_semantic::delta_diagnostics::DeltaDiagnosticsTracker::new();
            let c = Crate::new(&db, std::collections::HashMap::new(), "main".to_string(), std::path::PathBuf::from("."), "t".to_string());
            for x in &a[1..] {
                if x == "get" {
                    println!("GET");
                    for d in tr.get_project_diagnostics(&db, c).iter() {
                        println!("{:?} {:?} {} {} {}", d.severity, d.code, d.file_path, d.span, d.message);
                    }
                } else if let Some(n) = x.strip_prefix('-') {
                    let mut m = c.modules(&db).clone();
                    m.remove(n);
                    c.set_modules(&mut db).to(m);
                } else {
                    let (n, p) = x.split_once('=').unwrap();
                    let mut m = c.modules(&db).clone();
                    match m.get(n) {
                        Some(f) => {
                            let f = *f;
                            f.set_text(&mut db).to(rd(p));
                        }
                        None => {
                            m.insert(n.to_string(), SourceFile::new(&db, rd(p), format!("{n}.cm")));
                            c.set_modules(&mut db).to(m);
                        }
                    }
                }
            }
        }
        // render FILE: the report of each diagnostic, without colour
        "render" => {
            let text = rd(&a[1]);
            let mut m = std::collections::HashMap::new();
            m.insert("main".to_string(), SourceFile::new(&db, text.clone(), "main.cm".to_string()));
            let c = Crate::new(&db, m, "main".to_string(), std::path::PathBuf::from("."), "t".to_string());
            print!("{}", project_validate_semantics(&db, c).display_without_color(&text));
        }
        // types NAME=FILE...: the type found for every expression of the first module, by position
        "types" => {
            use cairo_m_compiler_semantic::type_resolution::expression_semantic_type;
            let mut m = std::collections::HashMap::new();
            let mut first = None;
            for x in &a[1..] {
                let (n, p) = x.split_once('=').unwrap_or(("main", x.as_str()));
                let f = SourceFile::new(&db, rd(p), format!("{n}.cm"));
                first.get_or_insert((n.to_string(), f, rd(p)));
                m.insert(n.to_string(), f);
            }
            let (n, f, text) = first.unwrap();
            let c = Crate::new(&db, m, n.clone(), std::path::PathBuf::from("."), "t".to_string());
            let ix = cairo_m_compiler_semantic::db::module_semantic_index(&db, c, n).unwrap();
            let mut out = vec![];
            for (id, e) in ix.all_expressions() {
                let t = expression_semantic_type(&db, c, f, id, None);
                let s = e.ast_span;
                out.push((s.start, s.end, cairo_m_compiler_semantic::types::TypeId::format_type(&db, t)));
            }
            out.sort();
            for (s, e, t) in out {
                println!("{s}..{e} `{}` {t}", &text[s..e]);
            }
        }
        _ => panic!(),
    }
}
fn main() {
    std::thread::Builder::new().stack_size(1 << 28).spawn(run).unwrap().join().unwrap();
}
