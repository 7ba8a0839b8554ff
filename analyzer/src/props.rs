//! Which functions, and which of their effects, each property is about.
//! A selector is `file-substring` or `file-substring#function-substring`; a leading
//! `-` takes functions out again.
pub struct Prop {
    pub id: &'static str,
    pub scope: &'static [&'static str],
    /// only differences whose text mentions one of these count (empty: all count)
    pub words: &'static [&'static str],
    pub technique: &'static str,
    pub note: &'static str,
}

const EQ: &str = "guarded-effect summaries (abstract interpretation of the syntax tree, path conditions as BDDs) compared with the reviewed reference contracts";

macro_rules! prop {
    ($id:expr, [$($s:expr),* $(,)?], $note:expr) => {
        Prop { id: $id, scope: &[$($s),*], words: &[], technique: EQ, note: $note }
    };
    ($id:expr, [$($s:expr),* $(,)?], words: [$($w:expr),*], $note:expr) => {
        Prop { id: $id, scope: &[$($s),*], words: &[$($w),*], technique: EQ, note: $note }
    };
}

pub const PROPS: &[Prop] = &[
    prop!("P01", ["parser/src/lexer.rs"], ""),
    prop!("P02", ["parser/src/lexer.rs", "parser/src/parser.rs#expression_parser", "parser/src/parser.rs#type_expr_parser",
        "parser/src/parser.rs#NumberSuffix", "parser/src/parser.rs#parse_file", "semantic/src/type_resolution.rs#expression_semantic_type",
        "literal_validator.rs"], ""),
    prop!("P03", ["parser/src/parser.rs#expression_parser", "parser/src/parser.rs#Op", "parser/src/lexer.rs#Display"], ""),
    prop!("P04", ["parser/src/parser.rs", "-parser/src/parser.rs#Display"], ""),
    prop!("P05", ["parser/src/lexer.rs", "parser/src/parser.rs#parse_file", "parser/src/parser.rs#ParseOutput", "parser/src/parser.rs#::parser", "parser/src/db.rs", "diagnostics/src/diagnostics.rs#Diagnostic::lexical_error",
        "diagnostics/src/diagnostics.rs#Diagnostic::syntax_error", "diagnostics/src/diagnostics.rs#Diagnostic::unexpected_token",
        "diagnostics/src/diagnostics.rs#Diagnostic::error", "diagnostics/src/diagnostics.rs#DiagnosticCollection",
        "diagnostics/src/reporting.rs", "diagnostics/src/diagnostics.rs#build_diagnostic_message",
        "semantic/src/db.rs#parse"], ""),
    prop!("P06", ["compiler/formatter/src/rules", "formatter/src/doc.rs", "formatter/src/utils.rs", "formatter/src/api.rs",
        "formatter/src/context.rs", "formatter/src/config.rs"], ""),
    prop!("P07", ["compiler/formatter/src/rules", "formatter/src/utils.rs", "formatter/src/doc.rs", "formatter/src/api.rs", "parser/src/lexer.rs#Display",
        "parser/src/parser.rs#Display", "formatter/src/config.rs"], ""),
    prop!("P08", ["formatter/src/api.rs", "parser/src/parser.rs#parse_file", "parser/src/db.rs", "formatter/src/rules/items.rs#ParsedModule", "formatter/src/rules/items.rs#TopLevelItem", "formatter/src/lib.rs"], ""),
    prop!("P09", ["semantic/src/semantic_index.rs", "semantic/src/visitor.rs", "validation/scope_check.rs", "semantic/src/definition.rs",
        "semantic/src/place.rs", "type_resolution.rs#resolve_ast_type", "validation/shared.rs"], ""),
    prop!("P10", ["semantic/src/semantic_index.rs", "semantic/src/place.rs", "validation/scope_check.rs", "semantic/src/definition.rs", "semantic/src/visitor.rs"], ""),
    prop!("P11", ["validation/scope_check.rs", "validation/shared.rs", "structural_validator.rs", "semantic_errors.rs",
        "semantic/src/semantic_index.rs", "semantic/src/place.rs", "semantic/src/builtins.rs",
        "diagnostics.rs#Diagnostic::undeclared", "diagnostics.rs#Diagnostic::unused", "diagnostics.rs#Diagnostic::duplicate",
        "diagnostics.rs#Diagnostic::unresolved", "diagnostics.rs#Diagnostic::use_before", "semantic/src/db.rs#module", "semantic/src/db.rs#project_semantic_index", "semantic/src/definition.rs"], ""),
    prop!("P12", ["semantic/src/types.rs", "semantic/src/type_resolution.rs", "type_validator.rs#binary_op", "type_validator.rs#unary_op",
        "type_validator.rs#suggest", "type_validator.rs#check_expression_types"], ""),
    prop!("P13", ["validation/type_validator.rs", "semantic/src/type_resolution.rs", "semantic/src/types.rs", "semantic/src/definition.rs"], ""),
    prop!("P14", ["semantic/src/type_resolution.rs", "semantic/src/types.rs"], ""),
    prop!("P15", ["semantic/src/type_resolution.rs", "semantic/src/types.rs", "semantic/src/definition.rs", "semantic/src/semantic_index.rs"], ""),
    prop!("P16", ["type_validator.rs", "-type_validator.rs#cast", "-type_validator.rs#binary_op", "-type_validator.rs#unary_op", "semantic/src/definition.rs",
        "semantic_index.rs#SemanticIndex::", "semantic/src/type_resolution.rs#definition_semantic_type"], ""),
    prop!("P17", ["control_flow_validator.rs", "diagnostics.rs#Diagnostic::unreachable", "diagnostics.rs#Diagnostic::missing_return",
        "diagnostics.rs#Diagnostic::break_outside", "diagnostics.rs#Diagnostic::continue_outside", "semantic_index.rs", "semantic_errors.rs", "semantic/src/place.rs"], ""),
    prop!("P18", ["literal_validator.rs", "semantic/src/type_resolution.rs#expression_semantic_type", "semantic/src/semantic_index.rs#expected_type",
        "semantic/src/semantic_index.rs#Visitor"], ""),
    prop!("P19", ["structural_validator.rs", "validation/shared.rs", "type_validator.rs", "semantic_errors.rs"], ""),
    prop!("P20", ["type_validator.rs#cast", "type_validator.rs#check_expression_types", "type_validator.rs#analyze_function_statement",
        "type_validator.rs#check_statement", "type_validator.rs#Validator", "semantic/src/type_resolution.rs", "semantic/src/types.rs"], ""),
    prop!("P21", ["validation/validator.rs", "semantic/src/db.rs", "parser/src/db.rs", "semantic/src/validation#Validator for",
        "diagnostics/src/diagnostics.rs#DiagnosticCollection", "diagnostics/src/diagnostics.rs#Sink", "semantic_errors.rs",
        "semantic_index.rs#SemanticSyntax", "semantic_index.rs#SemanticIndexBuilder", "semantic_index.rs#semantic_index_from_module",
        "delta_diagnostics.rs", "compiler/src/lib.rs", "type_validator.rs#analyze_function_statement", "type_validator.rs#check_statement", "-semantic_index.rs#Visitor"], ""),
    prop!("P22", ["semantic/src/db.rs", "semantic/src/type_resolution.rs", "scope_check.rs", "semantic_index.rs#import", "semantic_index.rs#declare_use",
        "semantic_index.rs#visit_use", "semantic_index.rs#ProjectSemanticIndex", "semantic_index.rs#resolve_name", "semantic_index.rs#SemanticIndex::", "semantic/src/definition.rs", "semantic_index.rs#Visitor"], ""),
    prop!("P23", ["semantic/src", "parser/src", "formatter/src", "diagnostics/src", "project/src", "compiler/src/lib.rs"],
        words: ["sort", "HashMap", "HashSet", "unordered", "IndexMap", "BTree", "order", "rev(", "reverse"], ""),
    prop!("P24", ["semantic/src/db.rs", "parser/src/db.rs", "compiler/src/db.rs", "semantic/src/type_resolution.rs", "semantic_index.rs#semantic_index_from_module", "mir/src/db.rs", "codegen/src/db.rs"], ""),
    prop!("P25", ["delta_diagnostics.rs", "semantic/src/db.rs", "diagnostics.rs#DiagnosticCollection"], ""),
    prop!("P26", ["diagnostics/src", "scope_check.rs", "control_flow_validator.rs", "literal_validator.rs", "structural_validator.rs",
        "type_validator.rs", "semantic_errors.rs", "parser/src/parser.rs#parse_file", "validation/shared.rs", "semantic/src/db.rs"],
        words: ["Diagnostic", "diagnostic", "warning", "error", "Severity", "Code"], ""),
    prop!("P27", ["diagnostics/src", "compiler/src/lib.rs"], ""),
    prop!("P28", ["cairo-m-project/src", "semantic/src/db.rs#crate_from_project", "semantic/src/db.rs#module_name", "compiler/src/main.rs"], ""),
    prop!("P29", ["cargo-cairo-m/src"], ""),
    prop!("P30", ["cairo-m-project/src", "cargo-cairo-m/src", "compiler/src/lib.rs", "compiler/src/main.rs", "semantic/src/db.rs#crate_from_project", "parser/src/db.rs"], ""),
    prop!("P31", ["compiler/src/lib.rs", "compiler/src/main.rs", "compiler/src/db.rs", "DiagnosticCollection::", "semantic/src/db.rs"], ""),
    prop!("P32", ["mir/src/instruction.rs", "mir/src/terminator.rs", "mir/src/value_visitor.rs", "mir/src/basic_block.rs", "mir/src/function.rs", "mir/src/value.rs"], ""),
    prop!("P33", ["mir/src/passes", "mir/src/pipeline.rs", "mir/src/passes.rs", "-const_eval.rs"], ""),
    prop!("P34", ["mir/src/passes/const_eval.rs", "mir/src/passes/constant_folding.rs", "mir/src/passes/constant_propagation.rs", "runner/src/vm/instructions"], ""),
    prop!("P35", ["mir/src/instruction.rs", "mir/src/lowering", "codegen/src"], ""),
    prop!("P36", ["common/src/instruction.rs", "common/src/program.rs", "common/src/state.rs"], ""),
    prop!("P37", ["runner/src/vm", "common/src/state.rs", "common/src/instruction.rs"], ""),
    prop!("P38", ["runner/src/memory", "runner/src/vm", "runner/src/lib.rs", "common/src/execution.rs"], ""),
    prop!("P39", ["prover/src/prover.rs", "prover/src/verifier.rs", "prover/src/public_data.rs", "prover/src/components/mod.rs", "prover/src/prover_config.rs"], ""),
    prop!("P40", ["prover/src/components", "prover/src/relations.rs", "prover/src/preprocessed"], ""),
    prop!("P47", ["semantic/src", "parser/src", "formatter/src", "diagnostics/src", "cairo-m-project/src", "-/tests/"],
        words: ["Panic"], "Counts new or widened panics (unwrap, expect, index, panic!) of the modelled functions; arithmetic overflow and stack depth are not modelled."),
    prop!("P41", ["common/src/abi_codec.rs", "common/src/program.rs", "runner/src/lib.rs"], ""),
];

pub fn find(id: &str) -> Option<&'static Prop> {
    PROPS.iter().find(|p| p.id == id)
}

impl Prop {
    pub fn selects(&self, file: &str, id: &str) -> bool {
        let mut yes = false;
        for s in self.scope {
            let (neg, s) = match s.strip_prefix('-') {
                Some(x) => (true, x),
                None => (false, *s),
            };
            let hit = match s.split_once('#') {
                Some((f, n)) => file.contains(f) && id.contains(n),
                None => file.contains(s) || (!s.contains('/') && !s.contains(".rs") && id.contains(s)),
            };
            if hit {
                yes = !neg;
            }
        }
        yes
    }
    pub fn counts(&self, text: &str) -> bool {
        self.words.is_empty() || self.words.iter().any(|w| text.contains(w))
    }
}
