#![feature(let_chains)]
#![allow(clippy::option_if_let_else)]

//! # Cairo-M Semantic Analysis
//!
//! This module implements semantic analysis for the Cairo-M language using Salsa for
//! incremental compilation. It builds upon the parser AST to create a semantic model
//! that understands scopes, symbols, definitions, and use-def relationships.
//!
//! ## Architecture
//!
//! The semantic analysis follows a layered approach inspired by Ruff:
//! 1. **Places & Scopes**: Track all named entities and their containing scopes
//! 2. **Definitions**: Link AST nodes to semantic entities
//! 3. **Use-Def Analysis**: Resolve identifier uses to their definitions
//! 4. **Control Flow** (Advanced): Handle conditional visibility and reachability
//!
//! ## Main Query
//!
//! The primary entry point is `semantic_index(db, file)` which produces a complete
//! semantic model for a source file, cached by Salsa for incremental compilation.

use cairo_m_compiler_parser as parser;
// Import file types from parser
pub use parser::{ParsedModule, SourceFile, parse_file};

pub mod builtins;
pub mod definition;
pub mod place;
pub mod semantic_index;
pub mod type_resolution;
pub mod types;

mod semantic_errors;

pub mod db;
pub use db::{
    Crate, SemanticDatabaseImpl, SemanticDb, module_semantic_index, project_semantic_index,
};
pub mod delta_diagnostics;
pub mod validation;
pub mod visitor;

// Re-export main types and functions
pub use definition::{Definition, DefinitionKind, Definitions};
pub use place::{FileScopeId, Scope, ScopeKind};
pub use semantic_index::{DefinitionId, ExpressionId, SemanticIndex, semantic_index_from_module};
pub use types::{FunctionSignatureId, StructTypeId, TypeData, TypeId};

/// A file in the semantic analysis system
/// For now, we reuse the parser's file concept
pub type File = SourceFile;
