#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. One entry per property; kept as code so ids and anchors stay reviewable."""
import json, os
S="crates/compiler/semantic/src/"; P="crates/compiler/parser/src/"; F="crates/compiler/formatter/src/"
D="crates/compiler/diagnostics/src/"; J="crates/compiler/cairo-m-project/src/"; V=S+"validation/"
M="crates/compiler/mir/src/"; C="crates/compiler/codegen/src/"; R="crates/runner/src/"; X="crates/prover/src/"
props=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None):
    d={"id":id,"title":title,"statement":statement,
       "quantifier":{"over":over.split(),"text":qtext},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}}
    if observe: d["anchors"]["observe_at"]=observe
    props.append(d)

# ---------------- lexer / parser ----------------
p("P01","Every keyword, operator and delimiter has one token and one spelling",
 "Each reserved word, operator and punctuation mark of the language is recognised from exactly one spelling as its own token, and that token is shown to the user (in errors) with the very spelling it is recognised from. Two different tokens never share a spelling, and only whitespace and line comments are skipped.",
 "inputs","every source text made of the language's tokens",
 "Lexer tests list a few tokens in one snapshot; nothing relates the recognition table to the display table for every token.",
 [P+"lexer.rs"],[("token attributes",P+"lexer.rs TokenType"),("token display",P+"lexer.rs impl Display for TokenType")])
p("P02","Numeric literals keep their value and radix or are rejected",
 "A decimal, hexadecimal or binary integer literal, with or without a type suffix, denotes exactly the number written, in the radix its prefix says, with digit separators ignored and with the suffix the user wrote. A literal that does not fit, or that has an unknown suffix, is reported as an error and never silently replaced by another value.",
 "inputs","every numeric literal spelling",
 "A handful of literals are sampled; overflow and suffix paths are reached by one or two cases each.",
 [P+"lexer.rs",P+"parser.rs"],[("literal lexing callbacks",P+"lexer.rs"),("literal parsers",P+"parser.rs")])
p("P03","Operator precedence and associativity follow the documented ladder",
 "Expressions parse as if fully parenthesised by one fixed ladder: postfix (member, index, call) binds tighter than prefix (- ! &), then casts, then * and /, then + and -, then ==, !=, <, >, <=, >=, then &, ^ and |, then &&, then ||, with binary operators of one level associating to the left. Every operator token in the source yields the operation of that token, with the left operand on the left and the right operand on the right.",
 "programs","every expression built from the language's operators, at any nesting",
 "Snapshots fix the tree for a few operator pairs; the relation quantifies over all pairs of tokens and levels.",
 [P+"parser.rs"],[("expression parser",P+"parser.rs expression_parser"),("operator enums",P+"parser.rs BinaryOp, UnaryOp")])
p("P04","Parsing loses nothing the user wrote",
 "Every part of an accepted construct (names, annotations, operands, arguments, branches, bodies, list elements, aliases, attributes such as mutability of a reference) appears in the syntax tree in the role it was written in, and no construct is accepted while a part of it is dropped, defaulted or exchanged with another part. The whole input up to its end is consumed.",
 "programs","every source file accepted by the parser",
 "Snapshot tests cover chosen constructs in chosen combinations; a dropped optional part needs exactly the right construct and option.",
 [P+"parser.rs"],[("combinator map closures",P+"parser.rs"),("end of input",P+"parser.rs")])
p("P05","Lexical and syntax errors are always reported as errors",
 "Whenever a source file has a character sequence the lexer rejects or a token sequence the parser rejects, the parse result carries at least one diagnostic of error severity for each such failure, at the offending place in that file. A parse result without error diagnostics holds the complete module that was parsed.",
 "inputs","every source text, valid or not",
 "Parser error tests sample some ill-formed inputs; nothing shows that each failure kind reaches the diagnostics.",
 [P+"parser.rs",P+"db.rs",P+"lexer.rs",D+"diagnostics.rs"],[("parse_file",P+"parser.rs parse_file"),("per-file queries",P+"db.rs")])
# ---------------- formatter ----------------
p("P06","Formatting prints every part of every construct",
 "Formatting a file that parses prints every semantically meaningful part of every item, statement, expression, pattern and type: names, type annotations, operators, arguments, branches, bodies, labels of fields, import aliases and paths. No part is omitted whatever combination of optional parts the construct has.",
 "programs","every syntactically valid file",
 "Formatter snapshots cover selected constructs; an omission shows only when a specific optional part is present.",
 [F+"rules/items.rs",F+"rules/statements.rs",F+"rules/expressions.rs",F+"rules/types.rs",F+"api.rs"],
 [("Format impls",F+"rules"),("document renderer",F+"doc.rs")])
p("P07","Formatted text re-reads as the same tokens",
 "Every operator, keyword, delimiter, literal suffix and separator the formatter prints is the spelling that the lexer and parser accept for that same construct, and a one-element tuple or tuple type stays one. Operands are parenthesised whenever the printed operator nesting would otherwise re-parse with a different grouping.",
 "programs","every syntactically valid file, every operator nesting",
 "Snapshots show the printed text for samples; agreement of the printer's and the reader's tables and of the parenthesisation rule with the precedence ladder concerns all operator pairs.",
 [F+"rules/expressions.rs",F+"rules/statements.rs",F+"rules/items.rs",F+"rules/types.rs",P+"lexer.rs",P+"parser.rs"],
 [("operator text and precedence",F+"rules/expressions.rs"),("token table",P+"lexer.rs")])
p("P08","Formatting a file that does not parse leaves it unchanged",
 "When the input has lexical or syntax errors, formatting returns the original text unchanged, never a partial print. When it parses, the printed module contains every top-level item in source order.",
 "inputs","every source text, valid or not",
 "One test formats an invalid input; the guarantee is about every failure path.",
 [F+"api.rs"],[("format entry points",F+"api.rs")])
# ---------------- semantic analysis ----------------
p("P09","Every name use is analysed wherever it occurs",
 "Name resolution, usage tracking and expression typing reach every sub-expression, nested statement and type annotation of every construct: no operand, argument, index, field value, condition, initialiser, loop part, body, cast target or declared type is skipped. An undefined name is therefore reported in whichever position it is used, and a used variable is never reported as unused.",
 "programs","every program and every nesting of constructs",
 "Tests use undefined names in a few positions; the guarantee ranges over all positions of all node kinds.",
 [S+"semantic_index.rs",S+"visitor.rs",V+"scope_check.rs"],
 [("index builder",S+"semantic_index.rs"),("default walks",S+"visitor.rs"),("scope check",V+"scope_check.rs")])
p("P10","Scoping rules: what a name refers to",
 "A name refers to the innermost definition visible at its use: function bodies, blocks, branches and loops open their own scope which ends with the construct, parameters belong to their function, a loop's init variable belongs to the loop, and later definitions shadow earlier ones. Leaving a construct always restores the enclosing scope and loop context, so code after it is analysed as if the construct had not been entered.",
 "programs","every program and nesting of scopes",
 "Tests check a few nestings; the pairing of enter and leave must hold on every construct and exit.",
 [S+"semantic_index.rs",S+"place.rs"],[("scope stack",S+"semantic_index.rs push_scope/pop_scope"),("lookup",S+"semantic_index.rs")])
p("P11","Scope errors: undeclared, duplicate and unused names are reported",
 "A use of a name with no visible definition, a second definition of the same item, parameter or struct field, and a duplicate name bound within one pattern are each reported as errors; a local variable or parameter that is never used is reported as a warning unless its name begins with an underscore, and nothing that is used (in an expression, a type or a struct literal) is reported as unused. Imports that do not resolve to an existing module or to an item in it are errors.",
 "programs","every program",
 "One snapshot per rule; the conditions under which each rule fires or stays quiet range over all programs.",
 [V+"scope_check.rs",V+"structural_validator.rs",S+"semantic_index.rs"],[("scope validator",V+"scope_check.rs")])
p("P12","Operator typing table",
 "Each unary and binary operator accepts exactly the operand types the language defines for it and yields exactly the defined result type: arithmetic on felt or on u32 gives the same type, ordering comparisons exist on u32 only, equality gives bool, bitwise operators exist on u32 only, logical operators take and give bool, negation and not likewise. Any other operand combination is reported as an error.",
 "programs","every operator with every pair of operand types",
 "Tests sample some pairs; the table has dozens of cells and every missing cell must be an error.",
 [S+"types.rs",S+"type_resolution.rs",V+"type_validator.rs"],[("operator signatures",S+"type_resolution.rs"),("operator check",V+"type_validator.rs")])
p("P13","A type mismatch is reported in every position that expects a type",
 "If the value supplied does not have the expected type in a variable definition, assignment, return, call argument, struct field, array element, index, condition of a branch or loop, or operator operand, an error is reported; so are a wrong argument count, a wrong number of tuple elements, an unknown, missing or duplicate field and a call of something that is not a function. If the types agree no such error is reported.",
 "programs","every program, every checked position",
 "Tests have one or two ill-typed programs per position; the condition deciding each report ranges over all types.",
 [V+"type_validator.rs"],[("type validator",V+"type_validator.rs")])
p("P14","Types are equal only if all their components are",
 "Two types are accepted as the same only if they have the same kind and pairwise compatible components: same tuple arity and element types, same array element type and length, same pointee and mutability rules for pointers, same struct, same function signature. An already-reported error type is compatible with everything so that one mistake does not cascade.",
 "programs","every pair of types, of any depth",
 "Tests compare a few types; the relation is recursive over all pairs.",
 [S+"type_resolution.rs",S+"types.rs"],[("compatibility",S+"type_resolution.rs are_types_compatible")])
p("P15","Types are inferred from every construct as written",
 "The type found for an expression is the one its construct defines: a field access gives that field's declared type, an index gives the element type, a tuple access the element at that position, a call the callee's declared return type, a cast its target, a struct literal its struct, an unsuffixed literal the type its context expects and felt otherwise. A declared type annotation always decides the type of what it annotates.",
 "programs","every expression form over every type",
 "Type-resolution tests check samples of each form.",
 [S+"type_resolution.rs"],[("type queries",S+"type_resolution.rs")])
p("P16","Immutable data is never accepted as assignable",
 "Assigning to a constant, or to any field, element or tuple component reached through a constant, and assigning to anything that is not an assignable place, is reported as an error at every nesting depth.",
 "programs","every assignment target",
 "Tests assign to a constant directly; the guarantee covers every chain of accesses.",
 [V+"type_validator.rs"],[("assignment check",V+"type_validator.rs")])
p("P17","Control-flow errors are always reported",
 "A break or continue outside a loop is an error, a statement after one that always leaves the block is reported as unreachable, and a function with a return type whose body can reach its end without returning a value is an error; a loop that can be left by break does not count as always returning. Functions whose every path returns are accepted.",
 "programs","every function body",
 "Tests sample a few bodies; the rules are recursive over every statement nesting.",
 [V+"control_flow_validator.rs"],[("control flow validator",V+"control_flow_validator.rs")])
p("P18","Out-of-range literals are rejected",
 "An integer literal whose value does not fit the type it takes (felt field modulus or 32-bit unsigned range), directly, negated, or in a definition with a declared type, is reported as an error, and every literal that fits is accepted.",
 "programs","every literal value in every position",
 "Boundary values are sampled for some positions only.",
 [V+"literal_validator.rs"],[("literal validator",V+"literal_validator.rs")])
p("P19","Ill-formed structure is rejected everywhere it can occur",
 "Fixed-size arrays whose elements disagree in type, patterns that bind one name twice, array-in-array types and other structural restrictions are reported in every place where a statement or expression can occur, including inside loops, branches, nested blocks and operands.",
 "programs","every nesting of constructs",
 "Tests exercise each restriction at function top level.",
 [V+"structural_validator.rs"],[("structural validator",V+"structural_validator.rs")])
p("P20","Only convertible types may be cast",
 "A cast is accepted exactly when the language defines a conversion from the operand's type to the target type; every other cast, including to or from aggregates and pointers, is reported as an error.",
 "programs","every pair of source and target type",
 "Some pairs are sampled.",[V+"type_validator.rs",S+"type_resolution.rs"],[("cast check",V+"type_validator.rs")])
p("P21","Every check runs on every module and its findings reach the user",
 "Every kind of semantic check runs on every function and every module of the project, including imported ones, and each diagnostic it produces is part of the project's reported diagnostics. No diagnostic is filtered, overwritten or dropped between the check that finds it and the reported collection.",
 "programs configurations","every project layout and every set of errors",
 "Multi-file tests cover a couple of layouts.",
 [S+"db.rs",V+"validator.rs"],[("validator registry",V+"validator.rs"),("project queries",S+"db.rs")])
p("P22","Imports resolve across modules and cycles are reported",
 "An imported name denotes the item of that name in the imported module, with that item's own type and definition; an import cycle among modules is reported as an error and never makes the analysis loop or crash, and a module's dependencies are exactly the modules it imports.",
 "programs configurations","every module graph",
 "A few two- and three-module projects are tested.",
 [S+"db.rs",S+"type_resolution.rs",V+"scope_check.rs"],[("import resolution",S+"db.rs"),("cycle check",S+"db.rs")])
p("P23","Analysis results do not depend on hash iteration order",
 "Analysing or formatting the same project twice gives the same diagnostics in the same order and the same output; nothing the user sees depends on the iteration order of an unordered collection.",
 "configurations histories","every project, every process run",
 "A test runs once per process with one hash seed; order instability needs many runs.",
 [S+"db.rs",S+"delta_diagnostics.rs",S+"semantic_index.rs",V+"validator.rs"],[("ordered collections",S)])
p("P24","Incremental queries are pure functions of their inputs",
 "Every cached analysis result depends only on the tracked inputs (source texts and project layout): cached computations read no file, clock, environment variable, random source or mutable global and write nothing. Editing a file therefore always yields the result a fresh analysis would give.",
 "histories","every edit history",
 "Tests do not edit inputs and compare with a fresh database.",
 [S+"db.rs",P+"db.rs",S+"type_resolution.rs",S+"semantic_index.rs"],[("tracked queries","functions marked tracked in the parser, semantic, mir and codegen crates")])
p("P25","Incremental diagnostics follow edits exactly",
 "After any sequence of edits, the per-module diagnostics kept by the incremental tracker are those of the module's current text: a module that changed is recomputed, an unchanged one keeps its diagnostics, and the set of changed modules reported covers every module whose text changed.",
 "histories","every edit history",
 "Tests perform one or two edits.",[S+"delta_diagnostics.rs"],[("tracker",S+"delta_diagnostics.rs")])
# ---------------- diagnostics ----------------
p("P26","Diagnostic codes are distinct and severities match their kind",
 "Each kind of diagnostic has its own numeric code, distinct from every other; problems that make a program invalid have error severity and advisory ones (unused, unreachable) warning severity. Diagnostic constructors store the code, location, message and related locations they are given, each in its own place.",
 "inputs","every diagnostic the tools can emit",
 "Snapshots show some diagnostics; they do not compare all codes with each other.",
 [D+"diagnostics.rs"],[("codes",D+"diagnostics.rs DiagnosticCode"),("constructors",D+"diagnostics.rs impl Diagnostic")])
p("P27","Diagnostic reports show message, place and every related place",
 "The rendered report of a diagnostic names its file, its message, its severity and marks its own span and every related span with its text; collections of diagnostics keep every element and tell truthfully whether they hold errors.",
 "inputs","every diagnostic",
 "Rendered snapshots mostly have no related spans.",
 [D+"reporting.rs",D+"diagnostics.rs"],[("report builder",D+"reporting.rs"),("collection",D+"diagnostics.rs DiagnosticCollection")])
# ---------------- project ----------------
p("P28","Project discovery finds the project and all its sources",
 "Starting from a file or a directory, discovery finds the nearest enclosing manifest, takes the project's name, source root and entry point from that layout, and loads every source file below the source root recursively and no other file. A missing or malformed manifest is reported as an error rather than replaced by defaults.",
 "configurations","every directory layout",
 "A few layouts are tested in temporary directories.",
 [J+"discovery.rs",J+"manifest.rs",J+"model.rs"],[("discovery",J+"discovery.rs"),("manifest",J+"manifest.rs")])
p("P29","Creating a project never overwrites and never hides a failure",
 "Creating a new project writes only inside the requested directory, refuses to run if that path already exists before anything is written, and reports any failed file operation as a failure of the command. On success every template file has been written, with the project's name put in.",
 "fault_sequences configurations","every target path and every failing file operation",
 "Tests create one project in an empty place; no test fails a file operation.",
 ["crates/cargo-cairo-m/src/main.rs"],[("init","crates/cargo-cairo-m/src/main.rs")])
p("P30","I/O and conversion failures are never swallowed",
 "In discovery, loading, project creation and compilation, a failed file operation, a manifest error or a failed conversion surfaces to the caller as an error or as a diagnostic; it is never ignored or turned into an empty or default result.",
 "fault_sequences","every failing operation at every point",
 "Tests inject no faults.",[J+"discovery.rs",J+"manifest.rs","crates/cargo-cairo-m/src/main.rs","crates/compiler/src/lib.rs"],[("error propagation","the listed files")])
# ---------------- compile driver, MIR, codegen ----------------
p("P31","A program with errors never produces code",
 "If parsing or semantic analysis of any module reports a diagnostic of error severity, compilation fails and returns those diagnostics; code is generated only when there is none. Warnings never block compilation and are returned with the program.",
 "programs","every project",
 "The compile tests use a few invalid programs.",["crates/compiler/src/lib.rs"],[("driver","crates/compiler/src/lib.rs")])
p("P32","Every operand of every intermediate instruction is seen by every pass",
 "For every kind of intermediate-representation instruction and terminator, the set of values it reads, the operand-replacement operation and the set of values it defines cover each of its operands, exactly once per role. Hence no pass removes a value that is still used or leaves a stale operand after a replacement.",
 "programs","every instruction kind and operand position",
 "Pass tests use hand-made functions with a few instruction kinds.",
 [M+"instruction.rs",M+"terminator.rs",M+"value_visitor.rs"],[("use and def sets",M+"instruction.rs"),("terminators",M+"terminator.rs")])
p("P33","Optimisation never removes or folds away observable effects",
 "Dead-code elimination removes only instructions whose results are unused and that have no side effect; calls, stores, assertions, debug output and heap allocation are always kept. Algebraic simplification replaces an operation by an operand only where that identity holds for that operator and operand side, and a pass that cannot prove its result valid leaves the function unchanged.",
 "programs","every function, every optimisation pipeline",
 "Pass tests apply passes to chosen functions.",
 [M+"passes/dead_code_elimination.rs",M+"passes/arithmetic_simplify.rs"],[("side effects",M+"passes/dead_code_elimination.rs"),("identities",M+"passes/arithmetic_simplify.rs")])
p("P34","Compile-time evaluation uses the machine's arithmetic",
 "Folding an operation at compile time uses the same operation, on the same operand order and in the same number domain (prime field for felt, wrapping 32-bit for u32), as executing it would, and refuses to fold a division by zero.",
 "programs","every operator and every pair of constants",
 "Fold tests sample operand values.",[M+"passes/const_eval.rs",R+"vm/instructions"],[("const evaluator",M+"passes/const_eval.rs")])
p("P35","Lowering maps each source operator and construct to its own operation",
 "Each source operator on each operand type lowers to the intermediate operation, and that to the machine opcode, that implement that operator on that type; no two different source operators share one, and operands keep their order.",
 "programs","every operator and operand type",
 "End-to-end tests cover some operators (and do not run in a build without the prover's dependencies).",
 [M+"instruction.rs",C+"builder/felt.rs",C+"builder/u32_ops.rs",C+"generator.rs"],[("operator table",M+"instruction.rs from_parser"),("opcode selection",C+"builder")])
# ---------------- machine ----------------
p("P36","Instruction encoding: opcodes are unique and encode/decode agree",
 "Every machine instruction has its own opcode; encoding an instruction writes that opcode and its operands, in order, and decoding the words gives back the same instruction, with the size that encoding has. Unknown opcodes and wrong operand counts are decode errors.",
 "inputs","every instruction and every word sequence",
 "Round-trip tests sample instructions.",["crates/common/src/instruction.rs"],[("instruction table","crates/common/src/instruction.rs instructions!")])
p("P37","The machine executes each opcode with its own semantics",
 "Every opcode is dispatched to a handler that decodes that same instruction, applies that instruction's operation to its operands in order, and writes its own destination. Each handler advances the program counter by exactly the size of the instruction it executed or jumps where the instruction says.",
 "programs","every program and opcode",
 "VM unit tests run each opcode on few operands; dispatch and advance must agree for all opcodes.",
 [R+"vm/mod.rs",R+"vm/instructions",R+"vm/state.rs"],[("dispatch",R+"vm/instructions/mod.rs"),("handlers",R+"vm/instructions")])
p("P38","Every memory access of an execution is recorded and bounds-checked",
 "Every read and write an executed instruction performs goes through the recording memory interface, which checks the address bound first and logs the access, and every executed step appends exactly one state to the trace. Nothing reads or writes machine memory behind the recorder during execution.",
 "programs","every program",
 "Tests compare the log for few programs.",[R+"memory/mod.rs",R+"vm/mod.rs"],[("memory",R+"memory/mod.rs"),("step loop",R+"vm/mod.rs")])
p("P39","Prover and verifier exchange the same transcript",
 "The verifier absorbs into its transcript the same commitments, claims and proof-of-work values as the prover, in the same order, before drawing each challenge, and checks the proof-of-work and the lookup sum before accepting.",
 "inputs","every proof",
 "Accepting tests only show agreement for honest proofs of few programs; no test tampers with each absorbed value.",
 [X+"prover.rs",X+"verifier.rs"],[("transcript",X+"prover.rs, verifier.rs")])
p("P40","Every constraint component is registered everywhere it must be",
 "Every opcode component that can appear in an execution takes part in trace writing, claims mixing, log-size accounting, lookup-sum accounting, and in the list of components verified; none is missing from one of these places.",
 "programs","every component",
 "End-to-end proofs exercise components together; a component missing in one place shows only when it is non-empty.",
 [X+"components/mod.rs",X+"components/opcodes/mod.rs"],[("registration",X+"components/mod.rs")])
p("P41","Function-call ABI: argument and return sizes agree on both sides",
 "Values passed to and returned from a program occupy exactly the number of words their declared type has, encoding and decoding walk the same layout in the same order, and a value that does not match its declared type or length is rejected.",
 "inputs","every ABI type and value",
 "Codec tests sample types.",["crates/common/src/abi_codec.rs","crates/common/src/program.rs"],[("ABI codec","crates/common/src/abi_codec.rs")])
p("P47","Analysing any program ends with diagnostics, not a crash",
 "Parsing, formatting, analysing and reporting on any source text ends normally: an ill-formed program (self-referring constants, names that denote the wrong kind of thing, arguments that do not fit, missing parts, definitions of other files) yields diagnostics and never a panic of the tool. In particular the analyses abort in no case in which they did not before, a definition's number is only looked up in the index of the file that defines it, and queries that reach themselves through names recover.",
 "inputs","every source text and set of modules",
 "Tests feed programs somebody thought of; a crash needs an unexpected combination, such as a constant that mentions itself or a mismatching call across files.",
 [S+"type_resolution.rs",S+"semantic_index.rs",V+"type_validator.rs",P+"lib.rs"],[("type resolution",S+"type_resolution.rs"),("semantic index",S+"semantic_index.rs")])
# ---------------- declined ----------------
p("P42","Formatting is idempotent",
 "Formatting an already formatted file returns it byte for byte.",
 "inputs","every valid file","Sampled by snapshots only.",[F+"doc.rs"],[("renderer",F+"doc.rs")])
p("P43","Comments survive formatting",
 "Every comment of a file is still present, in order, after formatting.",
 "inputs","every valid file with comments","Sampled by snapshots only.",[F+"comment_attachment.rs",F+"comment_preserver.rs"],[("comment handling",F)])
p("P44","Compiled programs compute what the source says",
 "Running the compiled program gives the result the source language's semantics defines, for all inputs.",
 "programs inputs","every program and input","Sampled by end-to-end tests.",[C+"generator.rs",M+"lowering/stmt.rs",R+"vm/mod.rs"],[("whole pipeline","crates")])
p("P45","Proofs are sound and complete",
 "A proof verifies exactly if the program has an execution with the claimed inputs and outputs.",
 "programs inputs","every execution","Sampled by end-to-end proofs.",[X+"components"],[("AIR constraints",X+"components")])
p("P46","The language server always publishes the diagnostics of the latest text",
 "After any interleaving of edits, the last diagnostics published for a document are those of its latest text.",
 "schedules histories","every interleaving of edits and background analysis","Tests await quiescence under one schedule.",
 ["crates/cairo-m-ls/src/diagnostics/controller.rs"],[("diagnostics controller","crates/cairo-m-ls/src/diagnostics/controller.rs")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for d in props: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(props))
