#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property list)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},
              "why_tests_cant":why,"anchors":a})

p("C01","Every hardware type has exactly the bit widths its definition implies",
  "The forward and backward width of a hardware type are the mathematical widths of its structure: scalars their declared width, tuples and structs the sum of members, arrays and memories length times the element, enums the smallest tag able to distinguish the variants plus the widest variant, inverted types zero forward and the inner forward width backward. No width ever wraps, truncates or depends on anything but the type.",
  ["inputs"],"every hardware type, of any nesting, variant count, member count and integer size",
  "Unit tests sample a handful of types; the claim is over all recursive types and all variant counts, including 0, 1, 2^k and 2^k+1 variants.",
  ["spade-mir/src/types.rs","spade-mir/src/enum_util.rs"],
  [("Type::size","spade-mir/src/types.rs"),("Type::backward_size","spade-mir/src/types.rs"),("tag_size","spade-mir/src/enum_util.rs")],
  observe=["widths of ports and wires in generated Verilog"])

p("C02","Reading a member back out of an aggregate yields the member put in",
  "In generated Verilog, constructing a tuple, struct, array, or enum value and then projecting a member, element, element range, or variant field yields exactly the bits that were put in for that member, for both forward and backward (inverted) wires; a variant test is true exactly for the variant that was constructed. Different members never share bits.",
  ["programs","inputs"],"every aggregate type (member widths including zero, single and multi-bit, any number of variants) and every bit pattern stored in it",
  "Snapshot tests pin the text for a few types; nothing relates a construction site to a projection site for all layouts, and neighbouring off-by-one slices stay valid Verilog.",
  ["spade-mir/src/codegen/mod.rs","spade-mir/src/codegen/util.rs","spade-mir/src/enum_util.rs","spade-mir/src/types.rs","spade-mir/src/verilog.rs"],
  [("member offset computation","spade-mir/src/codegen/mod.rs compute_tuple_index"),("aggregate and projection lowering","spade-mir/src/codegen/mod.rs forward_expression_code/backward_expression_code"),("index text","spade-mir/src/codegen/util.rs TupleIndex")])

p("C03","Operators compute their documented value in generated Verilog",
  "For every Spade operator (arithmetic, comparison, shifts, bitwise, reductions, sign/zero extension, truncation, concatenation, selection) the generated Verilog expression, evaluated with Verilog's width and signedness rules, equals the operator's mathematical value reduced to the declared result width, for signed and unsigned operands alike.",
  ["programs","inputs"],"every operator, every legal combination of operand and result widths including 0 and widths above 64, and every operand value",
  "Tests compare emitted text for one width per operator; signedness and context-width mistakes are only visible for particular operand values.",
  ["spade-mir/src/codegen/mod.rs","spade-hir-lowering/src/lib.rs"],
  [("binary/unary operator lowering","spade-mir/src/codegen/mod.rs forward_expression_code"),("width-changing intrinsics","spade-hir-lowering/src/lib.rs handle_* functions")])

p("C04","Compile-time evaluation produces the bits the hardware would hold",
  "Evaluating a constant expression at compile time (register reset/initial values, memory initial contents) yields a bit string whose length is the width of the expression's type and whose bits are the two's-complement / layout encoding of the mathematical result; the textual and the numeric form of that constant agree, at any width and for negative values.",
  ["inputs"],"every constant value of every type and every constant expression built from the evaluable operators",
  "Tests cover a few 8-bit constants; sign, padding and >64-bit behaviour are quantified over all sizes and values.",
  ["spade-mir/src/eval.rs","spade-mir/src/codegen/mod.rs"],
  [("constant to bits","spade-mir/src/eval.rs Value::{as_string,as_u64,as_u32_chunks,width}"),("statement evaluation","spade-mir/src/eval.rs eval_statements")])

p("C05","A match is accepted exactly when its arms cover every value",
  "A match expression (or irrefutable binding) is accepted only if every value of the scrutinee's type is matched by some arm, and is rejected with a 'missing pattern' diagnostic only if some value really is unmatched; each reported missing pattern matches at least one value no arm covers. This holds for nested tuples, structs, enums, booleans and full integer ranges.",
  ["programs"],"every scrutinee type and every list of patterns",
  "Acceptance is a statement over all values of the type for all pattern lists; tests have a few dozen matches and integers only near the middle of the range.",
  ["spade-hir-lowering/src/usefulness.rs","spade-hir-lowering/src/pattern.rs"],
  [("usefulness algorithm","spade-hir-lowering/src/usefulness.rs is_useful"),("constructor splitting and covering","spade-hir-lowering/src/pattern.rs")])

p("C06","Type-level arithmetic is evaluated exactly",
  "A type-level expression whose variables are all known evaluates to the exact unbounded-integer, boolean or string result of its operators, and the number of bits reported as needed for a signed or unsigned value is the smallest width whose range contains it; an expression with an unknown variable is never replaced by a value. A fully known constraint is accepted exactly when the two sides are equal.",
  ["inputs"],"every type-level expression tree and every assignment of integers (any magnitude and sign), booleans and strings to its variables",
  "Tests exercise small positive sizes; negative values, powers of two and their neighbours, and mixed unknown subexpressions are unbounded families.",
  ["spade-typeinference/src/constraints.rs"],
  [("expression evaluation","spade-typeinference/src/constraints.rs ConstraintExpr::evaluate"),("bits needed","spade-typeinference/src/constraints.rs bits_to_store"),("constraint propagation","spade-typeinference/src/constraints.rs TypeConstraints::update_type_level_value_constraints")])

p("C07","Every inverted port is driven exactly once",
  "In an accepted unit, every linear (inverted) value that is created or received is consumed exactly once, including linear members of tuples, structs and arrays taken apart field by field; a unit that leaves one unused or uses one twice is rejected with a diagnostic. Non-linear values can be used any number of times.",
  ["programs"],"every unit body over linear and non-linear values, with any nesting of aggregates, bindings, field accesses and set statements",
  "Tests list specific misuse shapes; the guarantee is over all combinations of aliasing, destructuring and order of use.",
  ["spade-hir-lowering/src/linear_check/mod.rs","spade-hir-lowering/src/linear_check/linear_state.rs"],
  [("linear state tree","spade-hir-lowering/src/linear_check/linear_state.rs"),("expression walk","spade-hir-lowering/src/linear_check/mod.rs")])

p("C08","Waveform translation decodes what the hardware encoded",
  "Translating a bit string recorded for a value of a Spade type prints the value whose encoding that bit string is: each field, element, tag, and payload is taken from the bits the code generator assigned to it, values shorter than the type are extended by the VCD rules, and undefined or high-impedance bits show up as undefined rather than as a number. Translation never aborts on any non-empty bit string, also when it is longer than the type (nothing is shown then).",
  ["inputs"],"every concrete type and every non-empty bit string over 0,1,x,z",
  "Tests decode a few fixed strings; the encoder and the decoder live in different crates and agree only by convention, for all types.",
  ["vcd-translate/src/translation.rs"],
  [("translation","vcd-translate/src/translation.rs inner_translate_value / value_from_str and friends")])

p("C09","Test benches read and write exactly the bits of the named field",
  "When a test bench refers to a field of an input or output by path, the bit range used is exactly the range the hardware layout gives that field in its direction, ranges of sibling fields are disjoint, and upto/downto conversion is its own inverse within the signal. An output comparison succeeds exactly when every defined bit of the expected value equals the actual bit.",
  ["inputs","programs"],"every port type, every field path in it, and every pair of expected and actual bit strings",
  "Python-side tests cover a few structs; layouts, nesting depth and mixed-direction types are unbounded.",
  ["spade-simulation-ext/src/lib.rs","spade-simulation-ext/src/range.rs","spade-simulation-ext/src/field_ref.rs"],
  [("field ranges","spade-simulation-ext/src/lib.rs"),("range conversion","spade-simulation-ext/src/range.rs"),("direction selection","spade-simulation-ext/src/field_ref.rs"),("comparison","spade-simulation-ext/src/lib.rs")])

p("C10","Trait implementations never overlap",
  "Two implementations of the same trait are both accepted only if no concrete type (with concrete trait arguments) could select both of them, and an implementation is rejected as a duplicate only if its header coincides with that of an existing one for some choice of a type for every occurrence of a type parameter (occurrences of one parameter are chosen independently, which errs on the side of rejecting). The verdict does not depend on the order in which implementations are declared.",
  ["programs","histories"],"every pair of implementation headers and every sequence of implementations added",
  "Overlap is existential over all instantiations of generics; tests list a few overlapping and non-overlapping pairs.",
  ["spade-hir/src/impl_tab.rs"],
  [("overlap test","spade-hir/src/impl_tab.rs type_specs_overlap/type_exprs_overlap"),("table insertion","spade-hir/src/impl_tab.rs ImplTab::insert")])

p("C11","Distinct things get distinct, legal Verilog names",
  "Two different units, or two different values within one unit, never receive the same Verilog identifier; every generated identifier is a legal Verilog identifier or a correctly escaped one, and identifiers handed out by a name source are never handed out twice. Names chosen for user-visible ports are the user's own names.",
  ["programs"],"every set of source names, paths, generic instantiations and generated temporaries",
  "Collisions need particular pairs of names; tests check single names.",
  ["spade-mir/src/unit_name.rs","spade-mir/src/renaming.rs","spade-mir/src/codegen/util.rs","spade-common/src/id_tracker.rs"],
  [("unit mangling","spade-mir/src/unit_name.rs"),("value naming","spade-mir/src/renaming.rs"),("escaping","spade-mir/src/codegen/util.rs"),("fresh ids","spade-common/src/id_tracker.rs")])

p("C12","Mid-level rewrites do not change what a unit computes",
  "Rewrites applied between lowering and Verilog emission (alias flattening, splitting compound registers, clock gating, duplicate wire removal, inlining) leave the value of every output in every cycle unchanged, for every input sequence; register reset and initial values are preserved.",
  ["programs","inputs"],"every mid-level program accepted by the rewrite, and every sequence of inputs over any number of clock cycles",
  "Tests compare rewritten program text for small examples; equivalence is over all programs and all input histories.",
  ["spade-mir/src/aliasing.rs","spade-mir/src/passes/split_compound_regs.rs","spade-mir/src/passes/auto_clock_gating.rs","spade-mir/src/passes/deduplicate_mut_wires.rs"],
  [("alias flattening","spade-mir/src/aliasing.rs flatten_aliases"),("register splitting","spade-mir/src/passes/split_compound_regs.rs"),("clock gating","spade-mir/src/passes/auto_clock_gating.rs"),("wire dedup","spade-mir/src/passes/deduplicate_mut_wires.rs")])

p("C13","Unification bookkeeping is a consistent substitution",
  "Resolving a type variable always ends at the most recent representative of everything it was merged with, merging never loses or cross-wires earlier merges, and undoing a speculative scope restores exactly the resolutions from before it. Combining two kind constraints is symmetric, idempotent, and yields a kind at least as specific as both or fails exactly when no such kind exists.",
  ["histories"],"every sequence of merge, push, discard and lookup operations on type variables, and every pair of kinds",
  "A history property: path-compression mistakes surface only after particular interleavings of merges, lookups and discarded scopes.",
  ["spade-typeinference/src/replacement.rs","spade-types/src/meta_types.rs"],
  [("replacement stack","spade-typeinference/src/replacement.rs ReplacementStack"),("kind meet","spade-types/src/meta_types.rs unify_meta")])

p("C14","Pipelines deliver every value in the stage it is used in",
  "In an accepted pipeline, a name used in stage n denotes the value that name had for the same transaction, delayed by exactly the number of stage boundaries between its definition (plus its own latency) and the use; absolute, relative and labelled stage references see the value of the stage they name, and valid/ready/enable conditions gate exactly the stages they guard. Using a value before it is available is rejected.",
  ["programs","histories"],"every pipeline shape (stage count, definitions, latencies, references, stage conditions) and every sequence of cycles",
  "Tests compare MIR for small pipelines; alignment is a claim over all shapes and all input histories.",
  ["spade-hir-lowering/src/substitution.rs","spade-hir-lowering/src/pipelines.rs"],
  [("per-stage substitution","spade-hir-lowering/src/substitution.rs"),("stage lowering","spade-hir-lowering/src/pipelines.rs")])

p("C15","Arguments bind to the parameters they are written for",
  "Matching a call's argument list against a parameter list assigns each parameter exactly one argument: positional arguments in order, named arguments by name regardless of order, shorthand arguments to the equally named parameter. A list with a missing, surplus, repeated or unknown argument is always rejected with the corresponding error and never silently reordered or dropped.",
  ["programs"],"every parameter list and every positional or named argument list of any length and order",
  "Tests list a few permutations; the claim is over all lists, orders and duplications.",
  ["spade-hir/src/param_util.rs"],
  [("argument matching","spade-hir/src/param_util.rs match_args_with_params")])

p("C16","Expressions parse with the documented precedence and associativity",
  "The parsed tree of an operator expression is the unique tree determined by the operator precedence table and left associativity, unary operators bind tighter than every binary operator, and printing that tree fully parenthesised and parsing it again gives the same tree. No operand or operator is dropped, duplicated or reordered.",
  ["inputs"],"every sequence of operands and operators, of any length and nesting",
  "Tests check a few pairs of operators; there are hundreds of pairs and unbounded chains.",
  ["spade-parser/src/expression.rs"],
  [("precedence climbing","spade-parser/src/expression.rs expr_bp"),("binding powers","spade-parser/src/expression.rs binop_binding_power/unop_binding_power")])

p("C17","Source locations combine to the smallest enclosing span",
  "Combining two source spans of one file gives the smallest span containing both, whatever their order; a position lookup returns exactly the recorded spans that contain the position, innermost ones included, and never one that does not.",
  ["inputs","histories"],"every pair of spans, every set of recorded spans and every position",
  "Diagnostics tests pin a few rendered messages; nested, equal and touching spans are unbounded families.",
  ["spade-common/src/location_info.rs","spade-common/src/loc_map.rs"],
  [("span merge","spade-common/src/location_info.rs"),("span map","spade-common/src/loc_map.rs LocMap")])

p("C18","Names resolve to the innermost visible definition",
  "Looking a name up finds the definition in the innermost open scope that defines it, a later definition shadows an earlier one only while its scope is open, closing a scope restores exactly the earlier visibility, and a name defined nowhere in scope is reported as undefined rather than resolved to something else. Every definition gets an identity of its own.",
  ["histories","programs"],"every sequence of scope openings, closings, definitions and lookups",
  "A history property over arbitrary nesting and shadowing; tests use a couple of nested scopes.",
  ["spade-hir/src/symbol_table.rs"],
  [("scopes and lookup","spade-hir/src/symbol_table.rs SymbolTable")])

p("C19","Compilation output does not depend on schedule or hash order",
  "Compiling the same sources with the same options always produces byte-identical Verilog and diagnostics, whatever the thread schedule or iteration order of internal tables.",
  ["schedules","configurations"],"every source set, thread schedule and hash seed",
  "Needs all schedules; tests run one.",
  ["spade-compiler/src/lib.rs"],
  [("driver","spade-compiler/src/lib.rs compile")])

p("C20","Well-typed programs behave as the language reference says end to end",
  "For every accepted program the generated Verilog simulates to the behaviour the language reference gives the source, across all stages of the compiler together, and compilation of any source text terminates with output or diagnostics.",
  ["programs"],"every source program",
  "A whole-compiler statement over all programs.",
  ["spade-compiler/src/lib.rs","spade-hir-lowering/src/lib.rs","spade-typeinference/src/lib.rs"],
  [("whole pipeline","spade-compiler/src/lib.rs")])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
