PROPS = {
 "C01": {"proofs": ["c01.rs"], "features": ["c01"], "level": "proof", "quick_secs": 12,
   "technique": "deductive verification (Verus) of the extracted width functions + bounded replay",
   "level_note": "All obligations of Type::size, Type::backward_size and tag_size are discharged for all types; BigUint and next_power_of_two/ilog2 contracts are assumed; panics count as divergence.",
   "assumptions": ["num::BigUint arithmetic behaves as mathematical naturals (assumed contracts)", "usize::next_power_of_two / ilog2 contracts assumed", "panic!/unreachable! are treated as divergence (partial correctness)"]},
 "C04": {"proofs": ["c04.rs"], "features": ["c04"], "level": "proof", "quick_secs": 25,
   "technique": "deductive verification (Verus) of eval.rs: Value::{as_string, width, as_u64, as_u32_chunks} and eval_statements, arm by arm + bounded comparison of register and memory initial values",
   "level_note": "proved for every well formed value: the text is exactly the layout bits (two's complement, members in order, X for undefined), width is their number, as_u64 (up to 64 bits) and as_u32_chunks (any width) are the number these bits spell; proved for every non-empty well typed statement list of the evaluable operators: the result is well formed, has the width of the type of the last statement and is the value its operators mean. Where the code generator and test benches use the result is covered by the bounded stand-in.",
   "assumptions": ["String, format!, join and chars have their library meaning (assumed contracts on a ghost character sequence)", "num::BigInt / BigUint arithmetic, shifts and masks are exact; u64::checked_shl (assumed contracts)", "hash maps keyed by value name", "the statement list is well typed (constants fit their type, sums fit the result type, enum options fit): what type inference guarantees", "panic!/todo! are divergence: evaluation of any other operator aborts"]},
 "C05": {"proofs": ["c05.rs"], "features": ["c05"], "level": "proof", "quick_secs": 25,
  "technique": "deductive verification (Verus) of the exhaustiveness analysis: usefulness.rs (is_useful, Matrix, PatStack, Witness, Usefulness), pattern.rs (constructor splitting and coverage, translation of written patterns), the refutability checks and the decision of the match lowering + bounded comparison of accepted and rejected programs with enumerated values",
  "level_note": "proved for every type, every pattern list and every depth: when the analysis finds nothing, every value of the type is matched by an unguarded arm; every reported missing pattern is well typed, describes at least one value, and no unguarded arm matches any value it describes; splitting covers exactly the values of the type (the bounds of intN/uintN included); the translation of a written pattern matches the same values; a binding pattern is accepted iff it matches every value; a match is lowered only if it is exhaustive (or its type already had an error) and rejected for a missing pattern only if it is not. Termination of the analysis is not proved. That the generated hardware selects the first matching arm is C02/C04's subject and the end-to-end tests'.",
  "assumptions": ["patterns are well typed at the type of the matched value (what type inference establishes)", "the type, symbol and enum option lookups are unconstrained functions of the pattern's number and of the name", "sort, dedup, drain, extend and extend_from_slice of Vec (assumed contracts); num arithmetic is exact", "number widths and array sizes fit u128 (the code panics otherwise)", "the text of diagnostics is dropped; the statements of the match lowering after the check are not part of the extract", "termination of is_useful is not proved"]},
 "C06": {"proofs": ["c06.rs"], "features": ["c06"], "level": "proof", "quick_secs": 25,
   "technique": "deductive verification (Verus) of ConstraintExpr::evaluate, arm by arm, + bounded replay",
   "level_note": "evaluate and bits_to_store are proved exact for every expression tree and every assignment; BigInt arithmetic and TypeVarID::resolve are assumed contracts; constraint propagation and surface syntax are covered by the bounded stand-in only.",
   "assumptions": ["num::BigInt arithmetic is exact (assumed contracts)", "TypeVarID::resolve returns the variable's current type (C13 covers the union-find)", "panic! treated as divergence"]},
 "C02": {"proofs": ["c02.rs"], "features": ["c02"], "level": "proof", "quick_secs": 45,
   "technique": "deductive verification (Verus) of the extracted member-selection function + bounded round-trip simulation of the generated Verilog",
   "level_note": "compute_tuple_index is proved to select exactly the bits of the member for every list of widths and members are proved disjoint; the text of the other projection and construction arms is covered by the bounded stand-in only.",
   "assumptions": ["num::BigUint arithmetic is exact (assumed contracts)", "the Verilog subset simulator of the harness implements IEEE 1364 selection and concatenation"]},
 "C03": {"proofs": ["c03.rs"], "features": ["c03"], "level": "proof", "quick_secs": 40,
   "technique": "deductive verification (Verus) of every operator arm of forward_expression_code against IEEE 1364 width and signedness rules, of the intrinsic handlers and of the operator arms of expression lowering + bounded simulation of generated Verilog",
   "level_note": "the evaluation rules of the emitted expressions (context width, signedness, sign extension, truncating assignment, out-of-range selects being illegal) are written down once as a specification; each arm is proved to emit exactly the text of an expression, legal by those rules, whose assigned value is the operator's mathematical value reduced to the result width, for all widths and values: + - * / % (signed and unsigned), all comparisons (including zero width), shifts, && || ^ !, & | ^ ~, unary minus, reductions, select, truncation, sign and zero extension, concatenation, array construction, array index and range. The handlers of the intrinsics (eq, ne, lt, le, gt, ge, trunc, sext, zext, transmute, concat, bit and reduction operators) and the binary and unary operator arms of lowering are proved to emit that operator on those operands with the inferred result type, signed exactly for int, and to reject illegal widths. Match text, memories and the table from intrinsic names to handlers are covered by the bounded stand-in only.",
   "assumptions": ["the specification of Verilog expressions covers two-valued operands; x and z are not modelled", "operands of the operators without a zero width case are at least one bit wide (checked by passes/disallow_zero_size before code generation)", "signals are declared with the width of their type (C02, C09)", "decimal texts consist of digits; variable names contain no # (SignExtend builds its text by replacing #[ and #])", "an index computed in 32 bits reaches every bit: arrays are narrower than 2^32 bits", "types and signal names of expressions are looked up unchanged during lowering (assumed contracts of concrete_type_of, variable and lower)", "the deprecated DivPow2 is excluded: its documented value is contradictory"]},
 "C08": {"proofs": ["c08.rs"], "features": ["c08"], "level": "proof", "quick_secs": 15,
  "technique": "deductive verification (Verus) of vcd-translate (translate_value, inner_translate_value, translate_uint, translate_signed_int, value_from_str), ConcreteType::to_mir_type and Type::size + bounded comparison with an independent printer, also on simulated hardware",
  "level_note": "proved for every type and every bit string: the text is exactly that of the declared layout (each member from the bits after those of its predecessors, the payload of a variant after the tag, numbers in (two's complement) positional value for any width, extension by the dump rules), slices are in range, arithmetic does not overflow and no panic of the translation is reachable. Array elements are proved to be listed from the most significant bits down, which is the reverse of the source order (known finding array-order). Decimal text and name tails are opaque functions.",
  "assumptions": ["decimal conversion of num and the name of a variant are uninterpreted", "strings are sequences of characters; to_lowercase on dump characters", "types are well formed (number types carry a width), widths fit usize; num arithmetic is exact; usize is 64 bits", "the bit assigned to each part is the layout of proofs/layout.rs, tied to the code generator by C02 and C09"]},
"C09": {"proofs": ["c09.rs"], "features": ["c09"], "level": "proof", "quick_secs": 20,
  "technique": "deductive verification (Verus) of field_ref.rs, range.rs, the range computations of spade-simulation-ext, ConcreteType::to_mir_type, Type::size/backward_size and ComparisonResult::matches + bounded testbench runs on simulated Verilog",
  "level_note": "proved for every type: lowering keeps the forward and the inverted width; the references of whole ports cover exactly the port; the reference of a member occupies, in each direction, exactly the bits after the members declared before it (hence: inside its parent, disjoint from its siblings, and reading it from the concatenated members gives that member); is_full is exact relative to the parent; driven/observed sides and their types are never confused; comparison ignores exactly the undefined expected bits. That inference finds the member's type, the field cache and compile_expr are the bounded part (C04 proves the constant evaluator).",
  "assumptions": ["strings are sequences of characters, bit strings are ASCII (indexing by byte is by character)", "of output_as_field_ref, arg_as_field, field_of_field and extract_field_read_bits only the value of the constructed reference / range / substring is taken; the surrounding type queries are assumed to return the type of the accessed member", "the two size closures passed to get_range are matched by text and given by their proved functions", "num arithmetic is exact; usize is 64 bits", "panics are divergence"]},
 "C10": {"proofs": ["c10.rs"], "features": ["c10"], "level": "proof", "quick_secs": 25,
   "technique": "deductive verification (Verus) of impl_tab.rs: overlap of type headers and ImplTab::insert + bounded comparison with a search for common instances",
   "level_note": "proved for all headers and all tables: the overlap test says no only if no concrete type is an instance of both headers and yes only if one is; insert accepts exactly when no present implementation of the trait for the target overlaps, adds exactly the new entry, changes nothing else, and keeps the table free of two implementations selected by the same concrete arguments. That the table is fed the right headers by the front end is the bounded part.",
   "assumptions": ["hash maps keyed by trait name, target and argument lists (equality ignores source locations, names by number)", "declared types have their declared number and kinds of arguments (checked by an earlier stage)", "type-level expressions in headers are rejected earlier (unreachable!: a panic is divergence)", "the text of the diagnostic is dropped"]},
"C13": {"proofs": ["c13.rs"], "features": ["c13"], "level": "proof", "quick_secs": 20,
   "technique": "deductive verification (Verus) of ReplacementStack (new, push, discard_top, insert, get with path compression) and unify_meta + bounded comparison of whole-term unification",
   "level_note": "proved for all histories: get returns the unique end of the chain, path compression changes no resolution, a merge redirects exactly the merged class, scopes restore exactly. unify_meta is proved to be the greatest lower bound. unify_inner itself (which representatives are merged) is covered by the bounded stand-in.",
   "assumptions": ["FxHashMap is a finite map (assumed contract)", "CloningRWLock is transparent in single threaded use; get's interior mutation is modelled as &mut self", "insert is called with a representative as `from` (bounded check only)"]},
 "C12": {"proofs": ["c12.rs"], "features": ["c12"], "level": "proof", "quick_secs": 30,
   "technique": "deductive verification (Verus) of register splitting and clock gating (both passes, every type) against the cycle semantics of mid-level statements + bounded simulation of random units before and after alias flattening, duplicate wire removal and combinations of passes",
   "level_note": "proved for every list of statements: whatever run satisfies the statements a pass returns satisfies the statements it was given: split registers start, load, hold and reset every member like the whole register (tuples, structs, arrays, nested); a gated register equals the original in every cycle up to the payload bits of the variant without payload, which no program can observe through the type. Alias flattening and duplicate wire removal are covered only by the bounded stand-in; inlining only where other checks' source programs use it.",
   "assumptions": ["names from ExprIdTracker are fresh (so that the new statements can be satisfied and touch nothing else)", "the operands of a register have its type", "iterator unzip/flatten/chain/collect and Vec contracts", "termination of the mutual recursion over types is not proved", "the meaning of operators (index, bit range, concatenation, select) is the one C02 and C03 tie to the emitted text", "flatten_aliases, replace_duplicate_mut_wires and inline.rs: bounded only"]},
 "C14": {"proofs": ["c14.rs"], "features": ["c14"], "level": "proof", "quick_secs": 40,
   "technique": "deductive verification (Verus) of the substitution table, handle_statement, lower_pipeline, the enable/valid logic, available_in and the lowering of stage references + bounded simulation of generated pipelines against a delayed-value model",
   "level_note": "proved for every pipeline: under the meaning of the emitted statements (registers delay, selects choose, aliases copy), looking a name up in stage n gives its value of the same transaction, delayed by the boundaries crossed and held exactly where a stage's enable is false; a name with a latency is refused before it is available; the enables are the conjunction of the conditions downstream; valid and ready signals are those of the stage they are read in; the latency of an expression is the common latency of its parts (conditions and matched values included) and the result has latency 0. alias/variable of names and stage references use exactly that table. How the remaining expressions are lowered is C03's part; the bounded part simulates whole pipelines and checks early uses are rejected.",
   "assumptions": ["every name is bound once per unit and new_name is fresh", "stage(..) offsets are within the pipeline (checked by typeinference)", "hash maps keyed by NameID are finite maps", "termination of the structural recursion in available_in and alias", "sums of latencies do not exceed usize", "the zero width test of a type is C08's", "the signal a lowered condition denotes is uninterpreted (conditions read undelayed names: known finding late-condition)", "which clock a register uses is not part of the meaning of statements"]},
 "C15": {"proofs": ["c15.rs"], "features": ["c15"], "level": "proof", "quick_secs": 20,
   "technique": "deductive verification (Verus) of match_args_with_params (all parameter lists, all argument lists, defaults, every error) and of the value parameter list's as_listlike + bounded comparison of whole calls",
   "level_note": "proved for every list: accepted iff complete, every parameter bound to the argument of its position / name or to its own default, in parameter order; each error reported only when it is true. The call sites (typeinference, hir-lowering) and named patterns are covered by the bounded stand-in.",
   "assumptions": ["FxHashSet is a finite set by name; slice::sort_by_key is a stable permutation into order (assumed contracts)", "the parameter names are pairwise different (checked by ast-lowering for value parameters)", "Loc<Identifier> compares by name", "the parameter list wrapper of type parameters is covered by the bounded stand-in"]},
 "C16": {"proofs": ["c16.rs"], "features": ["c16"], "level": "proof", "quick_secs": 20,
   "technique": "deductive verification (Verus) of the expression parser's precedence climbing (expr_bp, custom_infix_operator, operator tables, negative literals) + bounded print/parse comparison",
   "level_note": "proved for every finite token sequence: the returned tree is the one the operator table determines (shown to be unique), its tokens are exactly a prefix of the input, its spans are the merged spans of its parts, and no operator that binds tighter is left behind. The operands (base_expression: literals, calls, blocks, method chains) and every other production are covered by the bounded stand-in.",
   "assumptions": ["peek/eat_unconditional return the tokens of a finite sequence in order (assumed contracts)", "derive(PartialOrd) on OpBindingPower orders variants as declared", "Clone returns an equal value", "num::BigInt negation is exact"]},
 "C17": {"proofs": ["c17.rs"], "features": ["c17"], "level": "proof", "quick_secs": 20,
   "technique": "deductive verification (Verus) of location_info.rs: Loc/WithLocation combinators and LocMap + bounded comparison on parsed files",
   "level_note": "proved for all spans and all histories: merged spans are the smallest span enclosing both, mapped nodes keep span and file, LocMap::around returns exactly the inserted entries whose range contains the position. That the parser attaches the right tokens to each node is proved for operator expressions (C16) and covered by the bounded stand-in elsewhere.",
   "assumptions": ["codespan::Span::merge returns the smallest enclosing span (assumed contract)", "BTreeMap::range, entry and iteration contracts (assumed)", "byte offsets stay within u32 (codespan asserts it: a panic is divergence)"]},
 "C18": {"proofs": ["c18.rs"], "features": ["c18"], "level": "proof", "quick_secs": 30,
   "technique": "deductive verification (Verus) of symbol_table.rs and the path functions of name.rs + bounded comparison of histories with a reference model and of nested programs with an interpreter",
   "level_note": "proved for every table: scope and namespace operations, adding things, types, variables and aliases (exactly one entry, in exactly the named scope, under the full name, with an identity no earlier definition has), uniqueness checks, and lookup of alias-free paths: the innermost scope that defines the first segment decides, visibility of every step is enforced, a missing step is an error, and what is found is never an alias. Lookup through aliases is proved only as far as termination-independent facts (the result exists and is no alias, an error in the alias is an error); which thing an alias chain reaches, look-up barriers, deprecation notes and declarations are the bounded part.",
   "assumptions": ["hash maps and sets keyed by Path and NameID (equality of segments ignores locations, of name ids is by number)", "Vec, VecDeque and Option library contracts", "NameIdTracker is a counter that does not wrap", "panics (expect, indexing underflow, duplicate identity) are divergence", "termination of the alias walk is not proved"]},
}
HOOK_COMMITS = ["6d7371c"]
NOT_APPLICABLE = {
 "C07": "the linear check (spade-typeinference linear state tree) was read but not brought under contract: its statement needs an ownership semantics for every expression form, and the pinned code breaks the property (a range index of an array of inverted values counts as a use of all of it: see DESIGN.md) with no small repair, so no contract stating it can be discharged; nothing is claimed",
 "C11": "injectivity of the generated Verilog names is false on the pinned code (colliding suffixes _n1, _mut, _i, _e_N, output__, instance names sub_N: described in DESIGN.md) and a repair changes the naming scheme that users' test benches rely on; the part that could be proved (value names of one unit differ) would not decide the property",
 "C19": "quantifies over thread schedules and hash seeds of the whole compiler: not expressible as contracts on functions within the verifier's reach (rayon, HashMap iteration order); no contract within reach can state it",
 "C20": "whole-compiler semantic preservation and termination on arbitrary text: would need a formal semantics of both languages and contracts on every function of every stage; out of reach of function contracts here. The stages that can be specified are C01-C18.",
}
