#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that statements stay easy to edit)."""
import json, pathlib
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
C = "components/core/wf/"
E = C + "expressions/"
G = C + "code_generation/"
W = "components/wrapper/pywrenfold/"

prop("C01", "Building an expression never changes its mathematical value",
 "For every expression built through the public API from numbers, constants, symbols, arithmetic operators, powers and elementary functions, the expression wrenfold stores evaluates to the same number as the operations that were requested, at every point (real or complex, inside the declared sets of the symbols) where the requested operations have a finite value. In particular automatic simplification never drops a term, sign, branch or coefficient, and never yields an undefined/infinite result where the requested value is finite.",
 ["inputs", "programs"], "all finite compositions of the constructors, all symbol sets, all points in the domain",
 "Unit tests compare a few hundred hand-picked expressions structurally; simplification rules interact (number folding x power splitting x trig identities) over an unbounded space of compositions.",
 [E+"addition.cc", E+"multiplication.cc", E+"power.cc", C+"functions.cc", E+"numeric_expressions.h", C+"utility_visitors.cc"],
 [("addition_parts / multiplication_parts normalisation", E+"addition.cc, multiplication.cc"), ("power::create numeric and symbolic rules", E+"power.cc"), ("function identities", C+"functions.cc")],
 ["Expr operators and sym.* functions", "Expr.expression_tree_str", "Expr.eval"])

prop("C02", "Derivatives and jacobians are mathematically correct",
 "For every scalar expression, differentiating it with respect to a symbol (any order), or taking a jacobian of a vector or matrix expression, yields an expression whose value equals the true derivative at every point where the function is differentiable, including through conditionals, undefined functions, deferred substitutions and external variables. Sub-expressions marked as derivative-stopped contribute exactly zero, and each jacobian entry (i, j) is the derivative of function i by variable j.",
 ["inputs", "programs"], "all expressions, differentiation variables, orders and jacobian shapes; all points of differentiability",
 "Tests check closed forms for isolated rules; chain/product/power-rule combinations with caching of shared sub-expressions are unbounded.",
 [C+"derivative.cc", C+"derivative.h", E+"derivative_expression.cc", E+"substitute_expression.cc", E+"stop_derivative.cc"],
 [("derivative_visitor rules per node type", C+"derivative.cc"), ("derivative cache", C+"derivative.h")],
 ["Expr.diff", "MatrixExpr.diff", "sym.jacobian", "sym.derivative"])

prop("C03", "Substitution equals evaluation at the replaced values",
 "Replacing targets by replacements (one pair or a list; symbols, whole sub-expressions, partial sums/products/powers, booleans, undefined functions) gives an expression whose value is the value of the original with every matched occurrence replaced, the pairs of a list being applied in the order given, as documented. Nothing that does not match is altered, and replacing a symbol by an expression never leaves that symbol behind unless the replacement contains it.",
 ["inputs", "programs"], "all expressions, targets and replacement lists",
 "Tests sample some dozens of target shapes; matching against flattened sums, products and powers with coefficients depends on the whole expression.",
 [C+"substitute.cc", C+"substitute.h", E+"substitute_expression.cc"],
 [("exact, addition, multiplication, power and multi-variable substitution visitors", C+"substitute.cc")],
 ["Expr.subs", "MatrixExpr.subs", "BooleanExpr.subs", "sym.substitution"])

prop("C04", "Rewrites (collect, distribute, evaluate) preserve value",
 "Distributing products over sums, collecting an expression by one or more terms, and numerically evaluating constants each yield an expression with the same value as their input at every point where the input is finite. After distribution no product with a sum, and no positive integer power of a sum, remains un-expanded; collecting by a term leaves at most one additive term per power of it (when no coefficient contains the term itself); evaluating the constants of a matrix or quaternion leaves no exact constant inside a numeric element.",
 ["inputs", "programs"], "all expressions and collection terms",
 "Tests cover small polynomials; powers of sums, nested rewrites, symbolic exponents and interplay with canonicalisation are unbounded.",
 [C+"collect.cc", C+"distribute.cc", C+"evaluate.cc", C+"numerical_casts.cc"],
 [("distribute_visitor", C+"distribute.cc"), ("collect_visitor", C+"collect.cc"), ("evaluate_visitor / numerical_cast", C+"evaluate.cc")],
 ["Expr.distribute", "Expr.collect", "Expr.eval", "MatrixExpr.eval"])

prop("C05", "Sub-expression elimination is lossless and minimal in scope",
 "Eliminating common sub-expressions of a scalar or matrix expression returns a list of (variable, value) pairs and a rewritten expression such that substituting the pairs back from last to first reproduces an expression of the same value (and identical when no simplification intervenes). Each pair is used only after it is defined, every sub-expression extracted occurs at least the requested number of times, none that is used that often by distinct parents remains, and the variables are those of the caller's factory, requested once each in order. (Variable names are assumed not to occur in the input.)",
 ["inputs", "programs"], "all expressions, shapes of sharing, minimum-occurrence settings and variable factories",
 "Tests look at a handful of expressions; sharing patterns across nested conditionals and matrices are unbounded.",
 [C+"cse.cc", C+"cse.h", G+"expr_from_ir.cc"],
 [("counter_visitor / cse_visitor", C+"cse.cc"), ("rebuild_expression_tree", G+"expr_from_ir.cc")],
 ["sym.eliminate_subexpressions", "code_generation.cse_function_description"])

prop("C06", "Generated C++ computes the symbolic function",
 "For every function description (scalar, integer and matrix arguments, return values, required and optional outputs, conditionals), the generated C++ code, in both the span and the Eigen flavour, compiles, runs without undefined behaviour, and produces the values of the symbolic outputs up to floating-point rounding, wherever the outputs and all of their sub-expressions are real and finite and integers fit in 64 bits. (Argument names are assumed to be valid identifiers that differ from the names of generated temporaries.)",
 ["programs", "inputs"], "all function descriptions, numeric inputs and generator settings",
 "Tests compile about fifty fixed functions; operator precedence, integer/float typing, literals and control flow depend on the shape of the expression.",
 [G+"cpp_code_generator.cc", G+"ast_conversion.cc", G+"ir_form_visitor.cc", "components/runtime/wrenfold/span.h"],
 [("AST emission with precedence parentheses", G+"ast_conversion.cc"), ("cpp formatting", G+"cpp_code_generator.cc")],
 ["CppGenerator.generate", "compiled output under ASan+UBSan"])

prop("C07", "Generated Rust computes the symbolic function",
 "For every function description the generated Rust code is accepted by the Rust compiler and computes the values of the symbolic outputs up to floating-point rounding, wherever the outputs and all of their sub-expressions are real and finite and integers fit in 64 bits. Optional outputs that the caller passes as absent do not change any other output.",
 ["programs", "inputs"], "all function descriptions and numeric inputs",
 "The repository only diffs one generated Rust file textually in this environment; no generated Rust is executed for other expression shapes.",
 [G+"rust_code_generator.cc", G+"ast_conversion.cc", "components/rust/wrenfold-traits/src/lib.rs"],
 [("rust formatting", G+"rust_code_generator.cc"), ("span traits", "components/rust/wrenfold-traits")],
 ["RustGenerator.generate", "rustc-compiled output"])

prop("C08", "Generated Python (NumPy, PyTorch, JAX) computes the symbolic function",
 "For every function description the generated Python code runs under each supported target framework and float width, with conditionals emitted either as control flow or as traced selections and outputs either returned or written to output arguments, and produces the values of the symbolic outputs up to rounding of the chosen float width, wherever the outputs and all of their sub-expressions are real and finite and integers fit in the documented 32 bits.",
 ["programs", "inputs", "configurations"], "all function descriptions, targets, widths, ternary and output-argument modes",
 "Tests use a fixed set of functions; each combination of target, width, ternary mode and output mode multiplies with expression shape.",
 [G+"python_code_generator.cc", "components/python/wrenfold/code_generation.py", G+"ast_conversion.cc"],
 [("python formatting", G+"python_code_generator.cc"), ("generate_python exec wrapper", "components/python/wrenfold/code_generation.py")],
 ["PythonGenerator.generate", "generate_python"])

prop("C09", "Optimisation settings never change what generated code computes",
 "For every function description, every combination of factorisation passes, operation binarisation and conditional-to-control-flow conversion yields code that computes the same outputs up to rounding, each intermediate value is defined before it is used on every path, and no operation outside the taken branch affects a result. Duplicate elimination merges only computations that are equal.",
 ["programs", "configurations"], "all function descriptions x optimisation parameters x branch outcomes",
 "Tests run fixed functions mostly with default parameters; the factoriser and the control-flow converter make data-dependent choices on the whole graph.",
 [G+"control_flow_graph.cc", G+"factorizer.cc", G+"binarizer.cc", G+"ir_control_flow_converter.cc", G+"ir_form_visitor.cc", G+"expr_from_ir.cc"],
 [("eliminate_duplicates, factorize_sums, binarize, insert_negations", G+"control_flow_graph.cc"), ("conditional conversion", G+"ir_control_flow_converter.cc")],
 ["transpile", "cse_function_description", "executed generated code"],
 state=[("control flow graph invariants", "values defined before use, unique ownership", G+"control_flow_graph.cc assert_invariants")])

prop("C10", "Outputs, structs and external calls map to the right values",
 "In generated code every required output and the return value is assigned exactly once on every path; an optional output is computed exactly when requested and its absence changes no other output; every field of a custom type and every element of a matrix carries the expression that was assigned to it (a value that does not fit the declared fields is refused). Calls to external functions receive exactly the requested arguments in declared order (positional or keyword), and their results reach the expressions that used them.",
 ["programs", "inputs", "configurations"], "all signatures, subsets of requested optional outputs, nested custom types, call graphs of external functions",
 "Tests have a few struct shapes and optional-output functions; the subsets of requested outputs and nesting depth are combinatorial.",
 [G+"ir_form_visitor.cc", G+"ir_control_flow_converter.cc", G+"types.cc", G+"function_description.cc", C+"external_function.cc", E+"custom_type_expressions.cc", "components/python/wrenfold/custom_types.py", "components/python/wrenfold/external_functions.py"],
 [("optional output branches", G+"ir_control_flow_converter.cc"), ("determine_access_sequence", G+"types.cc"), ("argument combination", "components/python/wrenfold/external_functions.py")],
 ["generated code executed with recording stand-ins"])

prop("C11", "Code generation and printing are deterministic",
 "The same symbolic description gives byte-identical generated code, printed expressions, expression trees and element ordering on every run, in every process, whatever the memory layout, whatever was built before in the process, and from whichever thread it is built (unique symbols are numbered by a running counter: expressions containing them are the same only up to those numbers and the operand order that follows them).",
 ["histories", "schedules", "configurations"], "all descriptions, process histories, address-space layouts and threads",
 "Tests run one process once; dependence on pointers, container order or earlier history only shows when runs are compared.",
 [C+"utility/hashing.h", C+"utility/ordering.h", E+"addition.cc", E+"multiplication.cc", G+"control_flow_graph.cc", G+"factorizer.cc"],
 [("content hashing and canonical sort order", C+"utility/hashing.h")],
 ["recorded transcripts of generated code across processes"])

prop("C12", "Identity, hashing and ordering are coherent",
 "Identity of expressions is an equivalence relation, identical expressions have equal hashes and print the same, and the comparison of expressions is a strict total order consistent with identity. Sums and products built from the same operands in any order or grouping of additions/multiplications are identical (a number times one sum is distributed, and floats whose partial sums cancel vanish: those groupings may differ), equal constructions are identical, and expressions that differ in any value-relevant component (name, number, set, index, operation, branch) are not identical.",
 ["inputs", "programs"], "all pairs and triples of expressions of every kind, all operand permutations",
 "Tests compare selected pairs; coherence is a relation over all pairs and triples.",
 [C+"utility/ordering.h", C+"expression.cc", C+"expression_variant.h", E+"addition.cc", E+"multiplication.cc", E+"numeric_expressions.h"],
 [("hash_struct / is_identical_struct / order_struct specialisations", E)],
 ["Expr.__eq__", "Expr.__hash__", "sym.compare"])

prop("C13", "Expressions may be shared and built from many threads",
 "Threads that concurrently build, simplify, differentiate, substitute, print and generate code, on shared or separate expressions, never race, and every thread obtains exactly the result a single-threaded run obtains. Concurrently created unique symbols are all distinct.",
 ["schedules"], "all interleavings of threads using the library",
 "The test-suite is single threaded.",
 [C+"expression_variant.h", C+"constants.cc", E+"variable.cc", C+"functions.cc", E+"power.cc"],
 [("immutable reference-counted nodes, function-local statics, atomic counters", C+"expression_variant.h, variable.cc")],
 ["ThreadSanitizer", "per-thread result comparison"])

prop("C14", "No input corrupts memory, aborts, or hits undefined behaviour",
 "Whatever sequence of API calls is made with whatever arguments (including malformed, empty, huge and extreme numeric ones), the library either returns or raises one of its documented exceptions or a standard Python error; it never aborts the process, reads or writes out of bounds, uses freed memory, or executes undefined behaviour, and valid requests do not fail with internal assertion errors.",
 ["inputs", "histories"], "all API call sequences and arguments",
 "Tests pass well-formed arguments without sanitizers.",
 [C+"utility/stack_allocator.h", C+"utility/static_vector.h", C+"utility/checked_int.h", E+"numeric_expressions.h", W+"matrix_wrapper.cc", W+"scalar_wrapper.cc", C+"matrix_expression.cc", "components/runtime/wrenfold/span_detail.h"],
 [("exception translation", W+"exceptions_wrapper.cc"), ("assertions", C+"utility/assertions.h")],
 ["ASan+UBSan runtime, process exit status, exception types"])

prop("C15", "Integer and rational arithmetic is exact or reported",
 "Arithmetic on integer and rational constants is exact: every result equals the mathematically exact rational in lowest terms with positive denominator, or else an arithmetic error is raised when it (or a needed intermediate) does not fit 64 bits. Integers are never silently wrapped, rounded or turned into floats, and floor, modulo, absolute value, comparison and integer powers of exact numbers are exact.",
 ["inputs"], "all 64-bit integers and rationals, all operators",
 "Tests use small numbers and a few overflow samples.",
 [C+"utility/checked_int.h", C+"integer_utils.h", E+"numeric_expressions.h", E+"power.cc", E+"addition.cc", E+"multiplication.cc"],
 [("checked_int", C+"utility/checked_int.h"), ("rational normalisation", E+"numeric_expressions.h"), ("prime factorisation for powers", C+"integer_utils.h")],
 ["Expr operators on constants vs exact rational arithmetic"])

prop("C16", "SymPy conversion preserves meaning in both directions",
 "Converting any convertible wrenfold expression to SymPy, converting any supported SymPy expression to wrenfold, and the round trip, preserve value, symbol names and declared assumptions, and matrix shape and layout. Unsupported inputs raise an error rather than converting to something else.",
 ["inputs", "programs"], "all convertible expressions and matrices, evaluate on/off",
 "Tests cover one instance per node type.",
 [W+"sympy_conversion.cc", "components/python/wrenfold/sympy_conversion.py"],
 [("to_sympy visitor", W+"sympy_conversion.cc"), ("from_sympy conversions", "components/python/wrenfold/sympy_conversion.py")],
 ["sympy_conversion.to_sympy", "sympy_conversion.from_sympy"])

prop("C17", "Matrix operations agree with element-wise linear algebra",
 "Construction, indexing and slicing (including negative indices and steps), stacking, reshaping, transposition, vectorisation, arithmetic, norms, determinant, pivoted LU factorisation, element-wise maps and conditional selection of matrices produce the shape and elements that ordinary linear algebra prescribes, for every shape. Dimension mismatches and out-of-range indices raise a dimension error.",
 ["inputs"], "all shapes, index expressions and element values",
 "Tests use a few small fixed shapes.",
 [C+"matrix_expression.cc", C+"matrix_functions.cc", E+"matrix.cc", W+"matrix_wrapper.cc", W+"numpy_conversion.cc"],
 [("matrix operators", E+"matrix.cc"), ("determinant/LU", C+"matrix_functions.cc"), ("slices", W+"matrix_wrapper.cc")],
 ["sym.matrix and MatrixExpr API vs exact rational reference"])

prop("C18", "Quaternion and rotation routines satisfy the algebra of rotations",
 "Quaternion product, conjugate, inverse, norm and rotation-matrix conversion agree with quaternion algebra; conversions from rotation vectors, angle-axis, axis rotations and rotation matrices, and back, describe the same rotation for all inputs, including near zero and near half-turn rotations and every trace/pivot case; the conversion from a rotation matrix stays accurate in double-precision arithmetic for every rotation. SO(3) jacobians and tangent-space derivatives equal the true derivatives.",
 ["inputs"], "all quaternions, rotation vectors, axes, angles and rotation matrices",
 "Tests sample tens of rotations.",
 [C+"geometry/quaternion.cc", C+"geometry/quaternion.h", W+"geometry_wrapper.cc"],
 [("from_rotation_matrix case selection, to_rotation_vector", C+"geometry/quaternion.cc")],
 ["geometry.Quaternion API vs numeric reference"])

prop("C19", "The printed form of an expression denotes that expression",
 "Reading the printed text of any scalar, boolean or matrix expression with ordinary operator precedence and the documented function names yields the value of the expression itself. Expressions of different value never print the same text when their symbols have distinct names.",
 ["inputs", "programs"], "all expressions",
 "Tests compare fixed strings for tens of expressions.",
 [C+"plain_formatter.cc", C+"tree_formatter.cc", C+"utility_visitors.cc"],
 [("precedence handling", C+"plain_formatter.cc")],
 ["str(expr) re-parsed by an independent parser"])

prop("C20", "Runtime spans address exactly the intended elements",
 "Spans over C arrays, std containers, pointers and Eigen matrices, in any shape, stride and constness, compile- or run-time sized, address exactly the element that the dimension-and-stride rule prescribes; blocks, slices and conversions alias the same storage, and no access touches memory outside the viewed object.",
 ["inputs", "configurations"], "all shapes, strides, block offsets and source containers",
 "Tests instantiate a few constant shapes without memory checking.",
 ["components/runtime/wrenfold/span.h", "components/runtime/wrenfold/span_detail.h"],
 [("compute_index / block / strides", "components/runtime/wrenfold/span.h")],
 ["ASan+UBSan harness with shadow index model"])

prop("C21", "Declared symbol assumptions are used soundly",
 "Any simplification that relies on a symbol being declared real, non-negative, positive or complex is valid for every value in that set, also through nested expressions; two symbols of the same name but different sets are different symbols. Undeclared symbols are never simplified as if they were real or positive.",
 ["inputs", "programs"], "all expressions over symbols with declared sets, all values in those sets",
 "Tests check single rules such as the root of a square for a few expressions; inference composes through all node types.",
 [C+"number_set.cc", C+"number_set.h", E+"power.cc", C+"functions.cc", E+"conditional.cc"],
 [("set inference visitor", C+"number_set.cc")],
 ["value of simplified powers, absolute values, signs on sampled members of the sets"])

prop("C22", "Comparisons and conditionals select the right value",
 "Comparisons, equality, min, max, selection by a condition, indicator brackets, sign and floor evaluate, simplify, nest and differentiate to the value prescribed by the truth of their conditions, for all orderings of operands including ties, mixed exact and float numbers, infinities of the constants, and nested conditions. A comparison is resolved at construction only if it holds (or fails) for every admissible value of its symbols.",
 ["inputs", "programs"], "all conditions, operand kinds and orderings",
 "Tests enumerate a few constants; comparisons of mixed integer, rational, float and symbolic constants form a large matrix.",
 [E+"relational.cc", E+"conditional.cc", C+"functions.cc", C+"boolean_expression.cc", E+"special_constants.h"],
 [("relational::create numeric comparison", E+"relational.cc"), ("where/min/max/iverson", C+"functions.cc")],
 ["BooleanExpr truth value", "where/min/max/iverson values at sampled points"])

prop("C23", "Functions written in C++ are generated as they were written",
 "For every function a user writes against the C++ API - scalar, integer, matrix and custom-type arguments and fields (nested and in any registration order), external functions, return values, mandatory and optional outputs - the description scraped from its signature and the code generated from it compute exactly what the function states: every argument, field and output is wired to the one of that name and position. Expression methods of the C++ classes (differentiate, jacobian, substitute, distribute, collect) mean what their Python counterparts mean.",
 ["inputs", "programs"], "all signatures over the supported types and all bodies over the C++ API",
 "Tests declare about forty fixed functions; how argument kinds, nested fields, external calls and output kinds combine is unbounded.",
 [G+"function_evaluator.h", G+"type_registry.h", G+"declare_external_function.h", C+"type_annotations.h", C+"output_annotations.h"],
 [("build_function_description / invoke_with_symbolic_inputs", G+"function_evaluator.h"), ("custom_type_builder, native field accessors", G+"type_registry.h"), ("declare_external_function::call", G+"declare_external_function.h")],
 ["outputs of executed code that a compiled C++ program generated"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    for f in p["anchors"]["files"]:
        assert (pathlib.Path("/repo") / f).exists(), (p["id"], f)
print(len(P))
