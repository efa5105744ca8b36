#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below."""
import json, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
T = {
 "C01": ("differential value monitor over generated API call sequences on the ASan+UBSan build, against an mpmath reference",
         "every stored expression of 96 k recipes is parsed from its tree dump and evaluated at several points of the declared sets; decides only the shapes and points executed"),
 "C21": ("value monitor over the declared set of every symbol on the ASan+UBSan build",
         "probes whose simplification depends on the numeric set of an inner expression, evaluated over the whole declared set"),
 "C02": ("differential value monitor of derivatives and jacobians on the ASan+UBSan build, against high-precision numerical differentiation of the request",
         "generic points only (no point on a kink or branch cut is decided); sign, floor and indicator factors are differentiated as constants, as documented"),
 "C15": ("exactness monitor over arithmetic API call sequences on the ASan+UBSan build, against Python's unbounded integers and Fraction",
         "operands clustered at the 64-bit limits, zero, small primes and powers; overflow must raise, never wrap"),
 "C03": ("differential value monitor over substitution requests on the ASan+UBSan build, against evaluation of the stored input at the replaced values",
         "targets are drawn from the input itself or constructed to match partially; substitution into variables bound by deferred derivatives is the recorded finding K4"),
 "C04": ("differential value monitor and structural postcondition monitor over distribute, collect and eval on the ASan+UBSan build",
         "expansions of up to 250 terms (quick) or 1500 (thorough); values by an mpmath reference at points of the declared sets"),
 "C05": ("conservation monitor (expansion of every extracted variable, definition order, occurrence counts) over recorded eliminations on the ASan+UBSan build",
         "exact reproduction is required modulo operand order; by value where a simplification intervenes; names made by the caller's factory are assumed not to occur in the input"),
 "C09": ("differential output monitor and definite-assignment monitor (forced branch outcomes) over executions of code generated under every optimisation setting, on the ASan+UBSan build",
         "NumPy back end; 0-6 factorisation passes, binarisation, control flow; outputs decided where they are real, finite and well conditioned"),
 "C06": ("differential output monitor over compiled and executed generated C++ (clang ASan+UBSan, canaries around strided spans), against a real-valued reference with a rounding model",
         "span and Eigen flavours, double and float; outputs decided where real, finite and well conditioned; -O1 clang only"),
 "C07": ("differential output monitor over compiled and executed generated Rust (overflow checks, debug assertions, counted writes), against a real-valued reference with a rounding model",
         "strided, row- and column-major implementations of the span traits; outputs decided where real, finite and well conditioned; -C opt-level=0 only"),
 "C08": ("differential output monitor over executed generated NumPy, JAX (eager, jit, vmap) and PyTorch code at both float widths, against a real-valued reference with a rounding model",
         "integral arithmetic of generated Python is 32 bits wide by design: larger integers are not decided; outputs decided where real, finite and well conditioned"),
 "C17": ("element-wise model monitor over random programs of matrix operations on the ASan+UBSan build, in exact rational arithmetic",
         "shapes up to 6x6 (9x9 thorough), empty slices included; elements are rational functions of four symbols; values where no denominator vanishes"),
 "C12": ("coherence monitor (equivalence, hash, print, strict order, dictionary lookup, context congruence, regrouping) over pools of related expressions on the ASan+UBSan build, against the printed expression trees",
         "pools of 8-20 related expressions, all pairs and triples; a factor made of a number and one sum distributes and is not required to regroup, nor are floats whose partial sums cancel"),
 "C18": ("algebraic value monitor over the geometry module on the ASan+UBSan build, in 60-digit arithmetic, against independently written rotation algebra",
         "generic, near-zero, near-half-turn, exact half-turn, tied-trace and axis-aligned rotations as symbols or constants; right_local_coordinates_derivative and rotation matrices at unit quaternions only, as documented; small-angle branches to their stated order"),
 "C16": ("differential value, name, assumption and layout monitor over conversions in both directions and round trips, on the ASan+UBSan build, both sides read structurally by an independent reader and evaluated in high precision",
         "SymPy 1.14; Subs whose values contain its own variables is not decided (SymPy itself applies it in sequence); results of SymPy's own evaluation that differ from the unevaluated object are attributed to SymPy"),
 "C19": ("value monitor over printed text read back by an independent parser with Python's precedence, plus collision monitor over texts of different values, on the ASan+UBSan build",
         "symbols with identifier names; elements of custom types and external calls read by their documented access syntax; floats are compared at the printed precision"),
 "C22": ("truth and value monitor over comparisons, selections and their substitution, evaluation and differentiation on the ASan+UBSan build, in exact rational arithmetic",
         "all ordered pairs of 62 boundary constants exhaustively; random conditionals over rational or dyadic values so that ties are exact; comparisons of the code generators are left to C06-C09"),
 "C14": ("address, undefined-behaviour and container-assertion sanitizers plus an exception-type monitor over random programs of API calls found by introspection, hostile arguments included",
         "the installed C++ core and binding through the Python API, built by clang -O1 with ASan, UBSan, float-cast-overflow and libstdc++ assertions; stack exhaustion by deep nesting is the recorded finding K5; requests larger than 3 GB are refused"),
 "C10": ("wiring monitor over executed generated Python, C++ and Rust: values per subset of requested optional outputs, recorded external calls, counted element writes, forced branch outcomes, declared signatures",
         "calls shared by several outputs may be made ahead of all of them (external functions are declared pure); scalar arguments of external functions are floating point; optional outputs in up to six subsets per function"),
 "C20": ("shadow index model (for Eigen: Eigen's own element addresses) over generated programs built by clang and gcc with ASan+UBSan on exactly sized buffers",
         "one to four dimensions, shapes up to 7 (strides and indices beyond 32 bits for the linear index); vector-returning containers, C arrays, custom traits, Eigen matrices, blocks, maps (negative strides too), transposes, Ref, quaternions"),
 "C11": ("byte-identity monitor over recorded transcripts of the same programs executed in processes with different hash seeds, layouts, memory contents, histories, program orders, sharing and threads",
         "uninstrumented build with glibc's allocator; 6 processes per batch (12 thorough); texts with unique symbols, whose numbers depend on the history by design, are compared as multisets of words"),
 "C23": ("differential output monitor over executed NumPy and C++ code that compiled C++ programs (ASan+UBSan, against the instrumented core library) generated, against a real-valued reference with a rounding model",
         "random signatures and bodies in C++; the text is executed as NumPy code, a third also as compiled C++; outputs decided where real, finite and well conditioned"),
 "C13": ("ThreadSanitizer (happens-before race detection) plus per-operation result monitor against a single-threaded run, over generated multi-threaded programs in cold processes, and a uniqueness monitor over concurrently created symbols",
         "C++ core through its C++ API (the Python binding holds the GIL); 2-16 threads; schedules are those the scheduler and random yields produce; libstdc++'s own ctype cache race is suppressed"),
}
PENDING = "the check is not finished yet"
props = [json.loads(l)["id"] for l in (V / "properties.jsonl").read_text().splitlines() if l.strip()]
m = dict(version=1, setup_cmd="python3 -m wfv.build asan" + (" tsan" if "C13" in T else "") + (" plain" if "C11" in T else ""), checks=[], not_applicable=[])
for p in props:
    if p in T:
        m["checks"].append(dict(property=p, quick_cmd="python3 run.py %s" % p, thorough_cmd="python3 run.py %s --tier thorough" % p,
                                evidence_file="evidence/%s.json" % p, technique=T[p][0], level="exploration", level_note=T[p][1]))
    else:
        m["not_applicable"].append(dict(property=p, reason=PENDING))
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
