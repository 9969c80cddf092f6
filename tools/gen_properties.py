"""Writes properties.jsonl (kept as a script because the lines are long)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Evaluating a program yields its pointful meaning",
  "Evaluating any well-typed Ein program on the default backend gives exactly the value of its pointful definition: element (i,j,..) of a comprehension is its body at (i,j,..), a fold is the loop it describes, indexing, arithmetic, selection, reduction and concatenation mean what they say element by element (floats up to rounding). How the program is vectorised (slices, gathers, einsums, axis reductions, transpositions, in-place updates) is never observable in the result.",
  ["programs", "inputs"], "for every well-typed program built from the public combinators and every input array, on the default (numpy) backend",
  "The compiler picks among many lowering strategies by the shape of the whole expression; the tests sample a few dozen fixed programs, one shape each.",
  ["ein/codegen/phi_to_yarr.py", "ein/codegen/axial.py", "ein/codegen/array_indexing.py", "ein/backend/numpy_backend.py", "ein/backend/array_backend.py", "ein/midend/lining.py", "ein/midend/size_classes.py", "ein/midend/structs.py"],
  [("transform: pointful calculus to axis-tagged arrays", "ein/codegen/phi_to_yarr.py:transform"), ("axis alignment", "ein/codegen/axial.py:_align"), ("outlining", "ein/midend/lining.py:outline"), ("numpy staging", "ein/backend/numpy_backend.py:stage_in_array")],
  [("env", "run-time bindings of loop and let variables", "ein/backend/array_backend.py"), ("_axes", "which comprehension indices an array carries, in which order", "ein/codegen/axial.py")],
  ["Vec.eval", "Scalar.eval", "Function.numpy"])

p("C02", "All execution backends agree",
  "For every program, the reference interpreter and the numpy, torch and jax backends return the same values, the same shape and the same scalar kind (floats up to rounding), whenever the backend supports the program. The only programs a backend may refuse are folds whose count differs from element to element of an enclosing comprehension (reference interpreter only) and, on jax, sizes or slice positions computed by a running loop.",
  ["programs", "inputs", "configurations"], "for every program and input, for each of the backends naive, numpy, torch, jax",
  "Each backend re-implements every array primitive (pad, gather, take, slice, fold, reduce); tests run a fixed list of cases on them and some primitives (rank>=2 pads, broadcasting gathers) only through one shape.",
  ["ein/backend/naive.py", "ein/backend/numpy_backend.py", "ein/backend/torch_backend.py", "ein/backend/jax_backend.py", "ein/backend/array_backend.py"],
  [("shared staging of array programs", "ein/backend/array_backend.py:AbstractArrayBackend.stage"), ("per-backend primitives and operator tables", "ein/backend/*_backend.py")],
  [], ["Vec.eval(backend=...)", "Function.numpy/.torch/.jax"])

p("C03", "Results have the declared rank, shape and scalar kind",
  "The result of an evaluation has one axis per nested vector of the program's type, each axis as long as the comprehension, input or concatenation it comes from (also when some of them are empty), and elements of exactly the scalar kind (bool, int, float) of the program's type. The same holds of every size observed from inside a program.",
  ["programs", "inputs", "configurations"], "for every program, all axis lengths including 0 and 1, on every backend",
  "Tests compare values with assert_allclose, which ignores dtype and broadcasts shapes; empty axes are hardly sampled.",
  ["ein/backend/numpy_backend.py", "ein/codegen/yarr.py", "ein/codegen/axial.py", "ein/phi/phi.py", "ein/backend/naive.py"],
  [("type of each array node", "ein/codegen/yarr.py"), ("broadcast/repeat alignment", "ein/codegen/axial.py:_align"), ("in-place buffers keep the operand kind", "ein/codegen/phi_to_yarr.py:apply_inplace_on_temporaries")],
  [], ["Vec.eval", "Vec.size"])

p("C04", "Strong static typing: ill-typed programs are rejected when built",
  "Building a program raises TypeError exactly when it is ill-typed: operators accept only their kinds with no implicit promotion between bool, int and float, only vectors can be indexed and only by int scalars, sizes are ints that do not depend on a comprehension index, and folds, reductions, selections and concatenations need matching types. A program that is built successfully has the type its definition implies, which is never discovered wrong later.",
  ["programs"], "for every construction step over every combination of operand types",
  "The tests try a handful of ill-typed combinations; a typing rule is a table over all operators and kinds.",
  ["ein/phi/type_system.py", "ein/phi/phi.py", "ein/frontend/ndarray.py"],
  [("operator signatures", "ein/phi/type_system.py:UFUNC_SIGNATURES"), ("per-node type rules checked at construction", "ein/phi/phi.py:AbstractExpr.__post_init__")],
  [], ["TypeError from combinators", "expr.type"])

p("C05", "Omitted sizes are inferred from direct indexing",
  "When array or fold is called without a size, each index ranges over exactly the axis of the arrays it directly indexes (whatever else the body does with it, including arrays nested in records, comprehensions or other indexings), and giving that size explicitly produces the same result. If no usable array is directly indexed by it, construction fails with ValueError and never guesses.",
  ["programs", "inputs"], "for every body and every way an index can occur in it",
  "Inference walks arbitrary expression graphs and filters candidates by scope; tests cover a few bodies.",
  ["ein/frontend/comprehension.py", "ein/midend/size_classes.py", "ein/midend/substitution.py"],
  [("candidate collection", "ein/frontend/comprehension.py:_infer_sizes"), ("axis of an indexed expression", "ein/midend/size_classes.py:_dim_of")],
  [], ["array", "fold", "ValueError"])

p("C06", "Out-of-range indices clamp to the nearest edge",
  "Indexing a vector of length n >= 1 at position p always reads element min(max(p,0),n-1), whether p is a constant, a shifted or clipped comprehension index, a value from another array or any other integer expression, and on every axis and backend. No index value makes evaluation fail or wrap around.",
  ["programs", "inputs", "configurations"], "for every index expression, vector length and loop extent, on every backend",
  "The compiled form of an index (slice+edge pad, take, gather, elision) depends on its algebraic shape and on length/shift relations (shift beyond the end, extent longer than the array); tests sample few combinations.",
  ["ein/codegen/array_indexing.py", "ein/backend/numpy_backend.py", "ein/backend/torch_backend.py", "ein/backend/jax_backend.py", "ein/backend/naive.py"],
  [("clipped-shift to slice+pad", "ein/codegen/array_indexing.py:pad_slice_get"), ("clipping in take/gather", "ein/backend/*_backend.py:take,gather"), ("elision for provably equal sizes", "ein/codegen/array_indexing.py:transform_get")],
  [("size classes", "which axis lengths are known equal", "ein/midend/size_classes.py")], ["Vec.eval"])

p("C07", "Folds behave as sequential loops",
  "fold(init, step, count) equals running the loop acc = step(0,acc); acc = step(1,acc); ... count times from init, for any count (zero or negative runs no step and gives init), any accumulator (scalar, vector, record) and any nesting inside comprehensions and other folds. Recognising a fold as a sum, minimum, maximum or tensor contraction never changes its value.",
  ["programs", "inputs"], "for every fold body, initial value, count and surrounding indices",
  "Pattern-matched reductions and einsum lifting rewrite a fold's meaning algebraically; tests run the intended patterns, not the near misses (accumulator also inside the summand, summand independent of the counter, non-zero init, empty).",
  ["ein/codegen/phi_to_yarr.py", "ein/backend/array_backend.py", "ein/backend/jax_backend.py", "ein/backend/naive.py", "ein/frontend/comprehension.py", "ein/frontend/std.py"],
  [("reduction matching", "ein/codegen/phi_to_yarr.py:match_reduction"), ("contraction lifting", "ein/codegen/phi_to_yarr.py:Dot"), ("loop staging", "ein/backend/array_backend.py:fold")],
  [("env[acc], env[counter]", "loop variables at run time", "ein/backend/array_backend.py:fold")], ["fold", "fold_sum", "fold_min", "fold_max", "fold_argmin"])

p("C08", "Reductions combine all elements in order",
  "v.reduce(init, f) with f associative and init its identity equals f applied to the elements of v from left to right in order, each exactly once, for every length (an empty vector gives init) and any element type including vectors and records. This holds for non-commutative f and inside any nesting of comprehensions.",
  ["programs", "inputs"], "for every monoid, element type, length and surrounding indices",
  "The tree-shaped evaluation depends on the parity pattern of the length; tests use commutative monoids mostly and a few lengths.",
  ["ein/backend/array_backend.py", "ein/backend/naive.py", "ein/midend/structs.py", "ein/codegen/phi_to_yarr.py", "ein/frontend/ndarray.py", "ein/frontend/std.py"],
  [("tree reduction", "ein/backend/array_backend.py:reduce"), ("splitting records into component vectors", "ein/midend/structs.py")],
  [], ["Vec.reduce", "reduce_sum", "reduce_min", "reduce_max", "reduce_argmin"])

p("C09", "Records keep their fields, structure and order",
  "Tuples, dicts and dataclasses of scalars, vectors and further records can be returned from comprehensions, folded, reduced, selected, concatenated and indexed; projecting a field always gives the value put there, and the structure (field names, class, nesting) of the result is that of what was put in. Storing vectors of records component-wise is never observable; structures that do not match are rejected at construction.",
  ["programs", "inputs"], "for every record shape, nesting depth, field name and combination with comprehensions, folds and reductions",
  "Tests use a couple of record shapes; field-to-component mapping is positional arithmetic over nested pairs.",
  ["ein/frontend/layout.py", "ein/frontend/ndarray.py", "ein/midend/structs.py", "ein/codegen/axial.py", "ein/frontend/comprehension.py"],
  [("layouts", "ein/frontend/layout.py"), ("struct-of-arrays transform", "ein/midend/structs.py:struct_of_arrays_transform"), ("tuple slicing", "ein/codegen/axial.py:slice_tuple")],
  [], ["array", "fold", "Vec.reduce", "where"])

p("C10", "Shared and loop-invariant work is computed once and only once",
  "A subcomputation that occurs several times in a program, or that does not depend on the loops around it, is carried out at most once per evaluation: the number of times user-supplied extrinsic code on plain values runs does not multiply with occurrences, with enclosing loops it does not depend on, or with batching. Sharing and hoisting never change a result, never move a use outside the scope of what it needs, and never fail.",
  ["programs", "histories"], "for every pattern of sharing, nesting and scoping of subexpressions, in programs over scalars and vectors (components of records of which only some are used may be computed per use)",
  "Tests check running time of one or two graphs; the transformation depends on dominators and scopes of the entire graph.",
  ["ein/midend/lining.py", "ein/term.py", "ein/backend/numpy_backend.py"],
  [("common subexpressions at immediate dominators", "ein/midend/lining.py:_bind_common_subexpressions"), ("loop-invariant code motion", "ein/midend/lining.py:_loop_invariant_code_motion")],
  [("insertions", "where each shared term gets bound", "ein/midend/lining.py")], ["calls of functions passed to ext", "eval results"])

p("C11", "Evaluation is pure and repeatable",
  "Evaluating never modifies any array the user supplied (captured in the program, passed to a function or given in an environment) nor the environment itself, and evaluating the same program again, on any backend and in any order with other evaluations, gives the same result. A result once returned keeps its value whatever is evaluated afterwards.",
  ["histories", "programs", "inputs"], "for every history of evaluations and calls over shared arrays, programs and functions",
  "Tests evaluate each program once and never look at the inputs again; in-place updates of temporaries depend on expression shapes.",
  ["ein/backend/numpy_backend.py", "ein/codegen/phi_to_yarr.py", "ein/backend/array_backend.py", "ein/frontend/functions.py"],
  [("in-place operations only on fresh temporaries", "ein/codegen/phi_to_yarr.py:apply_inplace_on_temporaries"), ("environment handling of folds, reductions and lets", "ein/backend/array_backend.py")],
  [("env", "mutable run-time environment", "ein/backend/array_backend.py")], ["input arrays", "env dict", "results"])

p("C12", "Functions are staged per signature and always answer for their arguments",
  "Calling a staged function returns, for every history of earlier calls with any argument types, shapes, values and backends, exactly what tracing it afresh for these arguments would give. The Python body is traced at most once per combination of argument types and backend, a declared signature is enforced with TypeError on every call, and failed calls leave later calls unaffected.",
  ["histories", "inputs", "configurations"], "for every sequence of calls of one or several functions",
  "Staleness shows only over call histories mixing types, shapes and backends; tests call a function a few times.",
  ["ein/frontend/functions.py", "ein/phi/type_system.py", "ein/backend/array_backend.py"],
  [("staging cache", "ein/frontend/functions.py:Function._interpret"), ("types from arguments", "ein/frontend/functions.py:Function._types_from_args")],
  [("_staged", "staged programs by (types, backend)", "ein/frontend/functions.py")], ["Function call results", "trace count", "TypeError"])

p("C13", "Distinct constants and symbols are never conflated",
  "Two constants that differ in value, shape, scalar kind, precision or sign of zero keep their own meaning wherever they occur together in one program or across programs and calls, also when an array was changed by the user between building two programs. The same holds of distinct indices, loop variables and arguments that look alike.",
  ["programs", "inputs", "histories"], "for every pair of constants or symbols occurring in the same program or process",
  "Programs are compared structurally through hashes and equality of embedded arrays; tests never put near-equal constants side by side.",
  ["ein/value.py", "ein/term.py", "ein/symbols.py", "ein/midend/lining.py", "ein/codegen/phi_to_yarr.py"],
  [("value equality and hashing", "ein/value.py:Value"), ("term equality", "ein/term.py:Term.__eq__")],
  [], ["eval results"])

p("C14", "Scalar operators and Python syntax mean the usual mathematics",
  "Python operators and methods on Ein scalars (+, -, *, /, %, **, unary -, abs, comparisons, &, |, ~, min, max, where, exp, sin, cos, tanh, float), mixed with Python numbers (on either side for + - * / and comparisons), evaluate to the usual mathematical result of numpy for their kind; x ** n is repeated multiplication for integer n, including 0 and negative n. Staged values refuse to be used as Python booleans or iterated.",
  ["inputs", "programs"], "for every operator, operand order, operand kind and value, on every backend",
  "Tests use few values per operator and rarely the reflected forms or edge values (negative modulo, zero power).",
  ["ein/frontend/ndarray.py", "ein/codegen/yarr.py", "ein/backend/torch_backend.py", "ein/backend/jax_backend.py", "ein/frontend/std.py"],
  [("operator sugar", "ein/frontend/ndarray.py:Scalar"), ("operator tables", "ein/codegen/yarr.py, ein/backend/*_backend.py")],
  [], ["Scalar methods", "eval"])

p("C15", "Gradients through Ein are the derivatives of the program",
  "Differentiating an Ein program's result with the host framework (torch autograd, jax.grad) with respect to a captured or passed array gives the mathematical derivative of the pointful program wherever it is differentiable, including through indexing, folds, reductions, selections and contractions. Every backend that can differentiate gives the same gradient.",
  ["programs", "inputs", "configurations"], "for every differentiable program and input",
  "Tests differentiate two or three programs; any step that detaches, copies through numpy or duplicates a contribution breaks gradients while values stay right.",
  ["ein/backend/torch_backend.py", "ein/backend/jax_backend.py", "ein/frontend/functions.py", "ein/value.py"],
  [("tensors flow unconverted through staged code", "ein/backend/torch_backend.py, ein/backend/jax_backend.py"), ("conversion of arguments", "ein/frontend/functions.py")],
  [], ["torch .backward()", "jax.grad"])

p("C16", "Extrinsic functions are applied pointwise as declared",
  "A host function brought in with ext behaves in a program as if called once per combination of the indices its operands depend on, with operands of the declared types in the given order and aligned batch axes, and its result is used as a value of the declared type. Calls with wrong operand types or a wrong number of operands are rejected at construction when an input signature was declared.",
  ["programs", "inputs"], "for every batched host function, operand combination and surrounding comprehension",
  "Alignment of batch axes depends on the order in which indices are introduced and on which operands mention them; tests cover a few.",
  ["ein/frontend/ndarray.py", "ein/codegen/phi_to_yarr.py", "ein/backend/array_backend.py"],
  [("ext", "ein/frontend/ndarray.py:ext"), ("operand alignment", "ein/codegen/phi_to_yarr.py")],
  [], ["ext", "eval"])

p("C17", "Concatenation, whole-vector selection and standard helpers",
  "concat yields the elements of its arguments in order with lengths added; where on vectors and records selects the whole value; or_empty yields the default exactly for empty vectors; whole-axis slices, assume, min/max of several arguments and the fold_*/reduce_* helpers (sum, min, max, argmin with the first minimiser) equal their definitions. This holds for every length including zero and inside comprehensions.",
  ["programs", "inputs", "configurations"], "for every combination of lengths, ranks and surrounding indices",
  "Lengths interact (empty parts, different ranks, batched concatenation); tests fix a few.",
  ["ein/frontend/std.py", "ein/frontend/ndarray.py", "ein/codegen/phi_to_yarr.py", "ein/backend/array_backend.py"],
  [("concat", "ein/codegen/phi_to_yarr.py"), ("std helpers", "ein/frontend/std.py"), ("or_empty, slices", "ein/frontend/ndarray.py")],
  [], ["eval"])

p("C18", "Free variables, environments and let bindings are scoped correctly",
  "A program with free variables evaluates to its meaning under exactly the bindings of the given environment; if any free variable is missing evaluation raises ValueError before computing anything, and extra bindings change nothing. Let bindings, loop variables and substitution respect lexical scope: a bound name is visible only in its body and renaming or inlining bindings never changes the value.",
  ["programs", "inputs"], "for every program with free variables and lets, and every environment",
  "Scoping errors need particular nestings of binders; calculus-level tests have few lets.",
  ["ein/frontend/ndarray.py", "ein/midend/lining.py", "ein/midend/substitution.py", "ein/term.py", "ein/backend/array_backend.py", "ein/backend/naive.py"],
  [("free symbols", "ein/term.py:Term.free_symbols"), ("inline/outline", "ein/midend/lining.py"), ("environment at run time", "ein/backend/array_backend.py:stage")],
  [("env", "bindings", "ein/backend")], ["Vec.eval(env=...)", "ValueError"])

p("C19", "Printing and graphing programs is total and has no effect",
  "Any program, at either level of the compiler, can be pretty-printed and turned into a graph without failing, and doing so (at any point and any number of times) does not change what the program or any other program evaluates to. Printing the same program twice gives the same text up to the names of bound variables, and every operation of the program appears in it.",
  ["programs", "histories"], "for every program and every interleaving of printing with evaluation",
  "Tests print a few programs and do not evaluate afterwards.",
  ["ein/debug/pprint.py", "ein/debug/graph.py", "ein/phi/phi.py", "ein/codegen/yarr.py"],
  [("printers", "ein/debug/pprint.py"), ("graphs", "ein/debug/graph.py"), ("debug info", "ein/phi/phi.py, ein/codegen/yarr.py")],
  [], ["ein.debug"])

p("C20", "Optimisations are invisible: every lowering gives the same result",
  "Switching any combination of the compiler's optimisations (takes, slice+pads, slice elision, axis reductions, einsum, shape and tuple cancellation) on or off compiles every program to code with the same values, shape and kind. The same holds of outlining (sharing and hoisting) and of in-place updates.",
  ["programs", "inputs", "configurations"], "for every program and every setting of the optimisation switches",
  "The switches are not exercised by any test; each gives 2^7 compilers.",
  ["ein/codegen/phi_to_yarr.py", "ein/codegen/array_indexing.py", "ein/midend/lining.py"],
  [("switches", "ein/codegen/phi_to_yarr.py:transform"), ("fallback lowerings", "ein/codegen/array_indexing.py:general_get")],
  [], ["staged array program results"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for r in P: f.write(json.dumps(r) + "\n")
