#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property list)."""
import json, os
S = "expander_compiler/src/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, base=S):
    a = {"files": [base + f for f in files], "mechanism": [{"name": n, "where": base + w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": S + w} for n, m, w in state]
    a["hook_needed"] = None
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- compiler
prop("C01", "Compiled circuits mean what the source program means",
 "For every valid source program, every choice of compile options and every input assignment, the circuit that compilation returns, run on the witness that the returned witness solver computes, yields exactly the source program's outputs and is accepted exactly when every constraint of the source program holds. This covers both layered circuit kinds, every supported field, public inputs, sub-circuits and hints. Changing options may change the size of the circuit but never its meaning.",
 ["programs", "inputs", "configurations"], "all source programs (all instruction kinds, nested sub-circuits, hints, public inputs), all inputs, all compile options, all fields, both circuit kinds",
 "The repository's random-circuit tests compare a few thousand random programs of one distribution on a few inputs, use the repository's own evaluators as the oracle on both sides, and cannot run here; a meaning change for a rare instruction mix, option or input value is not seen.",
 ["compile/mod.rs", "builder/basic.rs", "builder/hint_normalize.rs", "builder/final_build_opt.rs", "layering/compile.rs", "circuit/layered/mod.rs"],
 [("four-step compile pipeline", "compile/mod.rs"), ("layering", "layering/compile.rs")], ["compile_with_options", "witness solver output", "layered circuit run"])
prop("C02", "Source optimisation and hint normalisation preserve meaning",
 "Rewriting a source program (dropping unreachable parts, merging duplicate sub-circuit outputs, flattening chains of additions and multiplications) and lowering it to the hint-normalised form never changes the outputs or the set of accepted inputs. The reported input mapping relates old to new inputs exactly.",
 ["programs", "inputs", "configurations"], "all source programs and inputs, each rewrite alone and iterated to a fixed point",
 "Tests of the passes use random programs whose oracle is the repository's own evaluator, on one field and few inputs.",
 ["circuit/ir/common/opt.rs", "circuit/ir/source/chains.rs", "builder/hint_normalize.rs", "builder/basic.rs"],
 [("unreachable removal and output reassignment", "circuit/ir/common/opt.rs"), ("chain detection", "circuit/ir/source/chains.rs"), ("lowering", "builder/hint_normalize.rs")])
prop("C03", "Splitting hints from constraints loses nothing",
 "Separating a program into a hint-free circuit and a witness program is lossless: feeding the values the witness program computes into the hint-free circuit gives the same outputs and the same verdict as the unsplit program. Every hint output becomes exactly one extra circuit input, in an order both halves agree on, including inside nested and repeated sub-circuits.",
 ["programs", "inputs"], "all hint-normalised programs with hints at any nesting depth, all inputs, all hint functions",
 "Existing tests check two fixed programs and a random distribution on one field with the repository's evaluator as oracle.",
 ["circuit/ir/hint_normalized/mod.rs", "compile/mod.rs"], [("hint removal and export", "circuit/ir/hint_normalized/mod.rs"), ("mapping of exported outputs", "compile/mod.rs")])
prop("C04", "Circuit building passes preserve meaning",
 "Turning a hint-free program into the expression-based intermediate form, exporting constraints as outputs, splitting expressions to single-layer steps and removing duplicates each preserve the outputs and the accepted inputs. Intermediate forms stay well formed for the next stage.",
 ["programs", "inputs", "configurations"], "all hint-free programs and inputs, each pass, cost models and options",
 "Random tests reuse the repository's evaluator and one expression distribution; cost-model dependent paths are hit by chance only.",
 ["builder/final_build_opt.rs", "builder/final_build.rs", "circuit/ir/dest/mod.rs", "layering/ir_split.rs", "circuit/ir/expr.rs"],
 [("final build", "builder/final_build_opt.rs"), ("single-layer split", "layering/ir_split.rs"), ("duplicate resolution", "circuit/ir/dest/mod.rs")])
prop("C05", "Layering preserves meaning and yields well-formed layers",
 "Placing a program on layers keeps its outputs and verdict on every input, in both circuit kinds. In the result every gate reads and writes inside its layer, every layer's size is a power of two and equals the next layer's input size, outputs come first, and the reported input mapping is a bijection on the used inputs that keeps input order unless reordering was allowed.",
 ["programs", "inputs", "configurations"], "all programs accepted by layering, all inputs, both circuit kinds, with and without input reordering",
 "Tests compare evaluators on random programs of one distribution; layer placement has many program-shape dependent cases (relays, sub-circuit alignment, splitting by level).",
 ["layering/compile.rs", "layering/layer_layout.rs", "layering/wire.rs", "layering/input.rs"], [("layer context and layouts", "layering/compile.rs"), ("placement of groups", "layering/layer_layout.rs"), ("wire connection", "layering/wire.rs")])
prop("C06", "Layered-circuit optimisations preserve meaning",
 "Merging equal gates, expanding small segments, extracting common parts and sorting a layered circuit change neither its outputs nor its verdict on any input, for both circuit kinds, nor its layer sizes and public interface. The result is still well formed.",
 ["programs", "inputs"], "all layered circuits (any segment nesting, any gate multiset, any coefficient kind), all inputs",
 "Random tests run each optimisation on circuits from one generator and compare with the repository's evaluator.",
 ["circuit/layered/opt.rs"], [("dedup, expand, common parts, sort", "circuit/layered/opt.rs")])
prop("C07", "The multiplication fan-out limit is honoured and changes nothing else",
 "When a multiplication fan-out limit is requested, no value in the resulting intermediate circuit is used by more than that many multiplications, and outputs and verdicts are unchanged on every input. Limits of one or less are refused.",
 ["programs", "inputs", "configurations"], "all programs, all limits of two or more, all inputs",
 "Tests use three small fixed circuits and one generator with a few limits.",
 ["circuit/ir/dest/mul_fanout_limit.rs", "compile/mod.rs"], [("fan-out limiting", "circuit/ir/dest/mul_fanout_limit.rs")])
prop("C08", "Compilation is deterministic",
 "Compiling the same program with the same options always returns byte-identical serialised circuits and witness solvers, in any process and at any time. Hash-table iteration order never shows in the result.",
 ["programs", "schedules", "configurations"], "all programs and options, all hash seeds and repetitions",
 "Two tests repeat compilation a few times on one generator; order dependence shows only for programs with several equal-rank choices.",
 ["compile/mod.rs", "circuit/layered/opt.rs", "layering/compile.rs"], [("final sort", "circuit/layered/opt.rs"), ("ordered iteration", "layering/compile.rs")])
prop("C09", "Malformed source programs are refused with an error",
 "Validation of a program accepts it exactly when a root circuit exists, every variable is defined before use, every call matches its callee's inputs and outputs, calls form no cycle, every instruction has legal operands, and the root has an output or constraint. Anything else is refused with an error and never reaches code generation.",
 ["programs"], "all programs, well formed or not, in each intermediate form",
 "Tests check a handful of hand-written bad circuits for one intermediate form.",
 ["circuit/ir/common/mod.rs", "circuit/ir/source/mod.rs", "circuit/ir/dest/mod.rs", "circuit/ir/hint_normalized/mod.rs"], [("validate", "circuit/ir/common/mod.rs")])
prop("C10", "Malformed layered circuits are refused with an error",
 "Validation of a layered circuit accepts it exactly when every gate, child allocation, coefficient and layer reference is in range, sizes are powers of two, consecutive layers fit together, no layer reads a position that the layer it comes from never writes, and child segments never nest cyclically. Anything else yields an error, not a panic.",
 ["programs"], "all layered circuits, well formed or not, both kinds",
 "No test feeds malformed layered circuits.",
 ["circuit/layered/mod.rs"], [("validate", "circuit/layered/mod.rs")])
prop("C11", "Circuit statistics count what is in the circuit",
 "The reported statistics of a program or layered circuit (inputs used, gates by kind after expanding segments, layers, segments, variables, constraints, total cost) equal the counts obtained by expanding it. Repeated calls and sub-circuits are counted as often as they occur.",
 ["programs"], "all programs and layered circuits",
 "No test checks the numbers beyond printing them.",
 ["circuit/layered/stats.rs", "circuit/ir/common/stats.rs"], [("get_stats", "circuit/layered/stats.rs"), ("get_stats", "circuit/ir/common/stats.rs")])
prop("C12", "Export to the proving backend keeps the circuit",
 "The circuit handed to the proving backend has the same layers, segments, child placements, gates, coefficients and coefficient kinds, public-input count, output count and zero-output count as the compiled circuit. Running the exported description gives the same result.",
 ["programs", "inputs"], "all layered circuits of both kinds, all inputs",
 "The tests that exercise the export need the proving backend and check only final proofs of example circuits.",
 ["circuit/layered/export.rs", "circuit/layered/mod.rs"], [("export", "circuit/layered/export.rs")])
prop("C13", "Input mappings compose like functions",
 "An input mapping sends every input to its new position or drops it; applying a composition of mappings to inputs equals applying them one after another, identity changes nothing, and validity is reported exactly for mappings that hit every new position once.",
 ["inputs", "histories"], "all mappings and all chains of compositions",
 "No direct test; mappings of more than two composed passes are only exercised through compilation.",
 ["circuit/input_mapping.rs"], [("map_inputs, compose, validate", "circuit/input_mapping.rs")])

# ---------------------------------------------------------------- front end
prop("F01", "Every circuit-building operation has its mathematical meaning",
 "A circuit written with the builder operations (addition, subtraction, multiplication, division, negation, inverse, logic on bits, zero test, bit decomposition, comparison, selection, powers, assertions, unconstrained operations, hints) accepts an input exactly when the assertions hold mathematically and outputs the mathematical results. Operands may be variables or constants in any mix and the result is the same; an operation on constants that can only fail, such as dividing by zero, may be refused while building instead.",
 ["programs", "inputs", "configurations"], "all sequences of builder operations with variable or constant operands, all inputs, all fields",
 "Front-end tests cover a few operations with fixed values; constant folding, reuse of earlier results and assertion order multiply the cases.",
 ["frontend/builder.rs", "frontend/api.rs", "builder/basic.rs", "builder/hint_normalize.rs"], [("RootBuilder operations", "frontend/builder.rs"), ("default methods", "frontend/api.rs")])
prop("F02", "Debug evaluation agrees with the compiled circuit",
 "Running a circuit definition in the debug evaluator on an assignment returns the outputs the compiled circuit returns and fails exactly when solving or running the compiled circuit fails for that assignment. Hints are called with the same arguments in both.",
 ["programs", "inputs"], "all circuit definitions and assignments",
 "Tests run the debug evaluator on a few circuits, without comparing every operation and operand kind.",
 ["frontend/debug.rs", "frontend/mod.rs"], [("DebugBuilder", "frontend/debug.rs")])
prop("F03", "Sub-circuits and memoised functions behave like inlined code",
 "Calling a function through the sub-circuit or memoising mechanisms gives the outputs and constraints of calling it directly, whatever other functions were called before, for every argument structure and constant arguments. Two different functions, or one function with different constant arguments, never share an implementation. The one permitted refusal is the compiler's error for a part of a sub-circuit that has no inputs.",
 ["programs", "inputs", "histories"], "all call sequences mixing several functions, argument shapes and constants",
 "Tests call one memoised function per circuit, so collisions and wrong reuse between functions are never exercised.",
 ["frontend/sub_circuit.rs", "frontend/builder.rs", "utils/function_id.rs"], [("sub-circuit identity by hash", "frontend/sub_circuit.rs"), ("registration of sub-circuits", "frontend/builder.rs")])
prop("F04", "Built-in hints and unconstrained operators compute their definitions",
 "Each built-in hint and unconstrained operator (field and integer division, remainder, power, shifts, bitwise and boolean operators, comparisons, selection, bit decomposition) returns the value its definition gives on canonical representatives, for every operand; dividing by zero gives zero. Illegal arities are refused and malformed identifiers never alias a built-in.",
 ["inputs", "configurations"], "all operands, all fields, all operators and arities",
 "Only random operands from one generator are used, and both sides of those comparisons call the same implementation.",
 ["hints/builtin.rs", "hints/mod.rs", "hints/registry.rs", "circuit/ir/source/mod.rs"], [("built-in implementations", "hints/builtin.rs"), ("unconstrained evaluation", "circuit/ir/source/mod.rs"), ("user hint registry", "hints/registry.rs")])
prop("F05", "Circuit structures map to variables in declaration order, losslessly",
 "Flattening a declared circuit's fields into inputs and public inputs and loading them back restores every field at its place, for scalars and arbitrarily nested arrays. The number of variables reported equals the number flattened, and assignments flatten in the same order as definitions.",
 ["programs", "inputs"], "all declared circuit shapes and all values",
 "Tests use one or two shapes and check only through end results.",
 ["frontend/variables.rs", "frontend/circuit.rs"], [("dump and load", "frontend/variables.rs")])

# ---------------------------------------------------------------- witness and running
prop("W01", "All ways of solving a witness agree",
 "Solving assignments one at a time or in a batch returns the same values for each assignment, in assignment order, for every batch size: the values the program computes. A hint failure on any assignment, an unknown hint, or an instruction the solver does not support is reported as an error, and nothing else is; solving never panics.",
 ["inputs", "programs", "configurations"], "all witness programs, all batch sizes including partial blocks, all hint registries",
 "Tests use one batch size per example and never compare the modes on every lane; schedules are whatever the test machine gives.",
 ["frontend/witness.rs", "circuit/ir/hint_normalized/witness_solver.rs", "circuit/ir/hint_normalized/mod.rs"], [("batch solving by lanes", "circuit/ir/hint_normalized/witness_solver.rs"), ("solving front end", "frontend/witness.rs")])
prop("W02", "Witness packing never changes the values",
 "Converting a witness between its plain and packed representation, iterating it by assignment or by block, and extracting the packed form for proving all show the same assignments in the same order; unused lanes repeat the last assignment of the block. This holds for every positive number of assignments and every split between secret and public inputs.",
 ["inputs", "configurations"], "all witness sizes, input counts and lane counts",
 "One test with one size; block boundaries and zero public inputs are untested.",
 ["circuit/layered/witness.rs"], [("pack and unpack blocks", "circuit/layered/witness.rs")])
prop("W03", "Batched evaluation equals one-by-one evaluation",
 "Running a layered circuit on many assignments at once gives for every assignment the same outputs and verdict as running it alone, and both equal the circuit's gate-by-gate meaning. One assignment's failure never affects another's verdict.",
 ["inputs", "programs"], "all layered circuits, all batch sizes, all mixtures of good and bad assignments",
 "Tests run uniform batches of mostly satisfying assignments.",
 ["circuit/layered/witness.rs", "circuit/layered/mod.rs"], [("vector evaluation", "circuit/layered/mod.rs"), ("per-assignment verdicts", "circuit/layered/witness.rs")])

# ---------------------------------------------------------------- data formats
prop("D01", "Serialised artifacts read back as the same object",
 "Every artifact that can be written (programs in each form, layered circuits of both kinds, witnesses, witness solvers, kernels, computation graphs) reads back equal to what was written, consumes exactly its own bytes, and follows the published byte layout. The layout of the compiled circuit and witness is stable.",
 ["inputs", "programs", "configurations"], "all artifacts of all configurations",
 "One test writes one circuit; most artifact kinds and field kinds are never round-tripped.",
 ["circuit/layered/serde.rs", "circuit/ir/common/serde.rs", "circuit/ir/source/serde.rs", "circuit/ir/hint_normalized/serde.rs", "circuit/ir/expr.rs", "circuit/layered/witness.rs"], [("serialisation code", "circuit/layered/serde.rs"), ("intermediate forms", "circuit/ir/source/serde.rs")])
prop("D02", "Foreign or damaged artifacts are refused",
 "Reading an artifact written for another field or configuration, with a wrong header, an unknown tag, or cut short at any byte returns an error. It never returns a partly read object and never panics. Whatever single byte is changed, reading gives an error or an object that would be written as exactly the bytes read.",
 ["fault_sequences", "crash_points", "configurations"], "every cut position and every header or tag corruption of every artifact kind, every pair of configurations",
 "No test reads damaged input.",
 ["circuit/layered/serde.rs", "circuit/ir/common/serde.rs", "circuit/ir/source/serde.rs", "circuit/layered/witness.rs"], [("magic, modulus and configuration checks", "circuit/layered/serde.rs")])
prop("D03", "The shared-memory image of a computation graph is faithful",
 "Writing a computation graph into shared memory takes exactly the announced number of bytes and reading it back gives the same graph apart from the hint programs, which are not shipped. Neighbouring memory is never touched. A graph with custom gates, which have no image, is refused.",
 ["programs", "inputs"], "all computation graphs",
 "One integration test ships one graph and needs the MPI runtime.",
 ["zkcuda/mpi_mem_share.rs"], [("size, write, read", "zkcuda/mpi_mem_share.rs")])

# ---------------------------------------------------------------- zkcuda
prop("Z01", "A compiled kernel computes its kernel function",
 "A compiled kernel, run on the inputs and the values its hint solver produces, gives exactly the outputs of the kernel function for any input and output arrangement, and rejects wrong outputs or violated assertions. Its declared input and output layout matches the circuit inputs without gaps or overlaps.",
 ["programs", "inputs", "configurations"], "all kernel functions, input and output layouts, all inputs",
 "Tests use a few kernels with one layout each.",
 ["zkcuda/kernel.rs"], [("kernel compilation and layouts", "zkcuda/kernel.rs")])
prop("Z02", "Calling a kernel acts on every parallel instance independently",
 "A kernel call applies the kernel function once per instance to that instance's slice of each input, or to the whole input when it is broadcast, and stores every instance's outputs at its place. Shapes that do not match, and calls with missing or extra arguments, are refused with an error that leaves previously computed data unchanged.",
 ["programs", "inputs", "histories"], "all call histories, parallel counts, broadcast patterns and shapes",
 "Tests use a few fixed call sequences; histories with several kernels, reused storage and errors are not sampled.",
 ["zkcuda/context.rs", "zkcuda/kernel.rs"], [("call_kernel", "zkcuda/context.rs")])
prop("Z03", "Reshaping and transposing device data only relabels it",
 "Reshaping keeps the row-major order of all elements, transposing permutes axes, and any chain of both followed by reading back or calling a kernel shows exactly the element order those definitions give. No chain changes, drops, or duplicates data, including sizes that are not powers of two.",
 ["inputs", "histories"], "all shapes, all chains of reshapes and transpositions",
 "Tests try a few shapes; the bit-order arithmetic depends on how factors of the sizes split and merge along the chain.",
 ["zkcuda/shape.rs", "zkcuda/context.rs"], [("shape arithmetic", "zkcuda/shape.rs"), ("device memory handles", "zkcuda/context.rs")])
prop("Z04", "The computation graph and the solved witness fit together",
 "After any history of copies, reshapes and kernel calls, the computation graph and the solved device memories satisfy every recorded kernel call: the memory lengths equal the announced commitment lengths, the recorded layout selects each instance's inputs and outputs, and the proof built from them verifies. Changing any committed value that a kernel constrains makes proving or verification fail.",
 ["programs", "histories", "inputs"], "all call histories, parallel counts, paddings and layouts",
 "Tests follow four example programs with power-of-two parallelism almost everywhere.",
 ["zkcuda/context.rs", "zkcuda/shape.rs", "zkcuda/proving_system/common.rs", "zkcuda/proving_system/dummy.rs"], [("compile_computation_graph, solve_witness", "zkcuda/context.rs"), ("input preparation", "zkcuda/proving_system/common.rs")])
prop("Z05", "A saved computation graph can replace compilation",
 "Loading a saved computation graph into a context that performed the same calls leads to the same witness and accepted proofs as compiling it there. A graph whose commitments, lengths or instance layout do not belong to the recorded calls is refused.",
 ["histories", "configurations"], "all call histories, all pairs of graph and context",
 "One example program is tried; histories where one kernel is used with several sizes, or several kernels share code, are not.",
 ["zkcuda/context.rs"], [("load_computation_graph", "zkcuda/context.rs")])
prop("Z06", "Host data survives the trip to the device and back",
 "Copying host arrays of any nesting to the device, plain or packed into lanes, and copying them back returns the same values in the same shape. Requests with the wrong shape or size are refused rather than answered with rearranged data.",
 ["inputs"], "all shapes, element counts and packing modes",
 "Tests copy a few fixed shapes and read back only results of kernels.",
 ["zkcuda/context.rs", "zkcuda/vec_shaped.rs"], [("flatten and unflatten", "zkcuda/vec_shaped.rs"), ("copies", "zkcuda/context.rs")])

# ---------------------------------------------------------------- utils
prop("U01", "The priority heap always yields a least element",
 "For any sequence of insertions and removals and any strict ordering, removal returns an element that no remaining element precedes, every inserted element is returned exactly once, and removal from an empty heap returns nothing.",
 ["histories", "inputs"], "all operation sequences and orderings, with duplicates",
 "One long random sequence with one ordering.", ["utils/heap.rs"], [("push, pop", "utils/heap.rs")])
prop("U02", "The static lookup table finds every key",
 "For every list of distinct keys the table is built in bounded time and returns for each key its position in the list, whatever random parameters are drawn.",
 ["inputs", "schedules"], "all key lists (any length up to the documented limit), all random draws",
 "One list of nine keys.", ["utils/static_hash_map.rs"], [("hash parameters search", "utils/static_hash_map.rs")])
prop("U03", "The value pool gives equal values equal, stable positions",
 "Adding a value returns the position of its first occurrence; positions are dense, never change, and lead back to an equal value. Looking up a value that was never added reports its absence.",
 ["histories"], "all sequences of additions and lookups", "No direct test.", ["utils/pool.rs"], [("add, get", "utils/pool.rs")])
prop("U04", "Union-find merges exactly the requested classes",
 "Two elements have the same representative exactly when a chain of merges connects them, after any sequence of merges and lookups; a representative represents itself.",
 ["histories"], "all sequences of merges and lookups", "No direct test.", ["utils/union_find.rs"], [("find, union", "utils/union_find.rs")])
prop("U05", "Graph ordering and cycle detection are right",
 "For every finite directed graph, the ordering lists callers before callees and contains every vertex exactly once when there is no cycle, and a cycle is reported exactly when one exists. Rounding to powers of two gives the nearest power in the stated direction, and the linear-time sort orders by key without losing or repeating elements.",
 ["inputs", "schedules"], "all small graphs and numbers, all hash orders", "Only used indirectly.", ["utils/misc.rs", "utils/bucket_sort.rs"], [("topo_order", "utils/misc.rs"), ("bucket sort", "utils/bucket_sort.rs")])

# ---------------------------------------------------------------- standard circuits
STD = "circuit-std-rs/src/"
RUNS = ["debug evaluation", "compiled circuit run"]
prop("S01", "Lookup tables accept exactly the queries that the table answers",
 "A lookup circuit (LogUp with given counts, or a single-key table whose queries are added while building) is satisfied exactly when every query's key and values are a row of the table and, where counts are inputs, every count is the number of queries of its row. A changed key, value or count is refused, and an honest assignment (including the library's own, and counts computed by the library's hints) is accepted, in the debug builder and in the circuit compiled at any optimisation level.",
 ["inputs", "configurations"], "all tables with distinct keys, all queries and counts, key and value widths, fields and optimisation levels",
 "The repository's tests build one table of fixed size per circuit and only honest assignments; the hint for counts is exercised on small keys only.",
 ["logup.rs", "traits.rs"], [("LogUp argument", "logup.rs"), ("single-key table", "logup.rs"), ("counting hints", "logup.rs")], RUNS, base=STD)
prop("S02", "Range proofs accept exactly the values in range, whatever the prover says",
 "A range proof of n bits accepts every value below 2^n from an honest prover and refuses every other value for every answer a prover can give to its hints: values just above, negative values, and limbs that are too large or do not sum to the value. This holds whether or not n is a multiple of the table's bits, for single-chunk proofs and for plain membership queries.",
 ["inputs", "configurations"], "all widths, table sizes, values and hint answers",
 "The tests range-check values that are in range or far outside, with the library's own hints.",
 ["logup.rs"], [("chunked range proof", "logup.rs"), ("limb hint", "logup.rs")], RUNS, base=STD)
prop("S03", "The matrix product circuit accepts exactly true products",
 "The matrix product circuit accepts three matrices if and (but for the small error of its random challenge) only if the third is the product of the first two; shapes that do not fit are refused. The library's own assignment is accepted.",
 ["inputs", "configurations"], "all shapes and matrices over every field, all optimisation levels",
 "The test uses one shape and one wrong entry.",
 ["matmul.rs"], [("probabilistic product check", "matmul.rs")], RUNS, base=STD)
prop("S04", "SHA-256 circuits compute SHA-256",
 "The SHA-256 gadgets return exactly the SHA-256 digest of their input, over bits (GF(2), any message length) and over bytes or bits in M31 (37-byte messages, single and batched), and the checking variants accept exactly the right digest. Their parts (padding, compression, word rotation, shift, addition in each adder, choose, majority and sigma functions) compute the standard's functions on all words. Inputs that are no bytes are refused.",
 ["inputs", "configurations"], "all messages of all lengths, all words, all adders",
 "Tests hash a few random messages of convenient lengths; word functions are tested on few values, and padding boundaries not at all.",
 ["sha256/gf2.rs", "sha256/gf2_utils.rs", "sha256/m31.rs", "sha256/m31_utils.rs"], [("GF(2) hasher", "sha256/gf2.rs"), ("word operations", "sha256/gf2_utils.rs"), ("M31 hasher", "sha256/m31.rs")], RUNS, base=STD)
prop("S05", "Poseidon circuit and Poseidon on numbers compute the same specified hash",
 "For every width, number of rounds and input, the Poseidon circuit over M31 and the implementation on plain numbers return the same state: that of the Poseidon permutation with the parameters derived from the seed (round constants from a chain of Keccak-256 hashes, circulant mixing, fifth-power S-boxes, full and partial rounds). The sponge absorbs inputs of any length block by block.",
 ["inputs", "configurations"], "all widths with parameters, round numbers, states and input lengths",
 "The tests compare one or two fixed states with fixed outputs.",
 ["poseidon/poseidon_m31.rs", "poseidon/poseidon_u32.rs", "poseidon/utils.rs"], [("circuit", "poseidon/poseidon_m31.rs"), ("numbers", "poseidon/poseidon_u32.rs"), ("parameters", "poseidon/utils.rs")], RUNS, base=STD)
prop("S06", "Big-number gadgets over BN254 compute with the integers they represent",
 "The 120-bit and 2048-bit number gadgets agree with integer arithmetic: additions with carry, products with high and low part, comparisons, equality, modular sums and products of 2048-bit numbers, accumulation and byte conversion. Asserting gadgets accept exactly the true statements about the numbers, in every limb.",
 ["inputs"], "all numbers within the stated bounds, all results and carries offered",
 "Tests use a handful of random numbers; assertions are never offered a result that is wrong in high limbs only.",
 ["non_native/u120.rs", "non_native/u2048.rs", "non_native/util.rs"], [("limbs", "non_native/u120.rs"), ("numbers", "non_native/u2048.rs")], RUNS, base=STD)
prop("S07", "Bit, byte and big-integer helper gadgets compute their functions",
 "The helper gadgets (bit decompositions and recompositions in every width, byte and word packing, word rotation, shift, addition and the SHA word functions over large fields, big-integer comparison and zero test, division by powers of two, selection and two-bit lookup) compute their functions on every input in their domain and refuse inputs that have no decomposition. The conversions of strings and numbers to words agree with the gadgets.",
 ["inputs", "configurations"], "all inputs of every helper, edge values of the field included",
 "Tests cover a few helpers with a few values.",
 ["sha256/m31_utils.rs", "utils.rs"], [("M31 helpers", "sha256/m31_utils.rs"), ("selectors", "utils.rs")], RUNS, base=STD)

prop("S08", "Emulated-field and tower gadgets compute in the fields they emulate",
 "Arithmetic on emulated elements of the BLS12-381 base and scalar fields (sums, differences, products, quotients, inverses, constants, reductions, selections, sign and zero tests) and of the extensions of degree 2, 6 and 12 (with their sparse products, Frobenius maps, cyclotomic squares and powers) gives the field's result for all inputs that fit the limbs, whatever chain of operations came before. Undefined operations, limbs that are too large and false equalities are refused. A prover that answers a hint otherwise is refused or has proved the same result.",
 ["inputs", "programs", "fault_sequences"], "all inputs within the limb widths, all chains of operations, every single lie of the stated kinds",
 "Tests run single operations on a few values with an honest prover; overflow bookkeeping, unreduced operands and dishonest hints are never met.",
 ["gnark/field.rs", "gnark/element.rs", "gnark/hints.rs", "gnark/emulated/field_bls12381/e2.rs", "gnark/emulated/field_bls12381/e6.rs", "gnark/emulated/field_bls12381/e12.rs"],
 [("field", "gnark/field.rs"), ("E2", "gnark/emulated/field_bls12381/e2.rs"), ("E12", "gnark/emulated/field_bls12381/e12.rs")], RUNS, base=STD)
prop("S09", "Curve and pairing gadgets implement the BLS12-381 groups",
 "Additions, doublings, multiples by the curve's constants, endomorphisms, cofactor clearing, decompression, hashing to field elements and mapping to the curve give the points that the group law and the standard define, or refuse where nothing is defined, also when the prover lies about square roots. Membership checks accept exactly the points of the curve or subgroup. A pairing product check accepts exactly the lists whose product of pairings is one.",
 ["inputs", "programs", "fault_sequences"], "all points inside and outside the subgroups, all byte strings and field elements mapped, all lists of pairs of the stated sizes",
 "Tests use one fixed vector per gadget and no wrong point; no test has a rejected membership or pairing.",
 ["gnark/emulated/sw_bls12381/g1.rs", "gnark/emulated/sw_bls12381/g2.rs", "gnark/emulated/sw_bls12381/pairing.rs", "gnark/emulated/sw_bls12381/point.rs"],
 [("G1", "gnark/emulated/sw_bls12381/g1.rs"), ("G2", "gnark/emulated/sw_bls12381/g2.rs"), ("pairing", "gnark/emulated/sw_bls12381/pairing.rs")], RUNS, base=STD)

prop("S10", "The RSA circuit accepts exactly the traces of a modular power",
 "The RSA circuit is satisfied exactly when every one of its seventeen products of 2048-bit numbers is right in every limb: each power is the square (finally the product with the base) modulo the given modulus, each quotient is the quotient, and the last power is the claimed result. The arithmetic on plain numbers from which its traces are made (sums, products, quotients and remainders, modular products, comparison, conversion) agrees with integer arithmetic.",
 ["inputs"], "all bases, moduli, powers, quotients and results below the stated bounds; all numbers for the plain arithmetic",
 "The tests multiply a few small numbers; no test offers the circuit a wrong power or a wrong high limb.",
 ["main.rs", "native.rs"], [("circuit", "main.rs"), ("numbers", "native.rs")], RUNS, base="rsa_circuit/src/")
prop("F06", "Circuits loaded from gate text compute what the text says",
 "A circuit loaded from a text of gates (inputs, bit and word gates, 60-bit additions, bit extraction, composition and decomposition, stores) gives the outputs that its lines define, for every input and at every optimisation level. A text with unknown gates, missing or ill-shaped operands or definitions out of turn is refused, not built as something else.",
 ["programs", "inputs"], "all texts of the stated gates over 2^31-1, well formed or not, all inputs",
 "No test loads a text.",
 ["utils/interpreter_loader.rs"], [("loader", "utils/interpreter_loader.rs")], RUNS)
prop("L01", "The C interface compiles exactly what the library compiles",
 "For the bytes of a source circuit and a known configuration number, the C interface used by the Go front end gives the very witness solver and layered circuit that the library gives, or an error and nothing else: the library's own message when the circuit is refused, a message naming the number when the configuration is unknown. The answer depends on this call alone, whatever was asked before, and the caller's bytes are not changed.",
 ["inputs", "histories"], "all sequences of calls with whole, cut or foreign bytes and any configuration number",
 "No test calls the interface.",
 ["lib.rs", "compile.rs"], [("entry", "compile.rs"), ("configurations", "lib.rs")], ["returned buffers"], base="expander_compiler/ec_go_lib/src/")

prop("L02", "The Go packages and the library mean the same by the same artifact",
 "A source circuit written by the Go packages is read by the library as that circuit. A witness solver and a layered circuit that the library wrote are, read and written again by the Go packages, the same artifacts; solved there for any assignments (one or many, values in any of the accepted number forms) they give the witness that the library's own semantics gives, or fail where it fails, and circuits evaluate to the same outputs and verdicts. The library reads a witness written by the Go packages as the same witness.",
 ["inputs", "programs"], "all programs that both sides can express over their common fields, all assignments",
 "Go and Rust tests run apart, and the Go tests need the network.",
 ["irwg/witness_gen.go", "irwg/serialize.go", "irsource/serialize.go", "layered/serialize.go", "test/eval.go", "utils/buf.go", "utils/convert.go", "field/m31/field.go", "field/gf2/field.go", "field/bn254/field_wrapper.go"],
 [("solver", "irwg/witness_gen.go"), ("formats", "irsource/serialize.go"), ("evaluator", "test/eval.go")], ["artifacts exchanged"], base="ecgo/")

prop("L03", "The Go circuit builder makes the circuit that was written",
 "A circuit written with the builder of the Go packages (arithmetic, division checked and not, boolean operators, selection, lookup, comparison, bit conversion, assertions, hints, custom gates, functions called directly, through the simple and the general memoised call, and deferred functions) becomes a source circuit that the library reads, with the declared public and secret inputs in their order. For every assignment it accepts exactly when every assertion of the written circuit holds, and its outputs are the written ones; wrong answers to the builder's own hints are refused or change nothing. A circuit is refused only if no assignment satisfies it or it divides by zero. (Functions are named ones, the builder identifies them by name; bit conversions have at most the bits of the field; constants are elements of the field.)",
 ["inputs", "programs"], "all circuits written with the builder over the fields both sides have, all assignments",
 "A builder bug needs a particular combination of constant and variable operands, or two functions that the cache takes for one.",
 ["builder/api.go", "builder/api_assertions.go", "builder/builder.go", "builder/sub_circuit.go", "builder/finalize.go", "builder/root.go", "api.go", "builder/variable.go", "field/gf2/field.go", "field/m31/field.go"],
 [("operations", "builder/api.go"), ("assertions", "builder/api_assertions.go"), ("functions", "builder/sub_circuit.go")], ["circuits written with the Go builder"], base="ecgo/")

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
