#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program so that the entries stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, **anch):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **anch)))

prop("C01", "The command view of a circuit is complete, ordered and unit-consistent",
     "For every valid circuit, iterating over its commands yields each executable operation exactly once, after every operation it depends on. Each command reports its operation, its input and output wires and one unit per wire: a linear value keeps one unit from the input or operation that creates it to the operation or output that ends it, no two linear values alive together share a unit, and the circuit's qubit/bit/unit counts agree with its signature. Copies of a circuit (owned or extracted) are the same circuit.",
     ["programs"], "All valid circuits: any mixture of gates, classical operations, constants, allocations and frees, and nested regions, built in any order.",
     "Existing tests iterate over a handful of hand-built circuits without interleaved allocation and freeing.",
     ["tket/src/circuit/command.rs", "tket/src/circuit/units.rs", "tket/src/circuit/units/filter.rs", "tket/src/circuit.rs"],
     [("CommandIterator", "tket/src/circuit/command.rs"), ("Units iterators", "tket/src/circuit/units.rs")])

prop("C02", "Structural circuit hash ignores insertion order and sees every change",
     "Two circuits that are the same dataflow graph hash equally however their operations were inserted, numbered or serialised. Circuits that differ in an operation, an operation parameter, a constant, a wire endpoint or a nested region's contents hash differently (up to the unavoidable 64-bit collision).",
     ["programs"], "All acyclic circuits with nested regions, all re-orderings of node insertion, and all single edits of operation, parameter or wiring.",
     "Tests compare a few fixed circuit pairs; the optimiser's deduplication relies on it for every circuit reached.",
     ["tket/src/circuit/hash.rs"], [("CircuitHash::circuit_hash", "tket/src/circuit/hash.rs")])

prop("C03", "Circuit costs add up over operations and obey the laws of costs",
     "The cost of a circuit under any cost function is the sum of that function over the operations of its region, the cost of a set of nodes is the same sum over those nodes, so that parts add up to the whole; the operation count covers nested regions too. Lexicographic costs form a lawful total order and an additive monoid; differences compare like the costs, add back exactly and saturate at zero; division rounds every component up.",
     ["inputs", "programs"], "All circuits, all partitions of their nodes, all tuples of cost values.",
     "Tests check a few constants only.",
     ["tket/src/circuit/cost.rs", "tket/src/circuit.rs"], [("CircuitCost, CostDelta, LexicographicCost", "tket/src/circuit/cost.rs"), ("Circuit::circuit_cost, nodes_cost", "tket/src/circuit.rs")])

prop("C04", "Storing and loading a circuit gives back the same circuit",
     "A circuit stored in any supported envelope format and loaded again validates, denotes the same program and keeps its entry point, name and structure. Loading arbitrary or corrupted bytes yields an error or a circuit, never a crash, and loading a named function selects exactly that function or reports that it is missing or of the wrong kind.",
     ["programs", "inputs", "fault_sequences"], "All valid circuits, every envelope format and compression, and every truncation or byte corruption of a stored file.",
     "Tests round-trip a couple of circuits.",
     ["tket/src/serialize.rs", "tket/src/circuit.rs"], [("Circuit::load/store and function loading", "tket/src/serialize.rs")])

prop("C05", "Converting a circuit to pytket and back preserves what it does",
     "If a circuit of qubits and bits (with angle parameters), be it made in HUGR or decoded from pytket, can be converted to a stand-alone pytket circuit, then that circuit is well-formed, lists its registers in the order of the circuit's inputs and outputs, and simulating the pytket circuit gives the same quantum channel and classical results as the original program up to the recorded global phase, and decoding it gives a valid circuit with the requested signature that again does the same. A circuit that cannot be represented is rejected with an error, never silently altered. All ways of writing (text, stream, file, value, encoded circuit made stand-alone) and of reading (also into a new function or region of an existing program, which is otherwise left alone) agree on this. How many qubits, bits and parameters a type is made of depends on the type and the known translators alone.",
     ["programs"], "All circuits of qubits, classical bits and symbolic or constant rotation parameters, with nested or unsupported operations.",
     "Tests compare structure for about thirty hand-written circuits.",
     ["tket/src/serialize/pytket.rs", "tket/src/serialize/pytket/encoder.rs", "tket/src/serialize/pytket/decoder.rs", "tket/src/serialize/pytket/extension"],
     [("PytketEncoderContext", "tket/src/serialize/pytket/encoder.rs"), ("PytketDecoderContext", "tket/src/serialize/pytket/decoder.rs")])

prop("C06", "Decoding a pytket circuit preserves its gates, registers and meaning",
     "Any well-formed pytket circuit decodes into a valid program, with one input and output per register (or the requested signature) and one parameter per free symbol, that simulates to the same channel and bit values up to the recorded global phase; conditions, classical expressions, boxes and the implicit permutation are respected, and unrecognised operations are kept verbatim with their operands and angles. Malformed circuits are rejected with an error or decoded into something valid, never a crash.",
     ["inputs", "programs"], "All pytket JSON circuits over the supported gate set, conditionals, classical operations, parameters, implicit permutations and registers, plus malformed ones.",
     "Tests decode a dozen JSON snippets.",
     ["tket/src/serialize/pytket/decoder.rs", "tket/src/serialize/pytket/decoder/wires.rs", "tket/src/serialize/pytket/extension"],
     [("TKETDecode for SerialCircuit", "tket/src/serialize/pytket.rs"), ("WireTracker", "tket/src/serialize/pytket/decoder/wires.rs")])

prop("C07", "Extracting pytket subcircuits and putting them back leaves the program intact",
     "Encoding the convertible regions of a program as pytket circuits and reassembling them in place, unmodified or replaced by equivalent circuits, gives a valid program with the same signature and behaviour; everything that pytket cannot express is carried through untouched.",
     ["programs"], "All programs mixing convertible gates with control flow, calls, tuples, arrays, order edges, nested regions and unsupported operations.",
     "Tests reassemble a few fixed programs.",
     ["tket/src/serialize/pytket/circuit.rs", "tket/src/serialize/pytket/opaque.rs", "tket/src/serialize/pytket/encoder/unsupported_tracker.rs"],
     [("EncodedCircuit::new / reassemble_inplace", "tket/src/serialize/pytket/circuit.rs"), ("OpaqueSubgraphs", "tket/src/serialize/pytket/opaque.rs")])

prop("C08", "Angle expressions keep their value through parsing, decoding and encoding",
     "Every parameter expression of a pytket circuit is given the value ordinary arithmetic gives it (usual precedence, association, functions, pi and free symbols), in whatever way it is written, and encoding it back gives an expression of the same value. Any other text is kept as an opaque parameter or rejected, without crashing.",
     ["inputs"], "All expressions over numbers, pi, symbols, the arithmetic operators and supported functions, all spacings and bracketings, and all strings.",
     "Tests list about twenty expressions.",
     ["tket/src/serialize/pytket/decoder/param.rs", "tket/src/serialize/pytket/decoder/param/parser.rs", "tket/src/serialize/pytket/decoder/param/param.pest", "tket/src/serialize/pytket/extension/float.rs", "tket/src/serialize/pytket/extension/rotation.rs"],
     [("parse_pytket_param", "tket/src/serialize/pytket/decoder/param/parser.rs")])

prop("C09", "Greedy commutation keeps the circuit valid, equivalent and no deeper",
     "Applying greedy depth reduction to any circuit leaves a valid circuit that performs the same quantum channel with the same classical results and contains the same operations; it never increases the circuit's slice depth, and reports the number of moves it made.",
     ["programs"], "All circuits over the gate set including measurements, allocation, classical parameters, and operations it does not know.",
     "Tests run it on a handful of small pure-gate circuits.",
     ["tket/src/passes/commutation.rs"], [("apply_greedy_commutation", "tket/src/passes/commutation.rs"), ("commutation table", "tket/src/ops.rs")])

prop("C10", "Splitting a circuit into chunks and reassembling gives back the circuit",
     "Splitting any circuit into chunks under any cost bound and reassembling the chunks, untouched or each replaced by an equivalent circuit, gives a valid circuit with the same signature, name and behaviour; every operation lands in exactly one chunk and chunk costs respect the bound where an individual operation allows it.",
     ["programs", "configurations"], "All circuits, all chunk sizes and cost functions.",
     "Tests use two or three fixed circuits.",
     ["tket/src/passes/chunks.rs"], [("CircuitChunks", "tket/src/passes/chunks.rs")])

prop("C11", "Tuple elimination preserves values",
     "Removing pairs of tuple packing and unpacking leaves a valid program with the same signature and behaviour, whichever elements are shared, reused, left unused or unpacked several times, and never changes any other operation. Preparing a circuit for pytket, which does the same, keeps its signature, behaviour and other operations.",
     ["programs"], "All dataflow regions containing tuple packs and unpacks of any arity and element type, partially consumed.",
     "Tests enumerate a few consumer shapes.",
     ["tket/src/passes/pytket.rs", "tket/src/passes/tuple_unpack.rs"], [("find_tuple_unpack_rewrites", "tket/src/passes/tuple_unpack.rs")])

prop("C12", "Program normalisation preserves behaviour",
     "Normalising a program (inlining regions and calls, simplifying control flow, folding constants, removing tuple and borrow pairs, dead code) under any combination of its options leaves a valid program with the same public interface and the same behaviour on every input, including measurement-dependent branches, loops and reported results. Each option by itself simplifies at least as much as the step it stands for.",
     ["programs", "configurations"], "All programs with calls, branches, loops, constants, tuples and arrays, under all option combinations.",
     "Tests check gate counts or snapshots of a few programs.",
     ["tket/src/passes/guppy.rs", "tket/src/passes.rs"], [("NormalizeGuppy", "tket/src/passes/guppy.rs")])

prop("C13", "Eliding borrow/return pairs never changes what a program does with its arrays",
     "Removing redundant array borrow and return pairs leaves a valid program in which every element is delivered where it was before, for constant and computed indices alike, and programs that would fail on an out-of-range, repeated or missing borrow still fail.",
     ["programs"], "All sequences of borrows, returns and element operations on arrays of any size, with constant, equal, distinct and unknown indices, across nested regions.",
     "Tests cover a few index patterns.",
     ["tket/src/passes/borrow_squash.rs"], [("BorrowSquashPass", "tket/src/passes/borrow_squash.rs")])

prop("C14", "Pattern matching finds exactly the convex occurrences of the patterns",
     "For any set of patterns and any circuit, every match reported is an occurrence: the same operations, with the same wiring, on a convex part of the circuit. Every convex occurrence that exists is reported, from the whole-circuit search, from the rooted search, and after the matcher was saved and reloaded. Replacing a match by its own pattern leaves an equivalent circuit.",
     ["inputs", "programs"], "All connected pattern circuits and all target circuits.",
     "Tests use a few patterns and compare counts; a missing match only shows as worse optimisation.",
     ["tket/src/portmatching/matcher.rs", "tket/src/portmatching/pattern.rs"], [("PatternMatcher::find_matches", "tket/src/portmatching/matcher.rs"), ("CircuitPattern", "tket/src/portmatching/pattern.rs")])

prop("C15", "Every rewrite offered keeps the circuit equivalent and costs what it says",
     "Every rewrite produced from a set of equivalent circuits, applied alone or combined by any strategy, leaves a valid circuit with the same behaviour, touches only the operations it matched, and changes the cost by the amount the strategy reports. Strategies offer only rewrites their cost rule accepts, and their costs count what they are named after (CX gates, Rz gates, quantum gates, or the given weights).",
     ["programs", "configurations"], "All equivalence-class sets, all circuits, all strategies and cost functions.",
     "Tests apply a few rewrites to fixed circuits and do not compare semantics.",
     ["tket/src/rewrite.rs", "tket/src/rewrite/ecc_rewriter.rs", "tket/src/rewrite/strategy.rs", "tket/src/rewrite/trace.rs", "tket/src/circuit.rs"],
     [("ECCRewriter", "tket/src/rewrite/ecc_rewriter.rs"), ("RewriteStrategy implementations", "tket/src/rewrite/strategy.rs")])

prop("C16", "The Badger optimiser returns an equivalent circuit that is never worse",
     "For every circuit and every option set (threads, circuit splitting, queue size, limits, cost function) optimisation ends within its configured limits and returns a valid circuit equivalent to the input whose cost is not larger. With one thread and count limits only, it is deterministic, and the logged best cost equals the returned circuit's cost. The ready-made optimisers (default, which minimises CX gates, and the one for Rz gates) find the cheapest circuit their rules reach when the queue holds the whole space, whether they are made from a file of classes or from a saved rewriter.",
     ["programs", "configurations", "schedules"], "All circuits over the rewrite set's gates, all option combinations, all thread interleavings.",
     "Tests check gate counts on a few circuits; none simulates the result.",
     ["tket/src/optimiser/badger.rs", "tket/src/optimiser/badger/worker.rs", "tket/src/optimiser/pqueue_worker.rs", "tket/src/optimiser/badger/log.rs", "tket/src/optimiser/badger/eq_circ_class.rs"],
     [("BadgerOptimiser::optimise", "tket/src/optimiser/badger.rs"), ("StatePQWorker", "tket/src/optimiser/pqueue_worker.rs")])

prop("C17", "Saved rewriters and matchers behave like the ones they were saved from",
     "A rewriter or pattern matcher written to its binary form and read back offers exactly the same matches and rewrites on every circuit, and equivalence classes survive conversion to and from their JSON form. Equivalence class files are read as the circuits they describe. Truncated files are rejected with an error, and reading damaged or malformed ones gives an error (or some valid value), never a crash.",
     ["inputs", "fault_sequences"], "All rule sets and all corruptions of their stored form.",
     "Tests reload two rule files.",
     ["tket/src/rewrite/ecc_rewriter.rs", "tket/src/portmatching/matcher.rs", "tket/src/optimiser/badger/eq_circ_class.rs"],
     [("ECCRewriter save/load_binary", "tket/src/rewrite/ecc_rewriter.rs"), ("load_ecc_set", "tket/src/optimiser/badger/qtz_circuit.rs")])

prop("C18", "Backtracking search finds the best reachable states and its queue is exact",
     "The generic backtracking optimiser explores each state at most once, returns states reachable from the start that are no worse than any state it visited, and, with an unbounded queue and no limits, the true n best. Its bounded priority queue pops in cost order and keeps exactly the cheapest entries that fit, under every sequence of operations.",
     ["histories", "inputs", "configurations"], "All finite transition systems, costs and option sets, and all operation sequences on the queue.",
     "Tests run one toy problem.",
     ["tket/src/optimiser/backtracking.rs", "tket/src/optimiser/pqueue.rs", "tket/src/optimiser.rs"],
     [("Backtracking optimiser", "tket/src/optimiser/backtracking.rs"), ("StatePQueue", "tket/src/optimiser/pqueue.rs")])

prop("C19", "Controlled operations act exactly when all controls are set",
     "Resolving a control modifier on any unitary function produces a valid program that applies the function, including its phase, when all control qubits are 1 and does nothing otherwise, for any number of controls and however the controls are grouped. Functions that cannot be controlled (they measure, allocate or free) are rejected with an error.",
     ["programs"], "All unitary functions over the gate set with nested regions, calls, arrays, loops and classical parameters, and all control counts.",
     "Tests check that resolved programs validate, not what they do.",
     ["tket/src/modifier/control.rs", "tket/src/modifier/modifier_resolver.rs", "tket/src/modifier/modifier_resolver"],
     [("ModifierResolver", "tket/src/modifier/modifier_resolver.rs")])

prop("C20", "Adjoint operations invert the function they modify",
     "Resolving an adjoint modifier on any unitary function produces a valid program that performs its exact inverse, with classical values still computed as before; functions without an inverse are rejected with an error.",
     ["programs"], "All unitary functions over the gate set with nested regions, calls, arrays and classical parameters.",
     "Tests check that resolved programs validate, not what they do.",
     ["tket/src/modifier/dagger.rs", "tket/src/modifier/modifier_resolver.rs", "tket/src/modifier/modifier_resolver"],
     [("ModifierResolver", "tket/src/modifier/modifier_resolver.rs")])

prop("C21", "Nested modifiers compose and unmodified code is left alone",
     "Any nesting of control and adjoint modifiers resolves to the composition of their meanings, applied also through calls to other modified or plain functions, and modifying a function leaves its other uses unchanged. Power modifiers, which have no implementation yet, are reported as an error and never dropped.",
     ["programs"], "All call graphs mixing modified and plain uses of functions, all modifier stacks.",
     "Tests use one or two stacks.",
     ["tket/src/modifier.rs", "tket/src/modifier/modifier_resolver.rs", "tket/src/modifier/modifier_resolver/call_modify.rs"],
     [("CombinedModifier", "tket/src/modifier.rs")])

prop("C22", "Resource tracking assigns every linear value one path through the circuit",
     "For every dataflow region each linear value is on exactly one resource path that starts and ends where the value does, each operation occurs once on the path of each resource it uses, and positions along a path strictly increase in dependency order. Copyable inputs of an operation are classified as such.",
     ["programs"], "All circuits with linear and copyable wires.",
     "Tests inspect two circuits.",
     ["tket/src/resource.rs", "tket/src/resource/scope.rs", "tket/src/resource/flow.rs", "tket/src/resource/interval.rs"],
     [("ResourceScope", "tket/src/resource/scope.rs")])

prop("C23", "Expressions for copyable values contain exactly what computes them",
     "The expression of a copyable value within a region consists of exactly the operations on copyable values that compute it, back to the allowed inputs, the excluded nodes and the operations on linear values. Its inputs are those boundary ports, each once, in the documented order (allowed inputs as given, then inputs from excluded nodes in the given order, then the rest); its first output is the value itself, followed by every other value used outside; the functions it calls are listed. It is refused exactly when a path leaves it and comes back to it; a value that no such operation computes is the wire itself. It reads back from JSON unchanged.",
     ["programs"], "All regions, all copyable values in them, all sets of allowed inputs and excluded nodes.",
     "Tests build one expression.",
     ["tket/src/subcircuit.rs", "tket/src/subcircuit/expression.rs", "tket/src/resource/scope.rs"],
     [("CopyableExpr::try_new", "tket/src/subcircuit/expression.rs")])

prop("C24", "Lowering to the native gate set preserves the channel",
     "Lowering a program to the hardware gate set leaves a valid program without generic gates whose quantum channel and classical results equal the original's up to global phase, for every gate, every angle, and measurement, reset, allocation and release.",
     ["programs", "inputs"], "All circuits over the generic gate set, all parameter values, gates used directly, in nested regions and in functions.",
     "Tests count gates or check validity of single-gate programs.",
     ["tket-qsystem/src/lower_drops.rs", "tket-qsystem/src/extension/qsystem/lower.rs", "tket-qsystem/src/extension/qsystem.rs"],
     [("lower_tk2_op / check_lowered", "tket-qsystem/src/extension/qsystem/lower.rs")])

prop("C25", "Making measurements lazy does not change what a program computes",
     "Replacing eager booleans by lazily read measurement futures leaves a valid program in which each measurement is read consistently everywhere it is used, with the same results and behaviour, and futures are duplicated and released exactly as needed.",
     ["programs"], "All programs that measure and pass booleans through logic, branches, loops, functions, tuples and arrays.",
     "Tests check validity of a few programs.",
     ["tket-qsystem/src/replace_bools.rs"], [("ReplaceBoolPass", "tket-qsystem/src/replace_bools.rs")])

prop("C26", "Runtime barriers cover the qubits of the source barrier and change nothing else",
     "Inserting runtime barriers for source-level barriers over qubits, arrays, tuples and (full) arrays of options leaves a valid program with the same behaviour in which each barrier is executed once over exactly the qubits it was given.",
     ["programs"], "All barriers over nested containers of qubits and other values.",
     "Tests check validity for a few type shapes.",
     ["tket-qsystem/src/extension/qsystem/barrier.rs", "tket-qsystem/src/extension/qsystem/barrier", "tket/src/passes/unpack_container.rs"],
     [("insert_runtime_barrier", "tket-qsystem/src/extension/qsystem/barrier/barrier_inserter.rs"), ("unpack_container", "tket/src/passes/unpack_container.rs")])

prop("C27", "The full hardware pipeline preserves observable behaviour",
     "Running the complete preparation pipeline, under every option combination, on any valid program gives a valid program that only uses hardware-level operations, reports the same results in the same order with the same probabilities, and keeps the entry point. When an order is forced, every region is totally ordered, and where dependencies leave a choice qubits are freed first, other quantum operations follow, then allocations, then everything else, and futures are read last.",
     ["programs", "configurations"], "All programs with gates, measurement, control flow, arrays, results and calls; all option combinations.",
     "Tests run the pipeline on a few programs and check validity.",
     ["tket-qsystem/src/lib.rs", "tket-qsystem/src/lower_drops.rs", "tket-qsystem/src/replace_bools.rs"],
     [("QSystemPass", "tket-qsystem/src/lib.rs")])
prop("C28", "Extension operations are declared, recognised, built and stored faithfully",
     "Each extension offers exactly the operations, types, versions and type schemes that are published for it, its definitions are well formed, and it accepts and refuses the same type arguments. An operation is recognised by exactly the Rust type made for it (never one of another extension with the same name), with all its arguments, and converts back to the same operation; this also holds after it was stored in any envelope format and loaded with the published definitions. Constants (rotations, booleans, wasm and gpu modules) keep their value, type and equality when stored; compute types convert to and from HUGR types without loss; builder methods add the operation they are named for, with inputs and outputs in order.",
     ["programs", "inputs"], "All operations and types of tket's extensions, all type arguments (valid and invalid), all constants.",
     "Tests instantiate single operations with single arguments and compare nothing with the published definitions.",
     ["tket/src/extension", "tket-qsystem/src/extension", "tket/src/ops.rs", "tket-exts/src/tket_exts/data"],
     [("TketOp", "tket/src/ops.rs"), ("ComputeOp", "tket-qsystem/src/extension/classical_compute.rs"), ("ResultOp", "tket-qsystem/src/extension/result.rs"), ("QSystemOpBuilder", "tket-qsystem/src/extension/qsystem.rs"), ("ConstRotation", "tket/src/extension/rotation.rs")])
prop("C29", "Compiled programs behave like the programs they are compiled from",
     "Compiling a valid program to LLVM for the QIS machine (any optimisation level, any envelope format) succeeds for supported operations, and running the compiled code reports exactly the results that the program's meaning prescribes: the same tags and values in the same order, the same outcome probabilities, the same panics; it uses qubits, measurement futures and memory correctly (no use after release, no double release). A GPU library linked to the program sees the version check first and once, each name looked up at most once, and, for every context, the calls, arguments, signatures and reads of the program in its order; its failures end the program with its message.",
     ["programs", "inputs"], "All closed programs over quantum gates, measurement, futures, arithmetic, control flow, calls, arrays, results, random numbers and panics; all measurement outcomes; all programs over GPU calls, and a failure of the library at any call.",
     "Tests compare the emitted text with snapshots for single operations and run nothing.",
     ["qis-compiler/rust", "tket-qsystem/src/llvm", "tket/src/llvm", "tket-qsystem/src/lib.rs"],
     [("compile_to_bitcode", "qis-compiler/rust/lib.rs"), ("GpuCodegen", "qis-compiler/rust/gpu.rs"), ("QSystemCodegenExtension", "tket-qsystem/src/llvm/qsystem.rs"), ("FuturesCodegenExtension", "tket-qsystem/src/llvm/futures.rs"), ("ResultsCodegenExtension", "tket-qsystem/src/llvm/result.rs")])
json_path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "mkprops_more.py")).read()) if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), "mkprops_more.py")) else None
with open(json_path, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
