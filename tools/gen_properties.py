#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

IR="include/mqt-core/ir/"; SIR="src/ir/"; DD="include/mqt-core/dd/"; SDD="src/dd/"
p("C01","Circuit copies are faithful; equality and hashing agree with meaning",
  "Copying, assigning, moving or cloning a circuit or any operation in it yields an object that is equal to the original, describes the same computation in every detail (types, parameters, controls with polarity, targets, classical bits and conditions, registers, layouts, global phase) and is independent of it. Operation equality is an equivalence relation, equal operations hash equally, and two operations that compare equal have the same effect on every state; a single changed detail makes circuits compare unequal.",
  ["inputs","histories"],"every circuit built from any sequence of gates of any type (controlled, symbolic, compound, classically controlled, non-unitary) and every single-detail mutation of it",
  "Tests compare a handful of fixed operations; the relation must hold for every pair of operations and every nesting, including gates whose controls and targets are interchangeable.",
  [IR+"operations/Operation.hpp",SIR+"operations/Operation.cpp",SIR+"QuantumComputation.cpp",IR+"operations/ClassicControlledOperation.hpp",IR+"operations/CompoundOperation.hpp",SIR+"operations/SymbolicOperation.cpp"],
  [("equality",SIR+"operations/Operation.cpp Operation::equals and overrides"),("hash","std::hash<qc::Operation> in "+IR+"operations/Operation.hpp"),("copy construction/assignment",IR+"QuantumComputation.hpp")])
p("C02","Inverting a unitary circuit yields its exact inverse",
  "For every unitary circuit, the inverted circuit implements the inverse unitary (the circuit followed by its inverse is the identity, global phase included), inverting twice restores the original computation, and inverting an operation keeps its printed name, type and parameters consistent. If one operation reports being the inverse of another, their product is the identity, and operations that cannot be inverted are refused with an exception instead of being altered.",
  ["inputs"],"every unitary operation type with every parameter value, control set and nesting in compound operations, and every sequence of them",
  "Tests invert a fixed list of gates one at a time; interaction of parameters, canonicalised gate types, nesting and layouts is only reachable by search.",
  [SIR+"operations/StandardOperation.cpp",SIR+"operations/SymbolicOperation.cpp",SIR+"operations/CompoundOperation.cpp",SIR+"QuantumComputation.cpp",SIR+"operations/Operation.cpp"],
  [("per-gate inversion","StandardOperation::invert, CompoundOperation::invert"),("circuit inversion incl. layout swap","QuantumComputation::invert"),("isInverseOf","Operation::isInverseOf")])
p("C03","Register, qubit and layout bookkeeping stays consistent under any history",
  "After any sequence of adding or removing registers, qubits, ancillaries and garbage markings, the reported counts, register contents, index lookups, initial layout, output permutation and ancillary/garbage flags agree with each other and with a straightforward model of that history: indices stay in range, every physical qubit maps to at most one logical qubit and vice versa, and removed qubits keep their identity when added back. Derived mappings agree with the circuit: the input/output mapping inferred from measurements follows the measured bit of each qubit, idle and per-qubit gate/depth counts match the operations actually present, and an operation relabelled through a permutation acts on exactly the permuted qubits.",
  ["histories"],"every sequence of register/qubit/ancilla/garbage/measurement manipulations with arbitrary sizes and names",
  "Tests replay short fixed histories; the bookkeeping is spread over several maps whose agreement must hold after every interleaving.",
  [SIR+"QuantumComputation.cpp",IR+"QuantumComputation.hpp",IR+"Register.hpp",SIR+"Register.cpp",IR+"Permutation.hpp",SIR+"Permutation.cpp"],
  [("register bookkeeping","QuantumComputation::add*Register/removeQubit/addAncillaryQubit"),("layout inference","QuantumComputation::initializeIOMapping"),("permutation application","Permutation::apply, Operation::apply")])
p("C04","Symbolic parameters: algebra, evaluation and instantiation commute",
  "Sums, differences, products with and quotients by constants of symbolic expressions evaluate, under every assignment of their variables, to the corresponding arithmetic on the evaluated operands, and expressions compare equal exactly when they have the same constant and the same terms. A circuit with symbolic gates that is instantiated with an assignment equals in effect the circuit built directly with the evaluated numbers; an assignment that misses a variable is reported by an exception and leaves the circuit unchanged, and a circuit reports exactly the variables that occur in it.",
  ["inputs"],"all expressions over any variables with any coefficients, all assignments, all symbolic gates in all nestings",
  "Tests cover a few expressions; algebraic laws quantify over all expressions and assignments.",
  [IR+"operations/Expression.hpp",SIR+"operations/SymbolicOperation.cpp",IR+"operations/SymbolicOperation.hpp",SIR+"QuantumComputation.cpp"],
  [("term normalisation","sym::Expression"),("instantiation","SymbolicOperation::getInstantiatedOperation, QuantumComputation::instantiate")])
p("C05","Operations can be edited consistently and report correctly what they do",
  "Adding a control to any operation (gate, compound, conditional or symbolic) makes it act exactly where the control has its value, removing or replacing controls undoes that, and a change that is refused leaves the operation as it was. Relabelling an operation by a permutation relabels everything in it. Used qubits, depth contribution, and the predicates (diagonal, interchangeable controls, single-qubit, global, symbolic, non-unitary, ...) agree with the operation's contents and matrix. Operations said to commute at every qubit do commute. A compound operation behaves like the sequence of its operations under insertion, removal, merging and collapsing.",
  ["inputs","histories"],"all operations of any nesting and all sequences of edits",
  "Tests check single edits of a few fixed operations.",
  ["include/mqt-core/ir/operations/Operation.hpp","src/ir/operations/Operation.cpp","include/mqt-core/ir/operations/StandardOperation.hpp","src/ir/operations/StandardOperation.cpp","src/ir/operations/CompoundOperation.cpp","include/mqt-core/ir/operations/ClassicControlledOperation.hpp"],
  [("controls","Operation::addControl/removeControl, CompoundOperation"),("commutation","StandardOperation::commutesAtQubit"),("flags","OpType")])
p("C10","Exporting a circuit to OpenQASM and importing it again preserves it",
  "Every circuit exported to OpenQASM 2 or 3 is accepted by the importer and comes back as the same computation: same qubits and classical registers (names, sizes, order), the same operations on the same qubits and bits with parameters equal to printed precision (gates may be re-expressed if the effect is the same), and the same initial layout and output permutation.",
  ["inputs"],"every circuit over the gate set, controls (positive and negative), registers, layouts, measurements, resets, barriers, compound and classically controlled operations",
  "Tests round-trip a few fixed files; printing and parsing are two large independent code paths that must agree on every gate, name, index and number.",
  [SIR+"QuantumComputation.cpp",SIR+"operations/StandardOperation.cpp",SIR+"operations/NonUnitaryOperation.cpp",SIR+"operations/ClassicControlledOperation.cpp","src/qasm3/Importer.cpp","src/qasm3/Parser.cpp"],
  [("export","QuantumComputation::dumpOpenQASM, Operation::dumpOpenQASM"),("import","qasm3::Importer::imports"),("layout comments","qasm3::Parser / QuantumComputation::dumpOpenQASM")])
p("C11","OpenQASM import implements the meaning of the program",
  "For every valid OpenQASM 2/3 program in the supported subset, the imported circuit has exactly the declared registers and performs exactly the operations the program denotes: gate definitions are expanded with their actual parameters and qubits, ctrl/negctrl/inv modifiers compose as defined, register operands broadcast, constant expressions are evaluated with the language's precedence and arithmetic, and measurements, resets and conditionals address the designated bits. Programs that break the language's rules (undeclared names, out-of-range indices, wrong arity, duplicate declarations or qubits) are rejected with an exception.",
  ["programs"],"every program generated from the grammar of the supported OpenQASM subset",
  "Tests import fixed snippets; the meaning must be right for every combination of definitions, modifiers, expressions and broadcasting.",
  ["src/qasm3/Importer.cpp","src/qasm3/Parser.cpp","src/qasm3/passes/ConstEvalPass.cpp","src/qasm3/passes/TypeCheckPass.cpp","src/qasm3/Scanner.cpp","include/mqt-core/qasm3/StdGates.hpp"],
  [("gate expansion and broadcasting","Importer::evaluateGateCall/applyQuantumOperation"),("constant evaluation","ConstEvalPass"),("typing","TypeCheckPass"),("precedence","Parser::parseExpression chain")])
p("C12","Any text given to the OpenQASM importer is accepted soundly or rejected",
  "Whatever text is offered, importing terminates and either throws an exception or returns a well-formed circuit, in which every operation only refers to existing qubits and classical bits and the layouts are within range. It never crashes, corrupts memory, divides by zero or hangs.",
  ["inputs"],"all byte strings (bounded nesting depth and bounded declared sizes)",
  "Tests try a few dozen malformed programs; memory safety on untrusted text quantifies over all inputs.",
  ["src/qasm3/Scanner.cpp","src/qasm3/Parser.cpp","src/qasm3/Importer.cpp","src/qasm3/passes/ConstEvalPass.cpp","src/qasm3/passes/TypeCheckPass.cpp","include/mqt-core/qasm3/NestedEnvironment.hpp"],
  [("tokenising and error recovery","qasm3::Scanner, qasm3::Parser"),("checked evaluation","ConstEvalPass, TypeCheckPass, Importer")])
p("C20","Every operation's decision diagram is that operation's matrix",
  "For every operation on every number of qubits, the decision diagram built for it represents exactly the unitary that the gate, its parameters, its positive and negative controls and its target order define; the same holds for the inverse diagram, for operations relabelled by a permutation, and for gates whose parameters were canonicalised to another gate type on construction.",
  ["inputs"],"every gate type, parameter value, number of qubits, control set with polarities and target assignment",
  "Tests build a small set of gates on at most three qubits with default targets.",
  [SDD+"Operations.cpp",SDD+"GateMatrixDefinitions.cpp",DD+"GateMatrixDefinitions.hpp",DD+"Operations.hpp",SDD+"Package.cpp",SIR+"operations/StandardOperation.cpp"],
  [("gate matrices","GateMatrixDefinitions"),("DD construction","Package::makeGateDD/makeTwoQubitGateDD"),("canonicalisation","StandardOperation::checkUgate/parseU2/parseU3")])
p("C21","The functionality built from a circuit is the product of its gates",
  "The decision diagram built for a unitary circuit, by the sequential as well as by the recursive construction, equals the product of its operations' matrices in circuit order including global phase, with the initial layout, output permutation, swap elision and ancillary/garbage declarations taken into account as documented. Both constructions agree with each other on every circuit.",
  ["inputs"],"every unitary circuit with every initial layout, output permutation and set of ancillary/garbage qubits",
  "Tests build a few benchmark circuits with trivial layouts.",
  [SDD+"FunctionalityConstruction.cpp",SDD+"Operations.cpp",DD+"FunctionalityConstruction.hpp",SDD+"Package.cpp"],
  [("sequential and recursive products","buildFunctionality, buildFunctionalityRecursive"),("permutation handling","changePermutation, SWAP elision in applyUnitaryOperation")])
p("C22","Simulating a circuit yields the exact output state",
  "Simulating a unitary circuit from any given input state yields, up to numerical tolerance, the state obtained by applying the gate matrices one after the other, global phase, initial layout and output permutation included, and it equals the functionality applied to that state. All accessors (single amplitudes, dense vector, sparse vector, exported amplitudes) report the same amplitudes.",
  ["inputs"],"every unitary circuit, layout and input state",
  "Tests simulate a few well-known circuits from the all-zero state.",
  [SDD+"Simulation.cpp",DD+"Simulation.hpp",SDD+"Operations.cpp",SDD+"Edge.cpp"],
  [("gate application","applyUnitaryOperation, Package::multiply"),("accessors","vEdge::getValueByIndex/getVector/getSparseVector")])
p("C23","Decision diagram arithmetic agrees with linear algebra",
  "Addition, multiplication, Kronecker product, conjugation, (conjugate) transposition, inner product, fidelity, expectation value, trace and partial trace of decision diagrams equal the corresponding dense linear algebra operation on the represented vectors and matrices, for all operands including zero, identities, skipped levels and differing sizes; identity and closeness predicates answer accordingly.",
  ["inputs"],"all state and matrix decision diagrams of any size and structure and all combinations of the operations",
  "Tests use a few Pauli/Bell operands; recursive algorithms with level skipping and caching must be right for all structures.",
  [SDD+"Package.cpp",DD+"Package.hpp",SDD+"Edge.cpp",SDD+"CachedEdge.cpp",DD+"ComputeTable.hpp"],
  [("recursive algorithms","Package::add2/multiply2/kronecker2/innerProduct/trace"),("normalisation","vCachedEdge/mCachedEdge::normalize")])
p("C24","Garbage collection, caching and reset never change a result",
  "For every history of decision diagram operations in one package, with reference counts raised and lowered and garbage collection, table clearing, resizing or reset occurring at any allowed point, each result is the one a fresh package would produce, and every referenced diagram keeps representing the same vector or matrix. Reference counting keeps exactly what is referenced alive: after all references are released and collection is forced, the tables hold no more than the package's own permanent nodes and numbers.",
  ["histories"],"all sequences of DD operations, reference count changes, garbage collections, clears, resizes and resets",
  "Collections happen in tests only in a few fixed spots; stale cache entries or recycled nodes show only under particular interleavings.",
  [SDD+"Package.cpp",DD+"Package.hpp",DD+"UniqueTable.hpp",SDD+"UniqueTable.cpp",SDD+"RealNumberUniqueTable.cpp",SDD+"MemoryManager.cpp",DD+"ComputeTable.hpp",DD+"UnaryComputeTable.hpp"],
  [("garbage collection","Package::garbageCollect and table invalidation"),("memory reuse","MemoryManager"),("reference counting","Package::incRef/decRef")])
p("C25","Equal objects have one canonical decision diagram",
  "Within one package, two constructions of the same vector or matrix (within the numerical tolerance) yield the identical root node and weight, whatever route was taken, so equality is a constant-time comparison; all nodes obey the normalisation and ordering rules, no node is stored twice, no redundant node survives, and stored numbers looked up again return the same entry.",
  ["inputs","histories"],"all pairs of construction routes for the same object and all sequences of stored numbers",
  "Canonicity is a claim over all pairs of constructions; tests compare a few pairs.",
  [SDD+"CachedEdge.cpp",SDD+"Edge.cpp",DD+"UniqueTable.hpp",SDD+"RealNumberUniqueTable.cpp",SDD+"ComplexNumbers.cpp",SDD+"Package.cpp"],
  [("normalisation","CachedEdge::normalize"),("unique table","UniqueTable::lookup"),("tolerance lookup","RealNumberUniqueTable::lookupNonNegative")])
p("C26","Measurement and sampling follow the Born rule",
  "The reported probabilities of measuring a qubit equal those of the represented state, a collapsing measurement returns outcomes with those probabilities and leaves the correctly projected, normalised state, and measuring all qubits only yields basis states of non-zero amplitude with the right frequencies. Sampling a circuit, including mid-circuit measurements, resets and classically controlled operations, produces exactly the requested number of shots, over bit strings laid out as documented, distributed as the circuit's exact outcome distribution.",
  ["inputs","schedules"],"all states, qubits, random seeds and all static and dynamic circuits",
  "Tests sample fixed circuits; both the distribution and the support must be right for all circuits and all random choices.",
  [SDD+"Simulation.cpp",SDD+"Package.cpp",DD+"Package.hpp",SDD+"Operations.cpp"],
  [("probabilities and collapse","Package::determineMeasurementProbabilities/measureOneCollapsing/measureAll"),("sampling","dd::sample")])
p("C27","Saved and transferred decision diagrams come back unchanged",
  "Serialising any vector or matrix decision diagram to the text or binary format and reading it back, into the same or a different package, gives the same vector or matrix (canonically the same node in the same package); transferring a diagram between packages does the same. Every exporter terminates for all diagrams and malformed input is refused with an exception.",
  ["inputs"],"all decision diagrams and both formats",
  "Tests serialise two fixed diagrams.",
  [SDD+"Export.cpp",DD+"Export.hpp",DD+"Package.hpp",SDD+"ComplexValue.cpp"],
  [("serialisation","dd::serialize, Package::deserialize"),("transfer","Package::transfer")])
p("C28","Ancillary and garbage reduction act exactly on the declared qubits",
  "Reducing a matrix for a set of ancillary qubits keeps exactly the entries in which those qubits are in their fixed zero state and zeroes all others, and reducing a matrix or state for garbage qubits sums exactly over those qubits as documented; all other qubits are untouched, for every set of qubits and every structure including skipped levels.",
  ["inputs"],"all matrices/states and all subsets of ancillary/garbage qubits",
  "Tests use a few two- to three-qubit cases.",
  [SDD+"Package.cpp",DD+"Package.hpp",SDD+"FunctionalityConstruction.cpp"],
  [("reduceAncillae/reduceGarbage","Package::reduceAncillae, Package::reduceGarbage")])
p("C29","Noise simulation realises the declared noise channels",
  "Deterministic noise simulation transforms a density matrix exactly by the Kraus operators of the selected noise effects with their probabilities on the qubits the operation uses, keeping it Hermitian, positive and of trace one. Each stochastic noise realisation is one Kraus branch, normalised, and averaging the realisations reproduces the deterministic channel; zero noise leaves the ideal result unchanged.",
  ["inputs","fault_sequences"],"all circuits, noise effect combinations, probabilities and seeds",
  "Tests check one fixed adder circuit against recorded numbers.",
  [SDD+"NoiseFunctionality.cpp",DD+"NoiseFunctionality.hpp",DD+"DensityNoiseTable.hpp",DD+"StochasticNoiseOperationTable.hpp",SDD+"Package.cpp"],
  [("Kraus application","DeterministicNoiseFunctionality::applyNoiseEffects, StochasticNoiseFunctionality")])
p("C30","State and matrix constructors and dense exports are mutually inverse",
  "Every constructor of states and matrices (zero, basis, GHZ, W, from a dense vector, from a dense matrix, identity, projections) produces exactly the vector or matrix it is documented to produce, and exporting a diagram to dense or sparse form returns the input it was built from within tolerance. Invalid input (sizes that are not powers of two, out-of-range qubits) is refused.",
  ["inputs"],"all dense vectors/matrices, basis states and sizes",
  "Tests use a few constants of fixed size.",
  [SDD+"Package.cpp",DD+"Package.hpp",SDD+"Edge.cpp",DD+"Edge.hpp"],
  [("constructors","Package::make*State, makeStateFromVector, makeDDFromMatrix"),("exports","Edge::getVector/getMatrix/traverse*")])
p("C40","The ZX-diagram of a circuit denotes the circuit's unitary",
  "For every circuit that is reported as translatable, the ZX-diagram built from it, interpreted as a linear map, equals the circuit's unitary up to a non-zero scalar, with qubits named by the circuit's initial layout; circuits that are not translatable are refused. Composing, inverting and post-selecting diagrams (fixing an input and an output to |0>) correspond to composing, taking adjoints of and contracting the maps, up to a non-zero scalar.",
  ["inputs"],"every circuit over the supported gate set with any parameters and layouts, and every sequence of diagram operations",
  "Tests compare a few gates via their own simplifier.",
  ["src/zx/FunctionalityConstruction.cpp","include/mqt-core/zx/FunctionalityConstruction.hpp","src/zx/ZXDiagram.cpp","include/mqt-core/zx/ZXDiagram.hpp"],
  [("gate translation","FunctionalityConstruction::parseOp"),("diagram operations","ZXDiagram::concat/invert/makeAncilla")])
p("C41","ZX rewriting preserves the diagram's meaning and structure",
  "Applying any simplification (single rules where applicable, each simplification procedure, full reduction) to any diagram leaves the linear map it denotes unchanged up to a non-zero scalar, terminates, and leaves a structurally valid diagram: edges symmetric, counts right, inputs and outputs intact. Diagrams reported as identity denote the identity.",
  ["inputs"],"all ZX-diagrams (random graphs, circuit-derived, with symbolic phases) and all rules",
  "Tests check rules on hand-drawn diagrams; soundness must hold at every match in every diagram.",
  ["src/zx/Rules.cpp","src/zx/Simplify.cpp","src/zx/ZXDiagram.cpp","src/zx/Utils.cpp"],
  [("rules","zx::checkX / rule pairs in Rules.cpp"),("simplification loops","Simplify.hpp/.cpp"),("parallel edges","ZXDiagram::addEdgeParallelAware")])
p("C42","Angles as fractions of pi obey exact arithmetic modulo 2*pi",
  "Exact angles form the group of rationals modulo 2 with representatives in (-1, 1]: sums, differences, products and quotients, comparisons, and conversions equal exact rational arithmetic followed by reduction, independent of the route. Converting to a floating point angle and back is faithful within the documented denominator bound and tolerance.",
  ["inputs"],"all rationals and doubles",
  "Tests use a dozen fractions.",
  ["src/zx/Rational.cpp","include/mqt-core/zx/Rational.hpp"],
  [("normalisation","PiRational::normalize, setMod2Pi"),("conversion","PiRational(double)")])
p("C50","Optimisations of unitary circuits preserve the unitary",
  "Swap reconstruction, single-qubit gate fusion, CNOT cancellation, SWAP decomposition, MCX/MCZ replacement, identity and selected-gate removal, flattening, reordering, permutation elision, output permutation back-propagation and combinations thereof leave the overall computation unchanged (with the output permutation accounted for where the pass documents that it changes it), never touch unrelated qubits, and achieve their stated effect (e.g. no SWAP, no compound operation or no controlled X left).",
  ["inputs"],"all circuits over all gate types, with barriers, compound operations and measurements interspersed, and all pass sequences",
  "Tests run passes on small hand-written circuits and compare the printed result.",
  ["src/circuit_optimizer/CircuitOptimizer.cpp","include/mqt-core/circuit_optimizer/CircuitOptimizer.hpp",SIR+"QuantumComputation.cpp"],
  [("passes","CircuitOptimizer::*"),("DAG","CircuitOptimizer::constructDAG")])
p("C51","Optimisations around measurement preserve the outcome distribution",
  "Deferring measurements, eliminating resets, removing diagonal gates before measurement and removing final measurements leave the joint distribution of all measured classical bits (respectively the state before the removed measurements) unchanged, for all circuits with mid-circuit measurements, resets and classically controlled operations; circuits to which a transformation does not apply are refused with an exception rather than altered wrongly.",
  ["inputs"],"all dynamic circuits (measure, reset, classically controlled operations in any order)",
  "Tests check hand-written circuits with one or two measurements.",
  ["src/circuit_optimizer/CircuitOptimizer.cpp","include/mqt-core/circuit_optimizer/CircuitOptimizer.hpp"],
  [("passes","CircuitOptimizer::deferMeasurements/eliminateResets/removeDiagonalGatesBeforeMeasure/removeFinalMeasurements")])
p("C52","Block collection partitions the circuit without changing it",
  "Collecting blocks keeps every operation exactly once (apart from identities, which are removed), keeps the circuit's effect, including measurements, resets and classically controlled operations, and produces blocks that act on at most the requested number of qubits.",
  ["inputs"],"all circuits and all block sizes",
  "Tests check a few circuits for the number of blocks.",
  ["src/circuit_optimizer/CircuitOptimizer.cpp","include/mqt-core/datastructures/DisjointSet.hpp"],
  [("block union","CircuitOptimizer::collectBlocks, DSU")])
p("C60","Algorithm generators realise the algorithms they are named after",
  "For every size, seed and parameter: GHZ and W generators prepare exactly those states, QFT (static and iterative) implements the discrete Fourier transform of the register read with its first qubit as the most significant one, the measured bits and the output permutation holding the result in reverse order, Bernstein-Vazirani recovers the hidden string with certainty, Grover amplifies the marked element to the theoretical probability, phase estimation yields the best estimates with the theoretical distribution, state preparation produces the given amplitudes, and random Clifford circuits contain only Clifford gates of the requested depth and are reproducible for a fixed seed. Iterative variants have the same outcome distribution as the static ones.",
  ["inputs","configurations"],"all sizes, seeds, hidden strings, targets, phases and amplitude vectors",
  "Tests check a few sizes and compare against DD results of the same library.",
  ["src/algorithms/QFT.cpp","src/algorithms/QPE.cpp","src/algorithms/Grover.cpp","src/algorithms/BernsteinVazirani.cpp","src/algorithms/StatePreparation.cpp","src/algorithms/WState.cpp","src/algorithms/GHZState.cpp","src/algorithms/RandomCliffordCircuit.cpp"],
  [("generators","qc::create* functions")])
p("C70","Graph, matrix and set data structures behave like their models",
  "Directed graphs, directed acyclic graphs, undirected graphs, symmetric matrices and disjoint sets answer every query (edges, degrees, neighbours, reachability, representatives) as the mathematical object resulting from the same history of insertions would; an acyclic graph refuses exactly the edges that would close a cycle, and topological orders respect all edges.",
  ["histories"],"all sequences of insertions and queries",
  "Tests replay a few fixed graphs; e.g. transitive closure maintenance depends on insertion order.",
  ["include/mqt-core/datastructures/DirectedGraph.hpp","include/mqt-core/datastructures/DirectedAcyclicGraph.hpp","include/mqt-core/datastructures/UndirectedGraph.hpp","include/mqt-core/datastructures/SymmetricMatrix.hpp","include/mqt-core/datastructures/DisjointSet.hpp"],
  [("closure maintenance","DirectedAcyclicGraph::addEdge"),("union-find","DisjointSet::unionSet/findSet")])
p("C71","The executable layer of a circuit respects all its dependencies",
  "Executing the operations of a circuit of gates one at a time from the set reported as executable, in any order of choice, executes every operation exactly once, never before an operation it depends on, and any resulting order implements the same unitary as the circuit; interaction graphs report exactly the executable operations of the requested kind.",
  ["inputs","schedules"],"all circuits and all schedules of executions, with and without commutation",
  "Tests execute one fixed schedule of one circuit; all schedules must be valid.",
  ["src/datastructures/Layer.cpp","include/mqt-core/datastructures/Layer.hpp"],
  [("DAG with commutation groups","Layer::constructDAG"),("executable counters","Layer::DAGVertex::execute")])
p("C80","Neutral atom computations are validated and tracked exactly",
  "A neutral-atom computation is reported valid exactly if no atom is loaded twice or moved/stored without being loaded, no operation names an atom twice, and rows, columns and their order are preserved by every rearrangement without two end points coinciding; the reported location of an atom after an operation is the last target given to it up to then. The printed form lists all atoms and operations with the names, parameters and locations they were given.",
  ["histories"],"all computations built from loads, stores, moves, local and global gates on any atoms and locations",
  "Tests check fixed violation examples one by one.",
  ["src/na/NAComputation.cpp","include/mqt-core/na/NAComputation.hpp","src/na/operations/LoadOp.cpp","include/mqt-core/na/entities/Location.hpp","src/na/entities/Zone.cpp"],
  [("validation","NAComputation::validate"),("tracking","NAComputation::getLocationOfAtomAfterOperation")])
p("C90","Qiskit circuits convert to and from MQT Core without changing meaning",
  "Importing a Qiskit circuit yields a circuit with the same registers, the same unitary (global phase included where supported), the same measurements, and the layout given by the transpiler; symbolic parameters keep their value under every assignment. Exporting a circuit to Qiskit yields an equivalent Qiskit circuit, and a round trip preserves it; what cannot be converted is refused with an exception.",
  ["inputs"],"all Qiskit circuits over the supported gates with any parameters (numbers or linear symbolic expressions), controls, sub-circuits and layouts",
  "Tests convert a few fixed circuits.",
  ["src/mqt/core/plugins/qiskit/qiskit_to_mqt.py","src/mqt/core/plugins/qiskit/mqt_to_qiskit.py","src/python/ir/register_quantum_computation.cpp"],
  [("gate mapping","qiskit_to_mqt._emplace_operation, mqt_to_qiskit._add_standard_operation"),("symbolic parsing","_parse_symbolic_expression")])
p("C91","The Python interface does what its documentation says",
  "Every name the type stubs document exists and accepts the documented parameter names. Circuits, operations, permutations, registers, symbolic expressions and decision diagrams built or modified through the Python methods mean what the documentation says (same unitary, same states, same sampled outcomes as the circuit written down); circuits and compound operations behave as mutable sequences, permutations as mutable mappings, with Python's errors for invalid indices, keys and types; no sequence of calls crashes the interpreter or leaves a returned object dangling.",
  ["inputs","histories"],"all sequences of documented calls with valid arguments and with wrong indices, keys and types",
  "Tests call some of the methods once with fixed arguments.",
  ["src/python/ir/register_quantum_computation.cpp","src/python/ir/register_permutation.cpp","src/python/ir/operations/register_compound_operation.cpp","src/python/dd/register_dd.cpp","src/python/dd/register_dd_package.cpp","src/mqt/core/ir/__init__.pyi","src/mqt/core/dd.pyi"],
  [("bindings","src/python"),("documented interface","src/mqt/core/**/*.pyi")])
p("C95","MLIR dialect: passes and round trip preserve the program",
  "Cancelling consecutive inverses, sinking gates into branches, and the round trip through the circuit representation leave what a valid program of the dialect does unchanged: on every path through its branches and loops the same states of the returned qubits and registers are reached with the same measured bits; each pass terminates and yields valid IR for every valid input. The verifier accepts an operation exactly if its numbers of targets, parameters and results fit the gate, and printing and parsing a program returns the same program.",
  ["inputs"],"all programs of the dialect over gates with positive and negative controls, registers, measurements, branches and loops (round trip: straight-line programs over the supported gates x, y, z, H, which measure every qubit)",
  "Tests check fixed IR snippets textually.",
  ["mlir/lib/Dialect/MQTOpt/Transforms/ToQuantumComputationPattern.cpp","mlir/lib/Dialect/MQTOpt/Transforms/FromQuantumComputationPattern.cpp","mlir/lib/Dialect/MQTOpt/Transforms/CancelConsecutiveInversesPattern.cpp","mlir/lib/Dialect/MQTOpt/Transforms/QuantumSinkPushPattern.cpp","mlir/lib/Dialect/MQTOpt/Transforms/QuantumSinkShiftPattern.cpp","mlir/include/mlir/Dialect/MQTOpt/IR/MQTOptOps.td","mlir/include/mlir/Dialect/MQTOpt/IR/MQTOptTraits.h"],
  [("passes","quantum-opt pass pipeline"),("dialect","MQTOptOps.td, MQTOptTraits.h")])
out=os.path.join(os.path.dirname(__file__),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
