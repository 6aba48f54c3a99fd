"""Writes properties.jsonl (kept as a script so that the file stays well-formed)."""
import json
from pathlib import Path

S = "dwave/gate/simulator/simulator.pyx"
G = "dwave/gate/simulator/operation_generation.py"
C = "dwave/gate/circuit.py"
B = "dwave/gate/operations/base.py"
O = "dwave/gate/operations/operations.py"
U = "dwave/gate/tools/unitary.py"
K = "dwave/gate/tools/counters.py"
P = "dwave/gate/primitives.py"
R = "dwave/gate/registers/registers.py"
Y = "dwave/gate/registers/cyregister.pyx"
QC = "dwave/gate/qir/compiler.py"
QI = "dwave/gate/qir/instructions.py"
QL = "dwave/gate/qir/loader.py"
M = "dwave/gate/mixedproperty.py"

PROPS = []


def prop(id, title, statement, over, text, why, files, mech, observe=()):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": files,
                "mechanism": [{"name": n, "where": w} for n, w in mech],
                "observe_at": list(observe),
                "hook_needed": None,
            },
        }
    )


prop(
    "C01",
    "State-vector simulation applies exactly the circuit's gates",
    "For every circuit of supported gates (built-in ones, user-defined single-qubit operations, "
    "operations with one or two controls, operations created from single-qubit circuits), on any "
    "choice and order of qubits and any register layout, simulating leaves the circuit state equal "
    "to the ordered product of the gates' textbook matrices applied to the all-zero state; "
    "little-endian simulation gives the same state with the qubit order of the indices reversed. "
    "Barriers have no effect, simulating again gives the same state without changing states read before, and the operations are left "
    "unchanged. Operations that the simulator does not support are reported with an error, never "
    "skipped.",
    ["programs", "inputs", "configurations"],
    "all circuits (gate sequences, parameters, qubit placements, register layouts) and both "
    "endiannesses; searched up to 12 qubits",
    "The tests simulate a dozen fixed circuits on up to three qubits; index arithmetic of the "
    "generated kernels depends on the relative order of controls and targets, the number of qubits "
    "and the endianness, which only generated circuits cover.",
    [S, G, C],
    [("simulate / apply_instruction", S), ("generated kernels", G), ("flattened qubits", C)],
    ["Circuit.state"],
)
prop(
    "C02",
    "Density-matrix simulation agrees with the pure-state evolution",
    "For every circuit, mixed-state simulation yields U|0><0|U† for the circuit's unitary U (for "
    "circuits with measurements: the outer product of the post-measurement state for the same "
    "random outcomes), Hermitian, positive and with unit trace, in both endiannesses. The "
    "density matrix reported after a state-vector simulation is |ψ><ψ| of the reported state. "
    "Simulating again leaves density matrices read earlier as they were.",
    ["programs", "inputs", "configurations"],
    "all circuits and both endiannesses; searched up to 5 qubits",
    "Tests use real-amplitude states or symmetric gates, on which transposition, conjugation and "
    "index reversal mistakes do not show.",
    [S, C],
    [("_simulate_circuit_density_matrix", S), ("Circuit.density_matrix", C)],
    ["Circuit.density_matrix"],
)
prop(
    "C03",
    "Mid-circuit measurements record, collapse and condition consistently",
    "During simulation a measurement stores each measured qubit's outcome in the corresponding bit, "
    "keeps the state before it was measured, and collapses the state to the normalized projection "
    "on exactly these outcomes; later operations act on the collapsed state. An operation "
    "conditioned on bits takes effect exactly if all those bits are 1 at that point. The same holds "
    "for state-vector and density-matrix simulation, and outcomes of zero probability never occur.",
    ["programs", "histories", "inputs"],
    "all circuits with gates, measurements of any subset of qubits in any order into any bits, and "
    "operations conditioned on previously measured bits; all seeds",
    "Tests measure a few basis or Bell states; they cannot cover which qubit, bit, partial state or "
    "interleaving of measurements and conditionals is involved.",
    [S, B],
    [("_measure / sample_qubit", S), ("Measurement, is_blocked", B)],
    ["Bit.value", "Measurement.state", "Circuit.state"],
)
prop(
    "C04",
    "Sampling follows the Born rule and is reproducible by seed",
    "Samples drawn from a measurement (and single-qubit sampling of any pure or mixed state, in "
    "both endiannesses) only contain outcomes of non-zero joint probability, in the requested qubit "
    "order, with the Born-rule frequencies and correlations, and leave the measured state "
    "unchanged; expectation values are the mean of such samples. Simulating the same circuit with "
    "the same seed gives the same bits and state, however often it has been simulated before. "
    "Sampling qubits that are not part of the state is rejected.",
    ["inputs", "programs", "histories"],
    "all measured states, qubit subsets and orders, sample counts and seeds",
    "Tests draw samples of a few product and Bell states; joint distributions, qubit orders and "
    "repeated simulations are not covered.",
    [B, S],
    [("Measurement.sample / expval", B), ("sample_qubit", S), ("simulate rng", S)],
    ["Measurement.sample", "Measurement.expval", "sample_qubit"],
)
prop(
    "C05",
    "Gate matrices equal their definitions in every form of access",
    "For all parameters, the matrix of every built-in operation is unitary and equals its textbook "
    "definition, whether read from the class, an instance, an alias, an instance with qubits, or "
    "within any active context (where a controlled operation orders its qubits as the circuit "
    "does). Controlled operations are the identity on non-set controls and the target "
    "operation otherwise, and the product of a declared decomposition equals the gate up to a "
    "global phase. Reading a matrix never changes the operation, the circuit or later reads.",
    ["inputs", "configurations"],
    "all parameters, gates, qubit orders and context situations",
    "Tests compare matrices for a handful of parameters and the default qubit order.",
    [O, B, U],
    [("matrix properties", O), ("ControlledOperation.matrix", B), ("build_controlled_unitary", U)],
    ["Operation.matrix"],
)
prop(
    "C06",
    "The unitary built from a circuit is the ordered product of its gates",
    "For every circuit of single-qubit and singly or multiply controlled single-target operations, "
    "the built unitary is the big-endian matrix product of its operations in the order of "
    "application, agrees with simulation, and reflects the circuit as it is now, also after it has "
    "been modified. A circuit with operations it does not support (conditional ones included) raises instead of "
    "giving a wrong unitary, and the circuit is not changed.",
    ["programs", "histories", "inputs"],
    "all circuits of supported operations, including modification between calls; up to 5 qubits",
    "Tests compare a few fixed two- and three-qubit circuits.",
    [U],
    [("build_unitary", U), ("_apply_single_qubit_gate / _apply_controlled_gate", U)],
    ["build_unitary"],
)
prop(
    "C07",
    "Controlled unitaries are correct for any control/target placement",
    "For any number of qubits, any set of distinct control indices in any order, any target index "
    "and any 2x2 matrix, the built controlled unitary applies the matrix to the target exactly when "
    "all controls are 1 (qubit 0 most significant), in the requested type, without modifying the "
    "arguments; the number of qubits defaults to the largest index plus one. Overlapping control "
    "and target, too few qubits and several targets are rejected.",
    ["inputs"],
    "all index sets up to 7 qubits and all 2x2 matrices",
    "Tests list some placements on up to four qubits for X-like gates.",
    [U],
    [("build_controlled_unitary", U)],
    ["build_controlled_unitary"],
)
prop(
    "C08",
    "Operations created from circuits behave like the circuit they wrap",
    "An operation created from a circuit has its number of qubits and parameters, and its matrix "
    "is the circuit's unitary; for a parametric circuit, the matrix for given "
    "parameters is the unitary of the circuit with each variable replaced by the parameter of the "
    "same index, wherever and however often the variable occurs. Reading the matrix leaves the "
    "wrapped circuit unchanged, and instances with different parameters do not "
    "affect each other.",
    ["programs", "inputs"],
    "all (parametric) circuits of supported gates, all parameter vectors, several instances",
    "Tests wrap two or three fixed circuits whose variables occur once and in order.",
    [B, U],
    [("create_operation", B), ("build_unitary", U)],
    ["create_operation"],
)
prop(
    "C09",
    "Binding parameters replaces exactly the variables, by index and by value",
    "Evaluating a parametric operation or circuit replaces every variable by the explicit "
    "parameter of the same position or else the variable's current value (0 included), leaves "
    "numeric parameters as they are, and fails if a value is missing. Evaluating a copy leaves the "
    "original untouched, evaluating in place changes it. Applying a parametric circuit with "
    "parameters inside another circuit records operations with the numeric values passed and "
    "leaves the template's variables usable for further calls with other parameters.",
    ["programs", "inputs", "histories"],
    "all parametric circuits, parameter vectors, call sequences and nesting in plain or parametric "
    "circuits",
    "Tests bind one or two parameters once; zero values, repeated calls and mixed numeric/variable "
    "parameters are not covered.",
    [C, B, P],
    [("ParametricCircuit.__call__/eval", C), ("ParametricOperation.eval", B), ("Variable", P)],
    ["ParametricCircuit.eval", "ParametricCircuit.__call__"],
)
prop(
    "C10",
    "Applying a circuit as a template maps every qubit, bit and condition",
    "Applying a circuit within another circuit's context appends the same operations in the same "
    "order, with every qubit, measured bit and condition bit of the template replaced by the passed one at the same "
    "position, leaving the template unchanged; so the simulation of the outer circuit "
    "equals that of the inlined operations. Templates can be applied repeatedly, "
    "nested, and on any distinct qubits; a wrong number of qubits or bits, use outside of a "
    "context, or application to itself is rejected without appending anything.",
    ["programs", "histories"],
    "all template circuits (gates, controlled gates, custom operations, measurements, conditionals) "
    "and all mappings",
    "Tests apply one template with simple gates onto consecutive qubits.",
    [C],
    [("Circuit.__call__", C)],
    ["Circuit.circuit after the call"],
)
prop(
    "C11",
    "Circuit contexts record exactly the operations applied while active",
    "At any time at most one context is active; operations created while a context is active and "
    "not frozen are appended to exactly that circuit, once and in order, and those created outside "
    "or while frozen (also with nested freezes) to none. Leaving a context, normally or by an "
    "exception, makes it inactive, locks the circuit, and resets the variables of parametric circuits "
    "applied in it; a locked circuit rejects entering "
    "and appending until unlocked, and a rejected operation leaves all circuits unchanged. Resetting "
    "gives an empty, unlocked circuit without state.",
    ["histories", "fault_sequences"],
    "all sequences of entering, nesting, freezing, failing, leaving, locking, unlocking, appending, "
    "removing and resetting over several circuits",
    "Tests perform single, well-ordered steps; they do not cover histories with failures and "
    "nesting.",
    [C, B],
    [("CircuitContext", C), ("Operation.__init__", B), ("Circuit.append/lock/reset", C)],
    ["Circuit.circuit", "CircuitContext.active_context"],
)
prop(
    "C12",
    "Circuit registers and (qu)bits stay consistent under any edits",
    "After any sequence of adding registers, qubits and bits and of resets, the "
    "circuit's qubits and bits are the concatenation of its registers in order of creation, "
    "their numbers match, every label identifies one register, and each (qu)bit belongs to one "
    "register only. Finding a (qu)bit by object or label returns its actual "
    "register and index, new (qu)bits and registers never replace existing ones, and rejected edits "
    "(duplicates, wrong types, used labels) change nothing.",
    ["histories"],
    "all edit sequences with default, explicit, repeated and falsy labels and valued bits",
    "Tests check single additions; caching and default labels only go wrong in histories.",
    [C, R],
    [("add_qubit/add_bit/add_qregister/add_cregister", C), ("cached qubits and bits", C),
     ("find_qubit/get_qubit", C)],
    ["Circuit.qubits", "Circuit.bits", "Circuit.qregisters"],
)
prop(
    "C13",
    "A circuit's state is only ever set to a valid, normalized state",
    "Setting a state accepts exactly normalized state vectors and unit-trace density matrices of "
    "the circuit's dimension (after normalization, if requested), refuses to replace a state unless "
    "forced, and leaves the old state in place when refusing. Afterwards the state and density "
    "matrix describe the state set last: a pure state gives both, a mixed one "
    "only the density matrix while asking for its state raises, and without a state both are absent.",
    ["inputs", "histories"],
    "all vectors and matrices (valid, wrongly sized, unnormalized), flags and call sequences",
    "Tests use a few real single-qubit states.",
    [C],
    [("set_state / _assert_state / state / density_matrix", C)],
    ["Circuit.state", "Circuit.density_matrix"],
)
prop(
    "C14",
    "Registers behave like ordered sequences of unique items",
    "A register behaves like a list of unique hashable items under any history of adding, "
    "concatenating, copying, slicing, indexing, searching, counting, removing, popping and "
    "relabelling, for items of any hashable type including numbers that coincide with positions. "
    "Items keep their order and value, copies and slices are independent of the original, adding "
    "an existing item or looking up a missing one raises and changes nothing, and a frozen register "
    "cannot be added to while its copies can.",
    ["histories", "inputs"],
    "all operation sequences and items",
    "The implementation stores only items that differ from their index; the tests use short "
    "registers of strings or small ranges.",
    [Y, R],
    [("index/label maps", Y), ("Register.add/copy/freeze/__add__", R)],
    ["list(register)", "Register.index", "Register.count"],
)
prop(
    "C15",
    "Self-incrementing registers create exactly the variables asked for",
    "Indexing a self-incrementing parameter register at any non-negative index returns the variable "
    "of that index, first creating all missing ones, named by their indices (except for names in use); existing variables "
    "keep their identity, value and position. Negative indices and slices behave as for lists, and a "
    "frozen register never grows but raises for indices out of range; in a parametric circuit the "
    "number of parameters is the largest index used plus one, and the register is frozen on leaving "
    "the context until the circuit is unlocked; resetting the variables leaves none of them with a value.",
    ["histories", "inputs"],
    "all access sequences, with freezing and unlocking",
    "Tests access one or two indices.",
    [R, C],
    [("SelfIncrementingRegister.__getitem__", R), ("ParametricCircuitContext", C)],
    ["ParametricCircuit.num_parameters"],
)
prop(
    "C16",
    "Qubits, bits and variables keep unique identities and exact values",
    "Identifiers handed out by the ID counter never repeat, for any batch size, initial length and "
    "number of draws, until all identifiers are used up, which raises. Qubits "
    "and bits are equal only to themselves and hash consistently whatever their label; a bit holds "
    "nothing, 0 or 1, is only overwritten by force and is true unless 0. Variables are equal by "
    "name, hold exactly the value set (0 included) until reset, and compare equal to that value.",
    ["histories", "inputs"],
    "all counter configurations and histories of setting, resetting and comparing",
    "Tests draw a few IDs and set a few values; exhaustion and batch boundaries need long histories.",
    [K, P],
    [("IDCounter", K), ("Qubit/Bit/Variable", P)],
    ["IDCounter.next", "Bit.value", "Variable.value"],
)
prop(
    "C17",
    "OpenQASM export describes the same circuit",
    "For every circuit of gates with an OpenQASM form, the exported OpenQASM 2.0 program declares "
    "each register once with its size, and its statements, read independently, are the "
    "circuit's operations in order with the same gates, parameters (to full precision) and qubits, "
    "with and without register labels; so it has the same unitary. With gate definitions, each "
    "gate is declared at most once and before use. What cannot be expressed (parametric "
    "circuits, measurements, conditionals, other versions) raises instead of being dropped.",
    ["programs", "inputs", "configurations"],
    "all circuits, register layouts, labels, parameters and export options",
    "Tests compare the text of a handful of circuits.",
    [C, O, B, R],
    [("Circuit.to_qasm", C), ("Operation.to_qasm", O), ("Register.to_qasm", R)],
    ["Circuit.to_qasm", "Operation.to_qasm"],
)
prop(
    "C18",
    "QIR export and import round-trip circuits",
    "Exporting any circuit of supported gates with optional final measurements to QIR and loading "
    "it again, as text or bitcode and with external functions where needed, gives a circuit with "
    "the same operations, parameters, qubits and measured bits in the same order (identities are "
    "dropped; qubits are flattened into one register), and the same state when simulated. "
    "Exporting the loaded circuit gives the same instructions, and text and bitcode describe the same "
    "program.",
    ["programs", "inputs"],
    "all circuits, register layouts, parameters and both formats",
    "Tests round-trip a few circuits with one register and hard-coded parameters.",
    [QC, QL, QI, C],
    [("qir_module", QC), ("_module_to_circuit", QL), ("Operations tables", QI)],
    ["Circuit.to_qir", "Circuit.from_qir"],
)
prop(
    "C19",
    "Compiled QIR contains exactly the circuit's operations",
    "For every circuit, the QIR program calls, in the order of the circuit, the function of each "
    "gate with its exact parameters and global qubit indices, then the measurements with their "
    "qubit and result indices, then records each measured result; it states the required "
    "numbers of qubits and results, and declares every function it calls once with matching "
    "argument types. Gates without QIR form (unless external functions are requested), "
    "operations after measurements and conditionals are rejected.",
    ["programs", "inputs", "configurations"],
    "all circuits, register layouts and compile options",
    "Tests compare the text of a handful of circuits with a single register.",
    [QC, QI],
    [("qir_module", QC), ("BaseModule.compile", QC), ("Instruction.execute", QI)],
    ["Circuit.to_qir"],
)
prop(
    "C20",
    "Loading QIR reproduces the program's calls in order",
    "For every valid QIR program of supported calls, over any blocks, the loaded circuit "
    "has the corresponding operations in program order up to the return instruction, with the same "
    "parameters, qubits and bits, and enough qubits and bits for all of them; "
    "runtime calls are ignored. Loading into an existing circuit appends to its operations, loading "
    "from text or bitcode is equivalent, and unknown quantum instructions raise an error.",
    ["programs", "inputs"],
    "all generated QIR texts: instruction sequences, blocks, external declarations, constants",
    "Tests load three fixed texts.",
    [QL, QI],
    [("_module_to_circuit", QL), ("_deconstruct_call_instruction", QL)],
    ["load_qir_string", "load_qir_bitcode"],
)
prop(
    "C21",
    "QIR modules compile to the same program however often they are compiled",
    "For every module built from a circuit or by adding instructions, (forced) recompilation and "
    "resetting without removing instructions reproduce the same program, with the flags asked for; compiling again without "
    "forcing is rejected, and a full reset gives the empty program, to which new "
    "instructions can be added. Instructions appear in their block in the order added, and circuits "
    "compiled to several modules do not affect each other.",
    ["histories", "programs"],
    "all histories of adding, compiling, forcing, resetting and reading modules",
    "Tests recompile one module without external functions.",
    [QC, QI],
    [("BaseModule.compile/reset", QC), ("Instruction", QI)],
    ["BaseModule.qir", "BaseModule.bitcode"],
)
prop(
    "C22",
    "Mixed properties give class and instance access without mixing them up",
    "A mixed property always evaluates its function with the class it is accessed through and, if "
    "accessed on an instance, that instance, also for subclasses, overriding and calls to "
    "parent properties. If it requires an instance, access on the class gives nothing without "
    "calling the function; it cannot be assigned on an instance, and exceptions raised inside "
    "propagate.",
    ["inputs", "programs"],
    "all class hierarchies and property definitions up to the generated depth",
    "Tests use one class with three properties.",
    [M],
    [("mixedproperty.__get__", M)],
    ["class and instance attribute access"],
)
prop(
    "C23",
    "Generated kernels apply the given matrices for all indices and options",
    "For every gate matrix (given at generation or at run time, with or without a sparsity mask), "
    "number of targets and controls, placement and endianness, the generated code applies exactly "
    "that controlled matrix to the state, with target i as bit i of the matrix index; "
    "norm-collecting variants return the squared norm of the result, and scaled variants multiply it by "
    "the factor. A generated operator set chooses among its operators with their Born "
    "probabilities and normalizes; operators that do not sum to the identity are rejected.",
    ["programs", "inputs", "configurations"],
    "all generated gates with up to three targets and two controls, on up to six qubits",
    "The tests only reach the fixed kernels built into the simulator, through circuits.",
    [G],
    [("compile_gate / generate_op_c_code / generate_op / generate_op_set", G)],
    ["generated C and Cython code"],
)
prop(
    "C24",
    "Operations validate, compare, and re-apply consistently",
    "Every operation keeps the qubits (controls before targets) and parameters it was given in any "
    "of the accepted call forms, and rejects wrong numbers of qubits or parameters, or "
    "missing qubits in a context, without being applied. Re-applying an operation, on the same or "
    "other qubits, appends a new equal operation and leaves the original unchanged. Two operations "
    "are equal exactly if they are of the same kind with the same qubits and "
    "parameters, and comparing never raises. A measurement keeps the first bits it is given, one for each of its qubits, and refuses too few.",
    ["inputs", "histories"],
    "all operations, call forms, (in)valid numbers of qubits and parameters, pairs",
    "Tests cover one or two call forms per operation.",
    [B, O],
    [("Operation/ParametricOperation/ControlledOperation constructors, __call__, __eq__", B)],
    ["Operation.qubits", "Operation.parameters", "Operation.__eq__"],
)
prop(
    "C25",
    "QIR instructions are validated, executed as given and compared by kind",
    "A QIR instruction keeps its type, name and arguments (numbers, or constants such as qubits and "
    "results); any other argument, or an external instruction without its function, is rejected. "
    "Executing a base, external or measurement instruction emits exactly one call with these "
    "arguments, and any other type raises and emits nothing. Two instructions are equal exactly if "
    "they have the same type, name, numerical parameters, and numbers of qubits and results, and "
    "comparing with anything else gives false without raising.",
    ["inputs"],
    "all instructions of all types with arguments of all kinds, and all pairs",
    "Tests compare a handful of instructions with one kind of argument.",
    ["dwave/gate/qir/instructions.py"],
    [("Instruction", "dwave/gate/qir/instructions.py")],
    ["Instruction.__eq__", "Instruction.execute"],
)
prop(
    "C26",
    "Copies of circuits and operations are equivalent and independent",
    "A deep copy or pickled copy of a circuit has the same registers, labels, ids, values, operations, "
    "variables, conditions, state and lock, simulates the same way for the same seed, and is consistent in itself: "
    "its operations use its own qubits, bits and variables. The original is not changed by being copied, "
    "nor is either changed by later edits or simulations of the other. Copies of operations are equal to the "
    "original, have the same matrix, and are not added to any circuit.",
    ["inputs", "histories"],
    "all circuits, ways of copying, and edits of the original or the copy afterwards",
    "Tests do not copy circuits with content and edit them afterwards.",
    ["dwave/gate/circuit.py", "dwave/gate/registers/registers.py", B],
    [("Circuit.eval (deepcopy)", "dwave/gate/circuit.py"), ("Register", "dwave/gate/registers/registers.py")],
    ["Circuit", "Operation", "Register"],
)

prop(
    "C27",
    "Results depend on how an object was made, not on what was done before",
    "What a circuit gives (its description, simulated state for a seed, unitary, matrices, OpenQASM, QIR, copies, "
    "evaluation, operations created from it, its effect as a template) depends only on how this circuit was "
    "built and edited. It is the same in a process that never did anything else, and in one that in between "
    "read or exported the same circuit any number of times, used other circuits, defined or "
    "inspected operation classes, used the circuit as a template (which may reset its variables), or had calls failing with an exception, "
    "within a context or not; and no such call leaves a circuit context active. In particular an edited circuit "
    "gives the same as one with the same registers, operations and values that is made at once.",
    ["histories", "fault_sequences"],
    "all interleavings of work on some circuits with reading them, work on others, and failing calls",
    "Tests look at one object at a time and rarely go on after an exception.",
    ["dwave/gate/circuit.py", B, "dwave/gate/mixedproperty.py", "dwave/gate/simulator/simulator.pyx"],
    [("CircuitContext", "dwave/gate/circuit.py"), ("Operation", B), ("mixedproperty", "dwave/gate/mixedproperty.py")],
    ["Circuit", "CircuitContext", "Operation", "simulate"],
)

if __name__ == "__main__":
    out = Path(__file__).resolve().parent.parent / "properties.jsonl"
    out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in PROPS))
    print(len(PROPS), "properties")
