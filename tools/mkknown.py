"""Writes the "fixed" list of known_findings.json from the fix commits in /repo."""
import json
import subprocess
from pathlib import Path

V = Path(__file__).resolve().parent.parent
# subject (after "fix: ") -> (property, what failed)
WHAT = {
    "do not fail to create variables when their names are in use in the register": ("C15", "indexing a self-incrementing register with a variable named like one of the indices to be created raised ValueError, leaving some of them added"),
    "do not add missing items to frozen registers when looking up their index": ("C14", "index(item, permissive=True) added a missing item to a frozen register"),
    "raise instead of ignoring conditionals when building unitaries": ("C06", "build_unitary ignored the conditions of a conditional X"),
    "reject qubits not part of the state when sampling": ("C04", "sample_qubit accepted qubit -1 or one past the end, reading outside of the state"),
    "use unique names for the gate matrix entries in generated code": ("C23", "the code generated for a 4-target gate given at run time did not compile"),
    "support complex and integer gates in generated code": ("C23", "the code generated for complex (or integer) gates given at generation did not compile"),
    "a failed QIR compilation leaves no program in the module": ("C21", "compiling again after a failed compilation gave a module with two programs"),
    "simulate operations whose matrix is not a C-contiguous complex array": ("C01", "user operation exposing its 2x2 matrix as a transposed array was simulated transposed"),
    "report unknown multi-qubit operations instead of failing on a missing label": ("C01", "unsupported operations failed with an unrelated AttributeError"),
    "raise instead of silently skipping operations with more than two controls": ("C01", "operations with three controls were silently skipped by the simulator"),
    "treat barriers as no-ops when simulating": ("C01", "simulating a circuit with a Barrier raised"),
    "do not accumulate measured qubit indices over repeated simulations": ("C04", "a measurement simulated twice sampled its qubits twice"),
    "respect little-endian indexing in density matrix simulations": ("C02", "mixed-state simulation ignored little_endian"),
    "support measurements in density matrix simulations": ("C02", "mixed-state simulation with a measurement raised"),
    "conjugate the bra when computing the density matrix of a pure state": ("C02", "density_matrix of a complex pure state was not Hermitian"),
    "accept mixed density matrices in Circuit.set_state by using their trace": ("C13", "set_state rejected valid mixed density matrices"),
    "clear the state and the cached qubits and bits when resetting a circuit": ("C11", "Circuit.reset kept state, density matrix and qubits of the old circuit"),
    "add the given bit to the circuit even if its value is 0": ("C12", "add_bit with a bit of value 0 added a new bit instead"),
    "never pick an already used label as default register label": ("C12", "add_qregister without label could replace an existing register"),
    "do not leave an empty register behind when failing to add a duplicate (qu)bit": ("C12", "a rejected add_qubit/add_bit left a new empty register behind"),
    "keep context frozen when exiting a nested frozen context": ("C11", "leaving a nested freeze unfroze the outer one"),
    "apply operations with several controls when calling a circuit": ("C10", "templates with doubly controlled operations could not be applied"),
    "accept zero-valued bits and unstored measurements when calling a circuit": ("C10", "templates with measurements could not be applied with bits of value 0, or without bits"),
    "keep (mapped) conditionals when calling a circuit": ("C10", "conditions were dropped when applying a template"),
    "keep parameter values when calling a parametric circuit within another": ("C09", "numeric values passed to a template within a parametric circuit were lost"),
    "treat 0 as a set variable value": ("C09", "a variable set to 0 counted as unset"),
    "do not restore variables in evaluated parametric controlled operations": ("C09", "copies of parametric controlled operations referred to their variables again"),
    "compare parametric with non-parametric operations without raising": ("C24", "RX(0.1) == X() raised AttributeError"),
    "do not return outdated unitaries for modified circuits": ("C06", "build_unitary returned a cached unitary after the circuit was modified"),
    "build unitaries of circuits with parametric controlled operations": ("C06", "build_unitary raised for CRX, CRY, CRZ, CRotation"),
    "map parameters of custom operations by variable instead of by occurrence": ("C08", "custom parametric operations mixed up parameters used out of order or repeatedly"),
    "include the parameters of parametric custom operations in OpenQASM": ("C17", "parametric custom operations were exported without parameters"),
    "keep control and target of controlled operations in line with their qubits": ("C24", "setting the qubits of a controlled operation kept its old control and target"),
    "support accessing matrices of controlled operations in any active context": ("C05", "reading the matrix of CX within a context raised, or depended on other circuits"),
    "store items comparing equal to their index in registers": ("C14", "registers lost items equal to their position"),
    "support freezing, and adding to, copied registers": ("C14", "copied registers could neither be frozen nor added to"),
    "support negative, reversed and out-of-range slices of registers": ("C14", "slices with negative steps or out-of-range limits were wrong"),
    "support any number as register item": ("C14", "negative or fractional numbers as items raised"),
    "compile circuits with several registers to QIR without mixing up qubits": ("C19", "QIR used the index within the register for every register"),
    "ignore identity operations when compiling to QIR": ("C19", "compiling an Identity raised"),
    "declare external QIR functions with parameters in argument order": ("C19", "external functions were declared with the wrong argument types"),
    "accept integer parameters when compiling external operations to QIR": ("C19", "integer parameters of external functions raised"),
    "load QIR operations with several parameters": ("C18", "Rotation could not be loaded from QIR"),
    "keep the order of measurements and operations, and add measured qubits, when loading QIR": ("C20", "loaded measurements moved behind later operations; measured-only qubits were missing"),
    "declare external QIR functions only once": ("C19", "external functions used twice were declared twice"),
    "keep external instructions when recompiling, and allow resetting at any time": ("C21", "recompiling lost external instructions; resetting before compiling raised"),
    "declare each gate only once in OpenQASM": ("C17", "gate definitions were repeated for every use"),
    "search only the given register when its label is falsy": ("C12", "find_qubit/find_bit ignored a falsy register label"),
    "do not silently export conditional operations as unconditional ones": ("C17", "conditional operations were exported unconditionally to OpenQASM and QIR"),
    "keep the indices of a circuit's qubits and bits when loading QIR into it": ("C20", "loading QIR into a circuit with registers put qubits at other indices"),
    "reset the variables of a parametric circuit also if calling it fails": ("C09", "a failed application of a parametric circuit left its variables set"),
    "recognize register items equal to complex numbers": ("C14", "complex items equal to a stored position were not found"),
    "do not skip relabelling of items comparing equal to their new label": ("C14", "relabelling 1 to True (or 1.0) was skipped"),
    "declare CRotation in OpenQASM gate definitions": ("C17", "CRotation was used without being declared, although gate definitions were requested"),
    "compare QIR instructions with constant parameters and with other objects": ("C25", "comparing QIR instructions with LLVM constants as parameters, or with anything else, raised AttributeError"),
    "check the number of qubits passed to controlled operations": ("C24", "CX(qubits=(q0,)) was accepted and applied unless CX.num_qubits had been read before"),
    "set the number of qubits when setting the qubits of an operation": ("C24", "a measurement or barrier made without qubits, or given another number of qubits through its qubits setter, kept its old number of qubits (None)"),
    "compare parametric operations with custom operations of the same name": ("C24", "comparing RX(0.3) with a custom operation named RX without parameters raised"),
}


def main():
    log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s", "--reverse"], text=True,
                         capture_output=True, check=True).stdout
    fixed, missing = [], []
    for line in log.splitlines():
        h, s = line.split(" ", 1)
        if not s.startswith("fix: "):
            continue
        if s[5:] not in WHAT:
            missing.append(s)
            continue
        p, w = WHAT[s[5:]]
        fixed.append(f"fixed: property={p} {h} {w}")
    path = V / "known_findings.json"
    data = json.loads(path.read_text())
    data["fixed"] = fixed
    path.write_text(json.dumps(data, indent=1) + "\n")
    print(len(fixed), "fixed; not described:", missing)


main()
