"""Workload generators shared by the property modules (no qiskit-ignis here)."""
import numpy as np
from qiskit import QuantumCircuit, QuantumRegister, ClassicalRegister

ONE = ['h', 'x', 'y', 'z', 's', 'sdg', 't', 'tdg', 'rx', 'ry', 'rz']
TWO = ['cx', 'cz', 'swap']


def registers(rng, n, prefix='q', split=None):
    """n qubits distributed over one, two or three registers."""
    if n >= 2 and (rng.random() < .4 if split is None else split):
        k = int(rng.integers(1, n))
        if n - k >= 2 and rng.random() < .3:
            j = int(rng.integers(1, n - k))
            return [QuantumRegister(k, prefix + 'a'), QuantumRegister(j, prefix + 'b'),
                    QuantumRegister(n - k - j, prefix + 'c')]
        return [QuantumRegister(k, prefix + 'a'), QuantumRegister(n - k, prefix + 'b')]
    return [QuantumRegister(n, prefix)]


def random_gates(rng, circ, qubits, depth):
    for _ in range(depth):
        if len(qubits) > 1 and rng.random() < .4:
            a, b = rng.choice(len(qubits), 2, replace=False)
            getattr(circ, TWO[int(rng.integers(len(TWO)))])(qubits[int(a)], qubits[int(b)])
        else:
            g = ONE[int(rng.integers(len(ONE)))]
            q = qubits[int(rng.integers(len(qubits)))]
            if g.startswith('r'):
                getattr(circ, g)(float(rng.uniform(-np.pi, np.pi)), q)
            else:
                getattr(circ, g)(q)
    return circ


def random_circuit(rng, n, depth=None, split=None, own_cregs=0):
    regs = registers(rng, n, split=split)
    cregs = [ClassicalRegister(int(rng.integers(1, 3)), 'own%d' % i) for i in range(own_cregs)]
    circ = QuantumCircuit(*regs, *cregs)
    depth = int(rng.integers(2 * n, 5 * n + 2)) if depth is None else depth
    return random_gates(rng, circ, circ.qubits, depth)


def fingerprint(circ):
    """Structural identity of a circuit (for 'input not modified' monitors)."""
    qi = {q: i for i, q in enumerate(circ.qubits)}
    ci = {c: i for i, c in enumerate(circ.clbits)}
    return (circ.name, [(r.name, r.size) for r in circ.qregs],
            [(r.name, r.size) for r in circ.cregs],
            [(i.name, tuple(float(p) if not hasattr(p, 'shape') else repr(p) for p in i.params),
              tuple(qi[q] for q in qs), tuple(ci[c] for c in cs)) for i, qs, cs in circ.data])


def partial_trace(rho, keep, n):
    """Reduced density matrix on keep (keep[0] least significant)."""
    rho = rho.reshape([2] * (2 * n))
    drop = [q for q in range(n) if q not in keep]
    row = [n - 1 - q for q in reversed(keep)]
    out = rho
    perm = row + [n - 1 - q for q in drop]
    out = out.transpose(perm + [n + p for p in perm])
    k = len(keep)
    out = out.reshape(2 ** k, 2 ** len(drop), 2 ** k, 2 ** len(drop))
    return np.einsum('ajbj->ab', out)


def split_state(psi, keep, n):
    """Matrix of a pure state: rows the kept qubits (keep[0] least significant), columns the rest."""
    drop = [q for q in range(n) if q not in keep]
    psi = psi.reshape([2] * n).transpose([n - 1 - q for q in reversed(keep)]
                                         + [n - 1 - q for q in drop])
    return psi.reshape(2 ** len(keep), -1)


def reduced(circ, keep):
    """Reduced state of the kept qubits after the circuit."""
    from vm import sim
    mat = split_state(sim.statevector(circ), keep, circ.num_qubits)
    return mat @ mat.conj().T
