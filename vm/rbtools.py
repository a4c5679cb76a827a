"""Oracle helpers for randomized benchmarking (no qiskit-ignis algorithms used)."""
import itertools

import numpy as np
from qiskit import QuantumCircuit
from qiskit.circuit.library import (XGate, YGate, ZGate, HGate, SGate, IGate, CXGate, CZGate,
                                    SwapGate, U1Gate)
from qiskit.quantum_info import Clifford
from vm import sim


def same_up_to_phase(a, b, atol=1e-6):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    ov = np.vdot(a, b)
    norm = np.linalg.norm(a) * np.linalg.norm(b)
    return bool(abs(abs(ov) - norm) < atol * max(1, norm)
                and abs(np.linalg.norm(a) - np.linalg.norm(b)) < atol)


def poly_at(poly, x):
    """Phase polynomial value at the bit vector x from its terms."""
    n = len(x)
    on = [i for i in range(n) if x[i]]
    total = 0
    for r in range(0, 4):
        for t in itertools.combinations(on, r):
            total += int(poly.get_term(list(t)))
    return total % 8


def element_matrix(elem):
    """|x> -> omega^p(x) |f(x)> , the documented meaning of an element."""
    n = elem.num_qubits
    lin = np.array(elem.linear, dtype=int)
    shift = np.array(elem.shift, dtype=int)
    mat = np.zeros((2 ** n, 2 ** n), dtype=complex)
    for v in range(2 ** n):
        x = np.array([(v >> i) & 1 for i in range(n)])
        y = (lin @ x + shift) % 2
        mat[int(sum(int(b) << i for i, b in enumerate(y))), v] = \
            np.exp(1j * np.pi / 4 * poly_at(elem.poly, x))
    return mat


def embed(mat, qubits, n):
    """mat on qubits (qubits[0] least significant) as an operator on n qubits."""
    out = np.eye(2 ** n, dtype=complex).reshape([2] * n + [2 ** n])
    return sim.apply_1(out, mat, list(qubits), n).reshape(2 ** n, 2 ** n)


PAULI = {'X': np.array([[0, 1], [1, 0]], dtype=complex), 'Z': np.diag([1, -1]).astype(complex)}


def is_clifford_matrix(mat):
    """Conjugates every X_i, Z_i to a Pauli up to sign."""
    dim = mat.shape[0]
    n = int(np.log2(dim))
    for q in range(n):
        for p in 'XZ':
            img = mat @ embed(PAULI[p], [q], n) @ mat.conj().T
            # a Pauli has exactly one nonzero coefficient
            nz = np.abs(img) > 1e-7
            if not (nz.sum(0) == 1).all() or not (nz.sum(1) == 1).all():
                return False
            cols = np.argmax(np.abs(img), axis=1)
            mask = cols[0]
            if any(cols[r] != (r ^ mask) for r in range(dim)):
                return False
            vals = img[np.arange(dim), cols]
            ratio = vals / vals[0]
            if np.max(np.abs(ratio.imag)) > 1e-6 or np.max(np.abs(np.abs(ratio) - 1)) > 1e-6:
                return False
            sign = np.round(ratio.real).astype(int)
            for r in range(dim):
                want = 1
                for i in range(n):
                    if (r >> i) & 1:
                        want *= sign[1 << i]
                if sign[r] != want:
                    return False
    return True


def is_dihedral_matrix(mat):
    """Affine permutation with phases that are multiples of pi/4 (mod global phase), where the
    phase polynomial has the CNOT-dihedral form (degree <= 3, weights 1, 2, 4)."""
    dim = mat.shape[0]
    n = int(np.log2(dim))
    nz = np.abs(mat) > 1e-6
    if not (nz.sum(0) == 1).all() or not (nz.sum(1) == 1).all():
        return False
    rows = np.argmax(np.abs(mat), axis=0)
    for v in range(dim):
        want = rows[0]
        for i in range(n):
            if (v >> i) & 1:
                want ^= rows[1 << i] ^ rows[0]
        if rows[v] != want:
            return False
    ph = np.angle(mat[rows, np.arange(dim)] / mat[rows[0], 0]) * 4 / np.pi
    if np.max(np.abs(ph - np.round(ph))) > 1e-5:
        return False
    ph = np.round(ph).astype(int) % 8
    # Moebius transform over the integers mod 8
    coef = ph.copy()
    for i in range(n):
        for v in range(dim):
            if (v >> i) & 1:
                coef[v] = (coef[v] - coef[v ^ (1 << i)]) % 8
    for v in range(1, dim):
        w = bin(v).count('1')
        if (w == 2 and coef[v] % 2) or (w == 3 and coef[v] % 4) or (w > 3 and coef[v]):
            return False
    return True


def random_pattern(rng, max_qubits=5, sizes=(1, 2, 3), max_groups=3, equal=None, gaps=True,
                   span=None):
    """Random rb_pattern: disjoint ordered groups, possibly with unused qubits."""
    groups = []
    total = 0
    size = equal
    for _ in range(int(rng.integers(1, max_groups + 1))):
        k = size or int(rng.choice(sizes))
        if total + k > max_qubits:
            break
        groups.append(k)
        total += k
    if not groups:
        groups = [size or 1]
        total = groups[0]
    top = total + (int(rng.integers(0, max_qubits - total + 1)) if gaps else 0)
    top = span or top
    qubits = [int(q) for q in rng.permutation(max(top, total))[:total]]
    pat = []
    for k in groups:
        pat.append(qubits[:k])
        qubits = qubits[k:]
    return pat


def random_clifford_circuit(rng, n, depth=None):
    circ = QuantumCircuit(n)
    for _ in range(depth or int(rng.integers(1, 4 * n + 1))):
        if n > 1 and rng.random() < .4:
            a, b = [int(i) for i in rng.choice(n, 2, replace=False)]
            getattr(circ, ['cx', 'cz', 'swap'][int(rng.integers(3))])(a, b)
        else:
            getattr(circ, ['h', 's', 'sdg', 'x', 'y', 'z'][int(rng.integers(6))])(
                int(rng.integers(n)))
    return circ


def random_dihedral_circuit(rng, n, depth=None):
    circ = QuantumCircuit(n)
    for _ in range(depth or int(rng.integers(1, 5 * n + 1))):
        if n > 1 and rng.random() < .45:
            a, b = [int(i) for i in rng.choice(n, 2, replace=False)]
            getattr(circ, ['cx', 'cx', 'cz'][int(rng.integers(3))])(a, b)
        else:
            q = int(rng.integers(n))
            kind = int(rng.integers(6))
            if kind < 3:
                circ.append(U1Gate(int(rng.integers(-9, 10)) * np.pi / 4), [q])
            else:
                getattr(circ, ['x', 'y', 'z'][kind - 3])(q)
    return circ


def interleaved_choice(rng, n, dihedral, make_dihedral=None):
    """(element in one of the accepted forms, its unitary)."""
    form = int(rng.integers(3))
    if dihedral:
        circ = random_dihedral_circuit(rng, n)
        mat = sim.unitary(circ)
        if form == 0:
            return circ, mat, 'circuit'
        if form == 1:
            g = {1: [XGate(), YGate(), ZGate(), IGate(),
                     U1Gate(int(rng.integers(8)) * np.pi / 4)], 2: [CXGate(), CZGate()]}.get(n)
            if g:
                g = g[int(rng.integers(len(g)))]
                return g, sim.gate_matrix(g), 'gate'
            return circ.to_gate(), mat, 'gate'
        return make_dihedral(circ), mat, 'element'
    circ = random_clifford_circuit(rng, n)
    mat = sim.unitary(circ)
    if form == 0:
        return circ, mat, 'circuit'
    if form == 1:
        g = {1: [XGate(), HGate(), SGate(), IGate(), YGate()],
             2: [CXGate(), CZGate(), SwapGate()]}.get(n)
        if g:
            g = g[int(rng.integers(len(g)))]
            return g, sim.gate_matrix(g), 'gate'
        return circ.to_gate(), mat, 'gate'
    return Clifford(circ), mat, 'element'
