"""Target circuits for the one-time pad and accreditation monitors."""
import numpy as np
from qiskit import QuantumCircuit, QuantumRegister, ClassicalRegister
from vm import gen


def target(rng, n, depth, measure, names=('q', 'c')):
    """A circuit on one register with terminal measurements of the given kind."""
    ncl = n
    if measure == 'wide':
        ncl = n + int(rng.integers(1, 3))
    if measure == 'partial':
        ncl = int(rng.integers(1, n + 1))
    q, c = QuantumRegister(n, names[0]), ClassicalRegister(ncl, names[1])
    circ = QuantumCircuit(q, c)
    gen.random_gates(rng, circ, list(q), depth // 2)
    if rng.random() < .3:
        circ.barrier()
    gen.random_gates(rng, circ, list(q), depth - depth // 2)
    if measure == 'plain':
        circ.measure(q, c)
    else:
        qs = [int(i) for i in rng.permutation(n)][:min(n, ncl)]
        cs = [int(i) for i in rng.permutation(ncl)][:len(qs)]
        for a, b in zip(qs, cs):
            circ.measure(q[a], c[b])
    return circ


def coupling(rng, n, kind):
    if kind == 'none':
        return None
    if kind == 'line':
        edges = [[i, i + 1] for i in range(n - 1)]
    elif kind == 'ring':
        edges = [[i, (i + 1) % n] for i in range(n)]
    else:   # star
        edges = [[0, i] for i in range(1, n)]
    perm = [int(i) for i in rng.permutation(n)]
    edges = [[perm[a], perm[b]] for a, b in edges]
    return edges + [[b, a] for a, b in edges]


def two_qubit(circ):
    qi = {q: i for i, q in enumerate(circ.qubits)}
    return [(i.name, tuple(qi[q] for q in qs)) for i, qs, _ in circ.data
            if i.name != 'barrier' and len(qs) == 2]


def spread(two):
    """Order-insensitive within commuting neighbours: gates per qubit, in order."""
    out = {}
    for name, qs in two:
        for q in qs:
            out.setdefault(q, []).append((name, qs))
    return out
