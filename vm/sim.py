"""Reference execution environment used by the oracles.

Circuits produced by the code under test are executed here exactly (numpy
state vectors / density matrices written for this purpose, gate matrices from
qiskit-terra), optionally under a prescribed noise, and the exact outcome
distribution is turned into the qiskit Result objects the fitters consume.
Nothing here uses qiskit-ignis.
"""
import itertools

import numpy as np
from qiskit import QuantumCircuit
from qiskit.result import Result
from qiskit.result.models import ExperimentResult, ExperimentResultData
from qiskit.qobj import QobjExperimentHeader
from qiskit.quantum_info import Operator


def bits(i, n):
    return format(i, '0%db' % n) if n else ''


def qindex(circ):
    return {q: i for i, q in enumerate(circ.qubits)}


def cindex(circ):
    return {c: i for i, c in enumerate(circ.clbits)}


_CACHE = {}


def gate_matrix(inst):
    try:
        key = (type(inst), inst.name, inst.num_qubits, tuple(float(p) for p in inst.params))
        standard = type(inst).__module__.startswith('qiskit.circuit.library.standard_gates')
        if not standard or getattr(inst, 'ctrl_state', None) not in (None, 1):
            key = None
    except (TypeError, ValueError):
        key = None
    if key is None:
        return Operator(inst).data
    if key not in _CACHE:
        if len(_CACHE) > 20000:
            _CACHE.clear()
        _CACHE[key] = Operator(inst).data
    return _CACHE[key]


def apply_1(state, mat, qubits, n):
    """Apply mat to a tensor whose first n axes are qubits n-1..0."""
    k = len(qubits)
    axes = [n - 1 - q for q in reversed(qubits)]
    mat = np.asarray(mat).reshape([2] * (2 * k))
    state = np.tensordot(mat, state, axes=(list(range(k, 2 * k)), axes))
    return np.moveaxis(state, list(range(k)), axes)


IGNORED = ('barrier', 'snapshot', 'save_state')


def split(circ):
    """Unitary operations and terminal measurements [(qubit, clbit)]."""
    qi, ci = qindex(circ), cindex(circ)
    ops, meas = [], []
    measured = set()
    for inst, qs, cs in circ.data:
        if inst.name in IGNORED:
            continue
        idx = [qi[q] for q in qs]
        if inst.name == 'measure':
            meas.append((idx[0], ci[cs[0]]))
            measured.add(idx[0])
            continue
        if measured & set(idx):
            raise AssertionError('operation %s after measurement' % inst.name)
        ops.append((inst, idx))
    return ops, meas


def statevector(circ, init=None):
    """Exact final state (flat, little endian) ignoring measurements."""
    n = circ.num_qubits
    ops, _ = split(circ)
    if init is None:
        psi = np.zeros(2 ** n, dtype=complex)
        psi[0] = 1
    else:
        psi = np.array(init, dtype=complex)
    psi = psi.reshape([2] * n)
    for inst, idx in ops:
        if inst.name == 'reset':
            raise AssertionError('reset')
        psi = apply_1(psi, gate_matrix(inst), idx, n)
    return psi.reshape(-1)


def unitary(circ):
    n = circ.num_qubits
    ops, _ = split(circ)
    mat = np.eye(2 ** n, dtype=complex).reshape([2] * n + [2 ** n])
    for inst, idx in ops:
        mat = apply_1(mat, gate_matrix(inst), idx, n)
    return mat.reshape(2 ** n, 2 ** n)


def density(circ, noise=None, init=None):
    """Exact final density matrix; noise(inst_name, idx, inst) -> list of
    (kraus_list, qubits) applied after that gate."""
    n = circ.num_qubits
    ops, _ = split(circ)
    rho = np.zeros((2 ** n, 2 ** n), dtype=complex)
    rho[0, 0] = 1
    if init is not None:
        rho = np.array(init, dtype=complex)

    def conj_by(rho, mat, idx):
        rho = apply_1(rho.reshape([2] * n + [2 ** n]), mat, idx, n).reshape(2 ** n, 2 ** n)
        rho = rho.conj().T
        rho = apply_1(rho.reshape([2] * n + [2 ** n]), mat, idx, n).reshape(2 ** n, 2 ** n)
        return rho.conj().T
    for inst, idx in ops:
        rho = conj_by(rho, gate_matrix(inst), idx)
        if noise is not None:
            for kraus, qs in (noise(inst.name, idx, inst) or ()):
                rho = sum(conj_by(rho, k, qs) for k in kraus)
    return rho


def compact(circ, noise=None):
    """The circuit without its unused qubits, and the noise model on the new numbers."""
    qi, ci = qindex(circ), cindex(circ)
    used = sorted({qi[q] for inst, qs, _ in circ.data if inst.name != 'barrier' for q in qs})
    if len(used) == circ.num_qubits or not used:
        return circ, noise
    new = {q: k for k, q in enumerate(used)}
    out = QuantumCircuit(len(used), len(circ.clbits), name=circ.name)
    for inst, qs, cs in circ.data:
        if inst.name != 'barrier':
            out.append(inst, [new[qi[q]] for q in qs], [ci[c] for c in cs])
    if noise is None:
        return out, None

    def moved(name, idx, inst):
        got = noise(name, [used[i] for i in idx], inst)
        # an idle qubit is still |0>: it can only be left alone
        return got and [(ks, [new[q] for q in qs]) for ks, qs in got if all(q in new for q in qs)]
    return out, moved


def outcome_probs(circ, noise=None, readout=None):
    """dict clbit-string (no spaces, clbit 0 rightmost) -> probability.

    readout: dict qubit -> 2x2 matrix A[measured, actual].
    """
    n = circ.num_qubits
    _, meas = split(circ)
    if noise is None:
        psi = statevector(circ)
        p_q = np.abs(psi) ** 2
    else:
        p_q = np.real(np.diag(density(circ, noise)))
    p_q = p_q.reshape([2] * n)
    if readout:
        for q, _ in meas:
            if q in readout:
                p_q = apply_1(p_q, readout[q], [q], n)
    ncl = len(circ.clbits)
    qs = [q for q, _ in meas]
    # marginal over measured qubits
    keep = sorted(set(qs))
    drop = tuple(n - 1 - q for q in range(n) if q not in keep)
    marg = p_q.sum(axis=drop) if drop else p_q
    out = {}
    for vals in itertools.product([0, 1], repeat=len(keep)):
        p = float(marg[tuple(reversed(vals))]) if keep else float(marg)
        val = dict(zip(keep, vals))
        key = ['0'] * ncl
        for q, c in meas:
            key[ncl - 1 - c] = str(val[q])
        key = ''.join(key)
        if p > 1e-14:
            out[key] = out.get(key, 0.0) + p
    return out


def creg_sizes(circ):
    return [[r.name, r.size] for r in circ.cregs]


def exp_result(name, counts, sizes, shots=None, **extra):
    """sizes: list of [regname, size] (first register is rightmost in keys)."""
    slots = sum(s for _, s in sizes)
    hexc = {}
    for k, v in counts.items():
        h = hex(int(k.replace(' ', '') or '0', 2))
        hexc[h] = hexc.get(h, 0) + v
    if shots is None:
        shots = sum(counts.values())
    clabels = [[r, i] for r, s in sizes for i in range(s)]
    header = QobjExperimentHeader(name=name, creg_sizes=sizes, memory_slots=slots,
                                  clbit_labels=clabels, **extra)
    return ExperimentResult(shots=shots, success=True, meas_level=2,
                            data=ExperimentResultData(counts=hexc), header=header)


def result(exps, **kw):
    return Result(backend_name='ref', backend_version='0', qobj_id='q', job_id='j',
                  success=True, results=list(exps), **kw)


def split_counts(probs, shots, rng=None):
    """Counts for exact probabilities: integer rounding (largest remainder) or
    multinomial sampling when rng is given."""
    keys = sorted(probs)
    p = np.array([probs[k] for k in keys], dtype=float)
    p = np.clip(p, 0, None)
    p = p / p.sum()
    if rng is not None:
        c = rng.multinomial(shots, p)
    else:
        raw = p * shots
        c = np.floor(raw).astype(int)
        rest = shots - c.sum()
        for i in np.argsort(-(raw - c), kind='stable')[:rest]:
            c[i] += 1
    return {k: int(v) for k, v in zip(keys, c) if v}


def run(circs, shots=None, noise=None, readout=None, rng=None, exact=False):
    """Execute circuits; exact=True keeps real-valued 'counts' (prob * shots)."""
    shots = shots or 2 ** 20
    exps = []
    for c in circs:
        p = outcome_probs(c, noise, readout)
        if exact:
            counts = {k: v * shots for k, v in p.items()}
        else:
            counts = split_counts(p, shots, rng)
        exps.append(exp_result(c.name, counts, creg_sizes(c), shots=shots))
    return result(exps)


def kron_readout(mats):
    """Assignment matrix of several bits, mats[i] is bit i (bit 0 least significant)."""
    out = np.eye(1)
    for m in mats:
        out = np.kron(m, out)
    return out


def random_readout(rng, lo=0.0, hi=0.25):
    e0, e1 = rng.uniform(lo, hi, 2)
    return np.array([[1 - e0, e1], [e0, 1 - e1]])


def random_stochastic(rng, dim, strength=0.3):
    a = (1 - strength) * np.eye(dim) + strength * rng.dirichlet(np.ones(dim), dim).T
    return a


def depol_kraus(p, k):
    """Depolarising channel rho -> (1-p) rho + p I/2^k as Kraus operators."""
    paulis = [np.eye(2), np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]),
              np.diag([1, -1])]
    ops = []
    for combo in itertools.product(range(4), repeat=k):
        m = np.eye(1)
        for c in combo:
            m = np.kron(m, paulis[c])
        w = p / 4 ** k + (1 - p if not any(combo) else 0)
        ops.append(np.sqrt(w) * m)
    return ops
