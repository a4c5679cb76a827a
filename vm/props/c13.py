"""C13: gate set tomography predicts every gate sequence of the measured gate set."""
from ast import literal_eval

import numpy as np
from qiskit import QuantumCircuit, QiskitError
from qiskit.circuit.library import HGate, SGate, RXGate, RYGate, U3Gate, TGate
from qiskit.quantum_info import Choi, PTM, Operator
from qiskit.ignis.verification.tomography import (gateset_tomography_circuits,
                                                  GatesetTomographyFitter)
from qiskit.ignis.verification.tomography.basis import default_gateset_basis, GateSetBasis
from vm import sim

PROP = 'C13'
LEVEL = 'exploration'
RULE = ('random gate sets, SPAM sets, CPTP gate noise, initial states and readout errors; '
        'predictions for random long gate sequences are compared with exact simulation; a state '
        'is one distinct prediction')
ASSUMPTIONS = ['the optimisation based fit() is judged for noise up to 0.15 and at least 300 shots, '
               'with the accuracy the SLSQP optimiser reaches (1e-2 for predictions, 5e-3 for '
               'trace preservation)',
               'fit() is judged for well conditioned SPAM sets (condition number up to 15; the '
               'default set has 8), sampled data for the default SPAM set only: otherwise the '
               'linear inversion the optimiser starts from is arbitrarily far from the optimum',
               'E <= 1 is not among the constraints of the fit and is not judged']


def cases(rng, tier):
    n = 60 if tier == 'quick' else 600
    for i in range(n):
        yield 'inversion', {'extra': rng.choice([0, 1, 2, 2, 4, 9]), 'custom': rng.random() < .35,
                            'qubit': rng.choice([0, 0, 1, 2, 6]), 'noise': rng.choice([0, .05, .2])}
    for i in range(n // 4):
        yield 'matrices', {}
    for i in range(8 if tier == 'quick' else 60):
        shots = [0, 0, 300, 2000][i // 2 % 4]
        yield 'fit', {'extra': i % 2, 'noise': rng.choice([0, .02, .05, .1, .15]),
                      'shots': shots, 'depol': rng.random() < .5,
                      'custom': i % 4 == 1 and not shots}
    yield 'errors', {}


def required_events(tier):
    return ['circuit-sequence', 'names-complete', 'prediction', 'spam-matrix', 'fit-prediction',
            'fit-physical', 'fit-optimal']


POOL = {'h': HGate(), 's': SGate(), 't': TGate()}


def make_basis(rng, case):
    if case.get('custom'):
        ang = float(rng.uniform(1.2, 1.9))
        gates = {'Id': lambda circ, qubit: None, 'GX': RXGate(ang),
                 'GY': RYGate(float(rng.uniform(1.2, 1.9)))}
        spam = {'F0': ('Id',), 'F1': ('GX',), 'F2': ('GY',), 'F3': ('GX', 'GX')}
        if rng.random() < .5:
            gates = {k: gates[k] for k in rng.permutation(list(gates))}
        if rng.random() < .5:
            spam['F3'] = ('GY', 'GX', 'GX')
        basis = GateSetBasis('custom', gates, spam)
    else:
        basis = default_gateset_basis()
    for _ in range(case['extra']):
        kind = rng.choice(['h', 's', 't', 'u3', 'fn'])
        if kind == 'u3':
            basis.add_gate(U3Gate(*map(float, rng.uniform(-3, 3, 3))), 'u%d' % len(basis.gates))
        elif kind == 'fn':
            t = float(rng.uniform(-3, 3))

            def fun(circ, qubit, t=t):
                circ.h(qubit)
                circ.rz(t, qubit)
            basis.add_gate(fun, 'fn%d' % len(basis.gates))
        elif kind not in basis.gates:
            basis.add_gate(POOL[kind])
    return basis


def label_channel(basis, label):
    circ = QuantumCircuit(1)
    gate = basis.gates[label]
    if callable(gate):
        gate(circ, circ.qubits[0])
    else:
        circ.append(gate, [0])
    return circ


def random_noise(rng, strength):
    """Kraus operators close to the identity channel."""
    if strength == 0:
        return [np.eye(2)]
    k = [np.eye(2)] + [strength * (rng.normal(size=(2, 2)) + 1j * rng.normal(size=(2, 2)))
                       for _ in range(2)]
    s = sum(x.conj().T @ x for x in k)
    v, w = np.linalg.eigh(s)
    inv = (w / np.sqrt(v)) @ w.conj().T
    return [x @ inv for x in k]


class World:
    """Exact noisy device: noise attached to each primitive gate."""

    def __init__(self, rng, strength, depol=False):
        self.rng, self.strength, self.depol = rng, strength, depol
        self.kraus = {}
        p = strength * rng.uniform(0, .5)
        self.rho0 = np.diag([1 - p, p]).astype(complex)
        if not depol and strength:
            v = rng.normal(size=2) + 1j * rng.normal(size=2)
            self.rho0 = .9 * self.rho0 + .1 * np.outer(v, v.conj()) / np.vdot(v, v)
        e0, e1 = strength * rng.uniform(0, .5, 2)
        self.povm0 = np.diag([1 - e0, e1])

    def noise_of(self, inst):
        key = (inst.name, tuple(round(float(p), 9) for p in inst.params))
        if key not in self.kraus:
            if self.depol:
                self.kraus[key] = sim.depol_kraus(self.strength, 1)
            else:
                self.kraus[key] = random_noise(self.rng, self.strength)
        return self.kraus[key]

    def evolve(self, rho, circ):
        for inst, _, _ in circ.data:
            if inst.name in ('barrier', 'measure'):
                continue
            u = Operator(inst).data
            rho = u @ rho @ u.conj().T
            rho = sum(k @ rho @ k.conj().T for k in self.noise_of(inst))
        return rho

    def prob0(self, basis, labels):
        rho = self.rho0
        for lab in labels:
            rho = self.evolve(rho, label_channel(basis, lab))
        return float(np.trace(self.povm0 @ rho).real)

    def run(self, circs, shots=1000.0):
        exps = []
        for c in circs:
            p = float(np.trace(self.povm0 @ self.evolve(self.rho0, c)).real)
            cts = {k: v * shots for k, v in (('0', p), ('1', 1 - p)) if v > 1e-13}
            exps.append(sim.exp_result(c.name, cts, sim.creg_sizes(c)))
        return sim.result(exps)


def expand(basis, name):
    seq = []
    for lab in literal_eval(name):
        seq += list(basis.spam_spec[lab]) if lab in basis.spam_spec else [lab]
    return seq


def spam_condition(world, basis):
    specs = [list(basis.spam_spec[a]) for a in basis.spam_labels]
    return np.linalg.cond([[world.prob0(basis, a + b) for a in specs] for b in specs])


def case_inversion(mon, case):
    rng = np.random.default_rng(case['seed'])
    basis = make_basis(rng, case)
    q = case['qubit']
    default = not case['custom'] and case['extra'] == 0
    if default and q == 0:
        circs = gateset_tomography_circuits()
    elif default:
        circs = gateset_tomography_circuits(measured_qubits=[q])
    else:
        circs = gateset_tomography_circuits(measured_qubits=[q], gateset_basis=basis)
    spam, gates = basis.spam_labels, basis.gate_labels
    want = ({(a, g, b) for a in spam for g in gates for b in spam} |
            {(a, b) for a in spam for b in spam} | {(a,) for a in spam})
    names = [literal_eval(c.name) for c in circs]
    mon.check(len(names) == len(want) and set(names) == want, 'names-complete',
              'experiments missing or repeated', state=(len(spam), len(gates)))
    for c in circs:
        # the circuit applies exactly the gates its name lists, in that order, on qubit q
        ref = np.eye(2)
        for lab in expand(basis, c.name):
            ref = sim.unitary(label_channel(basis, lab)) @ ref
        got = np.eye(2)
        ok = True
        for inst, qs, _ in c.data:
            if inst.name == 'barrier':
                continue
            ok = ok and c.qubits.index(qs[0]) == q and len(qs) == 1
            if inst.name != 'measure':
                got = Operator(inst).data @ got
        phase = np.vdot(ref, got) / 2
        ok = ok and np.allclose(got, phase * ref, atol=1e-9) and abs(abs(phase) - 1) < 1e-9
        mon.check(ok, 'circuit-sequence', 'circuit %s is not the sequence it names' % c.name,
                  state=got)
    world = World(rng, case['noise'])
    fit = GatesetTomographyFitter(world.run(circs, float(rng.choice([1, 1000]))), circs,
                                  'default' if default else basis)
    lin = fit.linear_inversion()
    cond = spam_condition(world, basis)
    if cond > 1e5:
        mon.saw('skip-ill-conditioned')
        return
    for _ in range(12):
        seq = [gates[i] for i in rng.integers(0, len(gates), int(rng.integers(0, 8)))]
        vec = lin['rho']
        for g in seq:
            vec = np.asarray(lin[g].data) @ vec
        mon.close((lin['E'] @ vec).ravel()[0], world.prob0(basis, seq), 'prediction',
                  'linear inversion mispredicts %s' % seq, atol=1e-8 * cond, rtol=0)


def case_matrices(mon, case):
    rng = np.random.default_rng(case['seed'])
    basis = make_basis(rng, {'custom': True, 'extra': 1})
    for lab in basis.gate_labels:
        mon.close(basis.gate_matrices[lab], PTM(label_channel(basis, lab)).data, 'spam-matrix',
                  'gate matrix of ' + lab)
    for lab, spec in basis.spam_spec.items():
        circ = QuantumCircuit(1)
        for g in spec:
            circ = circ.compose(label_channel(basis, g))
        mon.close(basis.spam_matrix(lab), PTM(circ).data, 'spam-matrix', 'spam matrix of ' + lab)
    mon.equal(tuple(basis.spam_labels), tuple(sorted(basis.spam_spec)), 'spam-matrix')


def case_fit(mon, case):
    """The optimised gate set is physical and explains the data at least as well as the truth."""
    rng = np.random.default_rng(case['seed'])
    basis = make_basis(rng, case)
    world = World(rng, case['noise'], depol=case['depol'])
    if spam_condition(world, basis) > 15:
        mon.saw('skip-ill-conditioned')
        return
    circs = gateset_tomography_circuits(gateset_basis=basis)
    shots = case['shots']
    exps, seen, truth = [], {}, {}
    for c in circs:
        p = float(np.trace(world.povm0 @ world.evolve(world.rho0, c)).real)
        p = min(1., max(0., p))
        ones = int(rng.binomial(shots, p)) if shots else 1000. * p
        total = shots or 1000.
        truth[c.name], seen[c.name] = p, ones / total
        exps.append(sim.exp_result(c.name, {'0': ones, '1': total - ones}, sim.creg_sizes(c)))
    out = GatesetTomographyFitter(sim.result(exps), circs, basis).fit()
    rho, e_op = np.asarray(out['rho'].data), np.asarray(out['E'].data)
    tol = 5e-3 if shots else 1e-3
    mon.close(np.trace(rho), 1, 'fit-physical', 'state trace', atol=tol)
    for name, op in (('state', rho), ('measurement operator', e_op)):
        mon.close(op, op.conj().T, 'fit-physical', name + ' not Hermitian', atol=1e-6)
        mon.check(np.linalg.eigvalsh(op).min() > -1e-5, 'fit-physical',
                  '%s not positive: %s' % (name, np.linalg.eigvalsh(op)))
    for g in basis.gate_labels:
        ptm = np.asarray(out[g].data)
        mon.close(ptm[0], [1, 0, 0, 0], 'fit-physical', 'gate %s not trace preserving' % g,
                  atol=tol)
        low = np.linalg.eigvalsh(Choi(PTM(ptm)).data).min()
        mon.check(low > -1e-5, 'fit-physical', 'gate %s not completely positive: %s' % (g, low))
    paulis = [np.eye(2), np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]),
              np.diag([1, -1])]
    r0 = np.array([np.trace(p @ rho) for p in paulis]) / np.sqrt(2)
    e0 = np.array([np.trace(p @ e_op) for p in paulis]) / np.sqrt(2)

    def predict(seq):
        vec = r0
        for g in seq:
            vec = np.asarray(out[g].data) @ vec
        return (e0 @ vec).real

    terms = [c.name for c in circs if len(literal_eval(c.name)) == 3]
    misfit = sum((predict(expand(basis, t)) - seen[t]) ** 2 for t in terms)
    best = sum((truth[t] - seen[t]) ** 2 for t in terms)
    # the true gate set is physical, so the optimum is at most its distance to the data
    mon.check(misfit <= 1.02 * best + 2e-4, 'fit-optimal',
              'the fit is farther from the data (%.5f) than the true gate set (%.5f)'
              % (misfit, best))
    if not shots:
        for _ in range(10):
            seq = [basis.gate_labels[i]
                   for i in rng.integers(0, len(basis.gate_labels), int(rng.integers(0, 5)))]
            mon.close(predict(seq), world.prob0(basis, seq), 'fit-prediction',
                      'fit mispredicts %s' % seq, atol=1e-2, rtol=0)


def case_errors(mon, case):
    mon.raises(QiskitError, lambda: gateset_tomography_circuits([0, 1]), 'rejected')
    basis = default_gateset_basis()
    mon.raises(RuntimeError, lambda: basis.add_gate(lambda c, q: None), 'rejected')
    circ = QuantumCircuit(1)
    mon.raises(RuntimeError, lambda: basis.add_gate_to_circuit(circ, circ.qubits[0], 'zz'),
               'rejected')
    mon.raises(RuntimeError, lambda: basis.add_spam_to_circuit(circ, circ.qubits[0], 'zz'),
               'rejected')
