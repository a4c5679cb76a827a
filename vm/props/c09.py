"""C09: tomography circuits realise exactly the operators their labels stand for."""
import itertools
from ast import literal_eval

import numpy as np
from qiskit import QuantumCircuit, QuantumRegister, ClassicalRegister, QiskitError
from qiskit.ignis.verification.tomography import (state_tomography_circuits,
                                                  process_tomography_circuits)
from qiskit.ignis.verification.tomography.basis import (PauliBasis, SICBasis, TomographyBasis,
                                                        default_basis)
from qiskit.ignis.verification.tomography.basis.circuits import tomography_circuit_tuples
from vm import sim, gen

PROP = 'C09'
LEVEL = 'exploration'
RULE = ('random circuits, registers, ordered qubit subsets, label sets and bases; every generated '
        'tomography circuit is simulated and compared with the Born rule for its label; a state '
        'is one distinct outcome distribution or basis operator')

S = 1 / np.sqrt(2)
KET = {'Zp': [1, 0], 'Zm': [0, 1], 'Xp': [S, S], 'Xm': [S, -S], 'Yp': [S, 1j * S],
       'Ym': [S, -1j * S]}
for _k, _ph in zip('123', (0, -2 * np.pi / 3, 2 * np.pi / 3)):
    KET['S' + _k] = [1 / np.sqrt(3), np.sqrt(2 / 3) * np.exp(1j * _ph)]
KET['S0'] = [1, 0]
PROJ = {k: np.outer(v, np.conj(v)) for k, v in KET.items()}


def meas_op(label, bit):
    return PROJ[label + 'pm'[int(bit)]]


def meas_ops(labels, outcome):
    """Operator of a multi-qubit outcome string (qubit 0 rightmost)."""
    op = np.eye(1)
    for i, lab in enumerate(labels):
        op = np.kron(meas_op(lab, outcome[len(labels) - 1 - i]), op)
    return op


def prep_op(labels):
    op = np.eye(1)
    for lab in labels:
        op = np.kron(PROJ[lab], op)
    return op


def cases(rng, tier):
    yield 'basis', {}
    yield 'errors', {}
    n = 120 if tier == 'quick' else 1500
    for i in range(n):
        m = rng.randint(1, 2 if rng.random() < .7 else 3)
        yield 'state', {'n': rng.randint(m, 4 if rng.random() < .7 else 12), 'm': m, 'own': rng.choice([0, 0, 1, 2]),
                        'form': rng.choice(['int', 'qubit', 'regs', 'mixed']),
                        'labels': rng.choice(['Pauli', 'Pauli', 'tuple', 'list'])}
    for i in range(n // 4):
        yield 'custom', {'n': rng.randint(2, 5)}
    for i in range(n // 8):
        # many measured qubits, a few of the settings
        m = rng.randint(4, 8)
        yield 'state', {'n': rng.randint(m, 12), 'm': m, 'own': rng.choice([0, 1, 3]),
                        'form': rng.choice(['int', 'qubit']), 'labels': 'few'}
        yield 'state', {'n': rng.randint(5, 6), 'm': 2, 'own': rng.choice([0, 2]), 'form': 'regs',
                        'labels': 'few', 'cap': 6}
        m = rng.randint(2, 6)
        yield 'process', {'n': rng.randint(m, 8), 'm': m, 'prep': rng.choice(['Pauli', 'SIC']),
                          'other': rng.random() < .6, 'own': rng.choice([0, 1]),
                          'full': False, 'few': True}
    for i in range(n):
        m = 1 if rng.random() < .75 else 2
        yield 'process', {'n': rng.randint(m, 3 if rng.random() < .7 else 11), 'm': m, 'prep': rng.choice(['Pauli', 'SIC']),
                          'other': rng.random() < .4, 'own': rng.choice([0, 0, 1]),
                          'full': rng.random() < .3}


def required_events(tier):
    return ['prep-operator', 'meas-operator', 'complete', 'state-distribution', 'names-complete',
            'process-distribution', 'source-unmodified', 'rejected', 'custom-basis']


def case_basis(mon, case):
    rng = np.random.default_rng(case['seed'])
    mon.equal(set(PauliBasis.preparation_labels), {'Xp', 'Xm', 'Yp', 'Ym', 'Zp', 'Zm'}, 'labels')
    mon.equal(set(PauliBasis.measurement_labels), {'X', 'Y', 'Z'}, 'labels')
    mon.equal(set(SICBasis.preparation_labels), {'S0', 'S1', 'S2', 'S3'}, 'labels')
    mon.check(default_basis('Pauli') is PauliBasis and default_basis('SIC') is SICBasis
              and default_basis(None) is None, 'labels')
    for basis in (PauliBasis, SICBasis):
        for lab in basis.preparation_labels:
            mat = basis.preparation_matrix(lab)
            mon.close(mat, PROJ[lab], 'prep-operator', 'preparation matrix of ' + lab)
            size = int(rng.integers(1, 4))
            reg = QuantumRegister(size, 'r')
            k = int(rng.integers(size))
            circ = QuantumCircuit(reg) + basis.preparation_circuit(lab, reg[k])
            psi = sim.density(circ)
            mon.close(gen.partial_trace(psi, [k], size), mat, 'prep-operator',
                      'circuit does not prepare ' + lab)
            rest = [q for q in range(size) if q != k]
            if rest:
                want = np.zeros((2 ** len(rest),) * 2)
                want[0, 0] = 1
                mon.close(gen.partial_trace(psi, rest, size), want, 'prep-operator',
                          'other qubits touched')
    for lab in PauliBasis.measurement_labels:
        for out in (0, 1):
            mon.close(PauliBasis.measurement_matrix(lab, out), meas_op(lab, out), 'meas-operator')
            mon.close(PauliBasis.measurement_matrix(lab, str(out)), meas_op(lab, out),
                      'meas-operator')
        for _ in range(4):
            size = int(rng.integers(1, 4))
            reg, creg = QuantumRegister(size, 'r'), ClassicalRegister(size + 1, 'c')
            k, c = int(rng.integers(size)), int(rng.integers(size + 1))
            pre = QuantumCircuit(reg, creg)
            gen.random_gates(rng, pre, pre.qubits, 3 * size)
            rho = gen.partial_trace(sim.density(pre), [k], size)
            full = pre + PauliBasis.measurement_circuit(lab, reg[k], creg[c])
            p = sim.outcome_probs(full)
            p1 = sum(v for key, v in p.items() if key[size - c] == '1')
            mon.close(p1, np.trace(rho @ meas_op(lab, 1)).real, 'meas-operator',
                      'measurement circuit of ' + lab)
            mon.check(all(key.count('1') <= 1 and (key.count('1') == 0 or key[size - c] == '1')
                          for key in p), 'meas-operator', 'wrong classical bit')

    def rank(ops):
        return np.linalg.matrix_rank(np.array([np.ravel(o) for o in ops]))
    for lab in ('Pauli', 'SIC'):
        tups = tomography_circuit_tuples(1, 'Pauli', lab)
        preps = {t[0][0] for t in tups}
        mon.equal(rank([PROJ[x] for x in preps]), 4, 'complete',
                  'default preparations are not informationally complete')
        meas = {t[1][0] for t in tups}
        mon.equal(rank([meas_op(x, b) for x in meas for b in (0, 1)]), 4, 'complete')
        mon.equal(len(preps), 4, 'complete')
    reg, reg2 = QuantumRegister(2, 'a'), QuantumRegister(1, 'b')
    for arg, n in ((reg, 2), ([reg, reg2], 3), ([reg2[0], reg[1]], 2), ([reg2[0], reg], 3)):
        for labels in ('Pauli', 'tuple'):
            labs = ('X', 'Y', 'Z') if labels == 'Pauli' else ('Z', 'X')
            tups = tomography_circuit_tuples(arg, 'Pauli' if labels == 'Pauli' else labs)
            want = {(None, b) for b in itertools.product(labs, repeat=n)}
            mon.check(len(tups) == len(want) and set(tups) == want, 'names-complete',
                      'label tuples of registers', got=tups)
    for n in (1, 2, 3):
        for pl in (None, 'Pauli', 'SIC'):
            tups = tomography_circuit_tuples(n, 'Pauli', pl)
            labs = {None: None, 'Pauli': ('Zp', 'Zm', 'Xp', 'Yp'),
                    'SIC': ('S0', 'S1', 'S2', 'S3')}[pl]
            ps = [None] if pl is None else list(itertools.product(labs, repeat=n))
            want = {(a, b) for a in ps for b in itertools.product('XYZ', repeat=n)}
            mon.check(len(tups) == len(want) and set(tups) == want, 'names-complete',
                      'label tuples', state=(n, pl))


def case_errors(mon, case):
    reg = QuantumRegister(2, 'r')
    creg = ClassicalRegister(2, 'c')
    both = (QiskitError, ValueError)
    mon.raises(ValueError, lambda: PauliBasis.preparation_circuit('Q', reg[0]), 'rejected')
    mon.raises(ValueError, lambda: PauliBasis.preparation_circuit('X', reg[0]), 'rejected')
    mon.raises(ValueError, lambda: PauliBasis.measurement_circuit('Xp', reg[0], creg[0]),
               'rejected')
    mon.raises(ValueError, lambda: PauliBasis.preparation_matrix('S0'), 'rejected')
    mon.raises(ValueError, lambda: PauliBasis.measurement_matrix('I', 0), 'rejected')
    mon.raises(ValueError, lambda: PauliBasis.measurement_matrix('X', 2), 'rejected')
    mon.raises(QiskitError, lambda: SICBasis.measurement_matrix('S0', 0), 'rejected')
    mon.raises(QiskitError, lambda: SICBasis.measurement_circuit('S0', reg[0], creg[0]),
               'rejected')
    mon.raises(QiskitError, lambda: PauliBasis.preparation_circuit('Xp', 0), 'rejected')
    mon.raises(QiskitError, lambda: PauliBasis.measurement_circuit('X', reg[0], 1), 'rejected')
    empty = TomographyBasis('none')
    mon.raises(QiskitError, lambda: empty.preparation_matrix('a'), 'rejected')
    mon.raises(QiskitError, lambda: empty.measurement_matrix('a', 0), 'rejected')
    mon.check(empty.measurement_labels is None and empty.preparation_labels is None, 'rejected')
    circ = QuantumCircuit(reg)
    mon.raises(QiskitError, lambda: state_tomography_circuits(circ, [reg[0], reg[0]]), 'rejected')
    mon.raises(both, lambda: state_tomography_circuits(circ, reg, meas_basis='SIC'), 'rejected')
    mon.raises(both, lambda: state_tomography_circuits(circ, reg, meas_labels='Foo'), 'rejected')
    mon.raises(both, lambda: state_tomography_circuits(circ, reg, meas_basis='Foo'), 'rejected')
    mon.raises(both, lambda: state_tomography_circuits(circ, reg, meas_labels=('W',)), 'rejected')
    mon.raises(QiskitError, lambda: process_tomography_circuits(circ, [reg[0]], reg), 'rejected')
    mon.raises(QiskitError, lambda: state_tomography_circuits(circ, [reg, reg[1]]), 'rejected')
    mon.raises(QiskitError, lambda: state_tomography_circuits(circ, [reg[0], reg]), 'rejected')
    mon.raises(QiskitError, lambda: state_tomography_circuits(circ, [1, 1]), 'rejected')
    mon.raises(QiskitError, lambda: process_tomography_circuits(circ, reg, [reg[0], reg[0]]), 'rejected')
    mon.raises(both, lambda: process_tomography_circuits(circ, reg, prep_basis='Foo'), 'rejected')
    mon.raises(both, lambda: process_tomography_circuits(circ, reg, prep_labels='Foo'), 'rejected')
    mon.raises(both, lambda: process_tomography_circuits(circ, reg, prep_basis=None), 'rejected')
    mon.raises(both, lambda: state_tomography_circuits(circ, reg, meas_basis=None), 'rejected')
    mon.raises(both, lambda: state_tomography_circuits(circ, reg, meas_labels=5), 'rejected')
    only_meas = TomographyBasis('m', measurement=(('X',), None, None))
    mon.raises(both, lambda: process_tomography_circuits(circ, reg, prep_labels=('Xp',),
                                                         prep_basis=only_meas), 'rejected')
    mon.raises(both, lambda: process_tomography_circuits(circ, [reg[0]], prep_labels=('Sx',)),
               'rejected')


def pick_qubits(rng, circ, m, form, cap=3):
    """Ordered measured qubits in one of the accepted notations."""
    qs = circ.qubits
    idx = [int(i) for i in rng.permutation(len(qs))[:m]]
    if form == 'int':
        return idx, idx
    if form == 'regs':
        regs = [circ.qregs[i] for i in rng.permutation(len(circ.qregs))]
        if sum(r.size for r in regs) > cap:
            regs = regs[:1]
        if sum(r.size for r in regs) <= cap:
            flat = [q for r in regs for q in r]
            arg = regs if len(regs) > 1 or rng.random() < .5 else regs[0]
            return arg, [qs.index(q) for q in flat]
    if form == 'mixed' and len(idx) == 1 and rng.random() < .5:
        return qs[idx[0]], idx
    return [qs[i] for i in idx], idx


def check_counts(mon, circ, got_name_labels, rho, event, m):
    """rho: exact reduced state on the measured qubits."""
    probs = sim.outcome_probs(circ)
    ncl = len(circ.clbits)
    got = {}
    for key, v in probs.items():
        mon_key, rest = key[ncl - m:], key[:ncl - m]
        if '1' in rest:
            mon.violate(event, 'tomography wrote into the classical bits of the circuit')
        got[mon_key] = got.get(mon_key, 0) + v
    keys = [sim.bits(i, m) for i in range(2 ** m)]
    vec = [got.get(k, 0) for k in keys]
    want = [np.trace(rho @ meas_ops(got_name_labels, k)).real for k in keys]
    mon.close(vec, want, event, 'outcome distribution of %s' % circ.name)


def case_state(mon, case):
    rng = np.random.default_rng(case['seed'])
    circ = gen.random_circuit(rng, case['n'], own_cregs=case['own'])
    arg, idx = pick_qubits(rng, circ, case['m'], case['form'], case.get('cap', 3))
    m = len(idx)
    before = gen.fingerprint(circ)
    rho = gen.reduced(circ, idx)
    kw = {}
    want = set(itertools.product('XYZ', repeat=m))
    if case['labels'] == 'tuple':
        labs = tuple(rng.permutation(['X', 'Y', 'Z'])[:int(rng.integers(1, 4))].tolist())
        kw['meas_labels'] = labs
        want = set(itertools.product(labs, repeat=m))
    elif case['labels'] == 'few':
        want = {tuple('XYZ'[int(x)] for x in rng.integers(0, 3, m))
                for _ in range(int(rng.integers(1, 12)))}
        kw['meas_labels'] = sorted(want, key=lambda _: rng.random())
    elif case['labels'] == 'list':
        full = sorted(want)
        pick = rng.permutation(len(full))[:int(rng.integers(1, len(full) + 1))]
        kw['meas_labels'] = [full[i] for i in pick]
        want = set(kw['meas_labels'])
    if rng.random() < .3:
        kw['meas_basis'] = PauliBasis
    circs = state_tomography_circuits(circ, arg, **kw)
    labels = [literal_eval(c.name) for c in circs]
    mon.check(len(labels) == len(want) and set(labels) == want, 'names-complete',
              'circuits do not cover the requested labels once', state=sorted(want)[:30],
              got=labels)
    for c, lab in zip(circs, labels):
        # qubit order of the result may differ from the source circuit
        check_counts(mon, c, lab, rho, 'state-distribution', m)
        mon.check([r.size for r in c.cregs][:1] == [m] and len(c.cregs) == 1 + case['own'],
                  'registers', 'tomography register is not first', state=[r.size for r in c.cregs])
    mon.equal(gen.fingerprint(circ), before, 'source-unmodified')


def case_custom(mon, case):
    """Bases given as objects or as functions; prepared and measured operators are the user's."""
    rng = np.random.default_rng(case['seed'])
    n = case['n']
    circ = gen.random_circuit(rng, n)
    m = int(rng.integers(1, 3))
    idx = [int(i) for i in rng.permutation(n)[:m]]
    pidx = [int(i) for i in rng.permutation(n)[:m]]
    plabs = tuple('P%d' % i for i in range(int(rng.integers(1, 5))))
    mlabs = tuple('M%d' % i for i in range(int(rng.integers(1, 5))))
    angles = {lab: rng.uniform(-np.pi, np.pi, 2) for lab in plabs + mlabs}

    def rot(lab):
        th, ph = angles[lab]
        return np.array([[np.cos(th / 2), -np.exp(-1j * ph) * np.sin(th / 2)],
                         [np.exp(1j * ph) * np.sin(th / 2), np.cos(th / 2)]])

    def prep(lab, qubit):
        c = QuantumCircuit(qubit.register)
        c.u(angles[lab][0], angles[lab][1], -angles[lab][1], qubit)
        return c

    def meas(lab, qubit, clbit):
        c = QuantumCircuit(qubit.register, clbit.register)
        c.u(angles[lab][0], angles[lab][1], -angles[lab][1], qubit)
        c.measure(qubit, clbit)
        return c
    asfun = rng.random() < .5
    pb = prep if asfun else TomographyBasis('p', preparation=(plabs, prep, None))
    mb = meas if asfun else TomographyBasis('m', measurement=(mlabs, meas, None))
    circs = process_tomography_circuits(circ, idx, pidx, meas_labels=mlabs, meas_basis=mb,
                                        prep_labels=plabs, prep_basis=pb)
    want = {(p, q) for p in itertools.product(plabs, repeat=m)
            for q in itertools.product(mlabs, repeat=m)}
    labels = [literal_eval(c.name) for c in circs]
    mon.check(len(labels) == len(want) and set(labels) == want, 'custom-basis',
              'circuits do not cover the requested labels once')
    for i in rng.permutation(len(circs))[:12]:
        p, q = labels[i]
        rho_in = np.eye(1)
        for lab in p:
            v = rot(lab)[:, :1]
            rho_in = np.kron(v @ v.conj().T, rho_in)
        rho = channel_output(circ, rho_in, pidx, idx)
        probs = sim.outcome_probs(circs[i])
        for k in range(2 ** m):
            op = np.eye(1)
            for j, lab in enumerate(q):
                u = rot(lab)
                e = u.conj().T[:, [(k >> j) & 1]]
                op = np.kron(e @ e.conj().T, op)
            mon.close(probs.get(sim.bits(k, m), 0), np.trace(rho @ op).real, 'custom-basis',
                      'outcome distribution of %s' % circs[i].name)


def channel_output(circ, rho_in, prep_idx, meas_idx):
    """Reduced output state when rho_in is prepared on prep_idx, |0> elsewhere."""
    n = circ.num_qubits
    outs = []
    for a in range(2 ** len(prep_idx)):
        init = np.zeros(2 ** n, dtype=complex)
        init[sum(((a >> t) & 1) << q for t, q in enumerate(prep_idx))] = 1
        outs.append(gen.split_state(sim.statevector(circ, init=init), meas_idx, n))
    return sum(rho_in[a, b] * (x @ y.conj().T) for a, x in enumerate(outs) for b, y in enumerate(outs)
               if rho_in[a, b])


def case_process(mon, case):
    rng = np.random.default_rng(case['seed'])
    n, m = case['n'], case['m']
    circ = gen.random_circuit(rng, n, own_cregs=case['own'])
    idx = [int(i) for i in rng.permutation(n)[:m]]
    pidx = [int(i) for i in rng.permutation(n)[:m]] if case['other'] else idx
    before = gen.fingerprint(circ)
    use_q = rng.random() < .5
    conv = (lambda ids: [circ.qubits[i] for i in ids]) if use_q else (lambda ids: list(ids))
    kw = {'prep_labels': case['prep'], 'prep_basis': case['prep']}
    plabs = ('Zp', 'Zm', 'Xp', 'Yp') if case['prep'] == 'Pauli' else ('S0', 'S1', 'S2', 'S3')
    if case['full'] and case['prep'] == 'Pauli' and m == 1:
        plabs = PauliBasis.preparation_labels
        kw['prep_labels'] = plabs
    if case['other']:
        kw['prepared_qubits'] = conv(pidx)
    if case.get('few'):
        some_p = sorted({tuple(plabs[int(x)] for x in rng.integers(0, len(plabs), m)) for _ in range(5)},
                        key=lambda _: rng.random())
        some_m = sorted({tuple('XYZ'[int(x)] for x in rng.integers(0, 3, m)) for _ in range(5)},
                        key=lambda _: rng.random())
        kw.update(prep_labels=some_p, meas_labels=some_m)
    circs = process_tomography_circuits(circ, conv(idx), **kw)
    want = {(p, q) for p in some_p for q in some_m} if case.get('few') else {(p, q) for p in itertools.product(plabs, repeat=m)
            for q in itertools.product('XYZ', repeat=m)}
    labels = [literal_eval(c.name) for c in circs]
    mon.check(len(labels) == len(want) and set(labels) == want, 'names-complete',
              'circuits do not cover the requested labels once', state=(case['prep'], m))
    pick = range(len(circs)) if m == 1 and n < 8 else rng.permutation(len(circs))[:48 if n < 6 else 12]
    outs = {}
    for i in pick:
        p, q = labels[i]
        if p not in outs:
            outs[p] = channel_output(circ, prep_op(p), pidx, idx)
        check_counts(mon, circs[i], q, outs[p], 'process-distribution', m)
    mon.equal(gen.fingerprint(circ), before, 'source-unmodified')
