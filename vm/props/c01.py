"""C01: measurement-calibration circuits prepare exactly the labelled basis state."""
import numpy as np
from qiskit import QuantumRegister, ClassicalRegister, QiskitError
from qiskit.ignis.mitigation.measurement import complete_meas_cal, tensored_meas_cal
from vm import sim

PROP = 'C01'
LEVEL = 'exploration'
RULE = ('random qubit lists / tensor patterns (unsorted, with gaps, random register forms); each '
        'generated circuit is executed exactly and its outcome compared with the state named in '
        'its label; a state is one (pattern, label, observed outcome) triple')
ASSUMPTIONS = ['gate matrices of qiskit-terra', 'final measurements only']

LABELS = ['', 'test', 'lab_', 'a cal_', ' my run ', 'x.y-(1)', 'cal_0', '%s']


def cases(rng, tier):
    n = 60 if tier == 'quick' else 600
    # exhaustive small part: every ordered qubit list drawn from 3 qubits
    import itertools
    for k in (1, 2, 3):
        for perm in itertools.permutations(range(3), k):
            yield 'complete', {'qubits': list(perm), 'regs': 'none'}
    for i in range(n):
        k = rng.randint(1, 4)
        yield 'complete', {'qubits': rng.sample(range(rng.randint(k, 7)), k),
                           'regs': rng.choice(['none', 'int', 'obj', 'named', 'wide'])}
    for i in range(4):
        k = rng.choice([4, 5, 6, 7])
        yield 'complete', {'qubits': rng.sample(range(rng.randint(k, 12)), k),
                           'regs': rng.choice(['none', 'wide'])}
    for i in range(6):
        yield 'register', {'n': rng.randint(1, 4), 'form': i % 3}
    for i in range(n):
        pool = list(range(rng.randint(2, 7)))
        rng.shuffle(pool)
        pat = []
        while pool and len(pat) < 3:
            k = min(rng.randint(1, 3), len(pool))
            pat.append(pool[:k])
            pool = pool[k:]
        yield 'tensored', {'pattern': pat,
                           'regs': rng.choice(['none', 'int', 'obj', 'named', 'wide'])}
    for i in range(n // 4):
        pool = list(range(rng.randint(9, 13)))
        rng.shuffle(pool)
        pat = []
        while pool and len(pat) < 7:
            k = min(rng.randint(1, 4), len(pool))
            pat.append(pool[:k])
            pool = pool[k:]
        yield 'tensored', {'pattern': pat, 'regs': rng.choice(['none', 'int', 'named', 'wide'])}
    for i in range(4):
        yield 'reject', {}


def required_events(tier):
    return ['prepared-state', 'tensored-prepared', 'label-set', 'rejected']


def _regs(case, nq_needed, ncl):
    rng = np.random.default_rng(case['seed'])
    extra = int(rng.integers(0, 3))
    form = case['regs']
    if form == 'none':
        return None, None
    if form == 'wide':          # more classical bits than needed
        more = ncl + 1 + int(rng.integers(0, 3))
        return (nq_needed + extra, more) if rng.random() < .5 else \
            (QuantumRegister(nq_needed + extra), ClassicalRegister(more, 'w'))
    if form == 'int':
        return nq_needed + extra, ncl
    if form == 'obj':
        return QuantumRegister(nq_needed + extra), ClassicalRegister(ncl)
    return QuantumRegister(nq_needed + extra, 'qq'), ClassicalRegister(ncl, 'cc')


def _observe(mon, circ, groups, state, event):
    """groups: qubit lists in pattern order; state: label, group 0 rightmost."""
    flat = [q for g in groups for q in g]
    _, meas = sim.split(circ)
    mon.check(sorted(q for q, _ in meas) == sorted(flat), event + '-measured',
              'measured qubits differ from the calibrated qubits', got=meas, want=flat)
    by_q = {}
    for q, c in meas:
        by_q[q] = c
    mon.check(len(set(c for _, c in meas)) == len(meas), event + '-measured',
              'two qubits share a classical bit')
    psi = sim.statevector(circ)
    idx = int(np.argmax(np.abs(psi)))
    mon.close(abs(psi[idx]), 1.0, event + '-basis', 'not a basis state')
    want = 0
    for pos, q in enumerate(flat):
        want |= int(state[len(state) - 1 - pos]) << q
    mon.equal(idx, want, event, 'prepared state is not the labelled one',
              state=(groups, state, idx), circuit=circ.name)
    mon.check(all(by_q[q] == i for i, q in enumerate(flat)), event + '-measured',
              'a qubit is not read into the bit of its position', got=by_q, want=flat)
    # observable form: ideal outcome of the measured bits is the label
    out = sim.outcome_probs(circ)
    best = max(out, key=out.get)
    mon.equal(best[len(best) - len(state):], state, event + '-readout',
              'ideal readout differs from the label')


def case_complete(mon, case):
    qubits = case['qubits']
    orig = list(qubits)
    qr, cr = _regs(case, max(qubits) + 1, len(qubits))
    label = LABELS[case['seed'] % len(LABELS)]
    circs, labels = complete_meas_cal(qubit_list=qubits, qr=qr, cr=cr, circlabel=label)
    mon.equal(qubits, orig, 'input-unchanged')
    n = len(qubits)
    mon.equal(sorted(labels), [sim.bits(i, n) for i in range(2 ** n)], 'label-set',
              'labels do not cover every basis state exactly once')
    mon.equal(len(circs), 2 ** n, 'label-set')
    for c, lab in zip(circs, labels):
        mon.equal(c.name, label + 'cal_' + lab, 'circuit-name')
        _observe(mon, c, [qubits], lab, 'prepared-state')


def case_register(mon, case):
    n = case['n']
    qr = [n, QuantumRegister(n), QuantumRegister(n, 'z')][case['form']]
    circs, labels = complete_meas_cal(qr=qr)
    mon.equal(sorted(labels), [sim.bits(i, n) for i in range(2 ** n)], 'label-set')
    for c, lab in zip(circs, labels):
        _observe(mon, c, [list(range(n))], lab, 'prepared-state')
    circs, pattern = tensored_meas_cal(qr=qr)
    mon.equal([list(g) for g in pattern], [list(range(n))], 'tensored-pattern')
    for c in circs:
        _observe(mon, c, [list(range(n))], c.name[len('cal_'):], 'tensored-prepared')


def case_tensored(mon, case):
    pat = case['pattern']
    orig = [list(g) for g in pat]
    flat = [q for g in pat for q in g]
    qr, cr = _regs(case, max(flat) + 1, len(flat))
    label = LABELS[case['seed'] % len(LABELS)]
    circs, out_pat = tensored_meas_cal(mit_pattern=pat, qr=qr, cr=cr, circlabel=label)
    mon.equal([list(g) for g in out_pat], orig, 'tensored-pattern')
    seen = [set() for _ in pat]
    for c in circs:
        mon.check(c.name.startswith(label + 'cal_'), 'circuit-name', 'bad name ' + c.name)
        state = c.name[len(label) + 4:]
        mon.equal(len(state), len(flat), 'circuit-name')
        _observe(mon, c, orig, state, 'tensored-prepared')
        end = len(state)
        for i, g in enumerate(orig):
            seen[i].add(state[end - len(g):end])
            end -= len(g)
    for i, g in enumerate(orig):
        mon.equal(sorted(seen[i]), [sim.bits(k, len(g)) for k in range(2 ** len(g))],
                  'tensored-cover', 'a group is not calibrated in every basis state')
    mon.equal(len(set(c.name for c in circs)), len(circs), 'circuit-name', 'duplicate names')


def case_reject(mon, case):
    mon.raises(QiskitError, lambda: complete_meas_cal(), 'rejected')
    mon.raises(QiskitError, lambda: tensored_meas_cal(), 'rejected')
    mon.raises(QiskitError, lambda: tensored_meas_cal([[0, 1], [1, 2]]), 'rejected',
               'overlapping groups accepted')
    mon.raises(QiskitError, lambda: tensored_meas_cal([[0, 3, 3]]), 'rejected',
               'repeated qubit accepted')
    rng = np.random.default_rng(case['seed'])
    for _ in range(6):
        flat = [int(q) for q in rng.permutation(7)[:int(rng.integers(3, 7))]]
        flat.insert(int(rng.integers(0, len(flat) + 1)), flat[int(rng.integers(len(flat)))])
        cut = int(rng.integers(1, len(flat)))
        mon.raises(QiskitError, lambda: tensored_meas_cal([flat[:cut], flat[cut:]]), 'rejected',
                   'repeated qubit accepted')
