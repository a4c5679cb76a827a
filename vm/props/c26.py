"""C26: the quantum one-time pad preserves the corrected outcome distribution."""
import numpy as np
from qiskit import QuantumCircuit
from qiskit.quantum_info import Statevector
from qiskit.exceptions import QiskitError
from qiskit.ignis.verification.accreditation import QOTP, QOTPCorrectCounts
from vm import acctools as at
from vm import gen, sim

PROP = 'C26'
LEVEL = 'exploration'
RULE = ('random circuits of 1-4 qubits with plain, permuted, partial and wide measurements, both '
        'two-qubit gates, several coupling maps and seeds; random counts for the correction; a '
        'state is one distinct padded outcome distribution')
ASSUMPTIONS = ['circuits have one quantum and one classical register and measure at the end']


def cases(rng, tier):
    n = 36 if tier == 'quick' else 900
    for _ in range(n):
        yield 'pad', {'n': rng.choice([1, 2, 3, 3, 4]), 'depth': rng.choice([0, 2, 6, 12, 20]),
                      'measure': rng.choice(['plain', 'plain', 'permuted', 'partial', 'wide']),
                      'gate': rng.choice(['cx', 'cz']),
                      'map': rng.choice(['none', 'none', 'line', 'ring', 'star'])}
    for _ in range(n // 9):
        yield 'pad', {'n': rng.choice([6, 8]), 'depth': rng.choice([12, 20]), 'measure': 'plain',
                      'gate': rng.choice(['cx', 'cz']), 'map': 'none', 'parallel': True}
    for _ in range(40 if tier == 'quick' else 1000):
        yield 'correct', {'n': rng.choice([1, 2, 3, 5, 12])}
    for _ in range(3 if tier == 'quick' else 20):
        yield 'random', {'gate': rng.choice(['cx', 'cz'])}
        yield 'twirl', {'gate': rng.choice(['cx', 'cz'])}
    yield 'reject', {}


def required_events(tier):
    return ['distribution', 'two-qubit-gates', 'coupling', 'reproducible', 'pads-vary', 'correction',
            'twirl', 'input-unmodified', 'rejected', 'measured-bits']


def case_pad(mon, case):
    rng = np.random.default_rng(case['seed'])
    n = case['n']
    circ = at.target(rng, n, case['depth'], case['measure'])
    if case.get('parallel'):    # many disjoint gates in one layer
        last = [d for d in circ.data if d[0].name == 'measure']
        circ.data = [d for d in circ.data if d[0].name != 'measure']
        for _ in range(3):
            circ.barrier()
            order = [int(i) for i in rng.permutation(n)]
            for i in range(n // 2):
                circ.cx(order[2 * i], order[2 * i + 1])
            for i in range(n):
                circ.u3(*map(float, rng.uniform(-3, 3, 3)), i)
        circ.data = list(circ.data) + last
    cmap = None
    if n > 1 and case['map'] != 'none':
        cmap = at.coupling(rng, n + int(rng.integers(0, 2)), case['map'])
    before = gen.fingerprint(circ)
    seed = int(rng.integers(2 ** 31)) if rng.random() < .8 else 0
    num = int(rng.integers(1, 5))
    want = sim.outcome_probs(circ)
    circs, postps = QOTP(circ, num, two_qubit_gate=case['gate'], coupling_map=cmap, seed=seed)
    mon.equal(gen.fingerprint(circ), before, 'input-unmodified', 'target circuit changed')
    mon.check(len(circs) == num and len(postps) == num, 'distribution', 'number of pads')
    shape = None
    for pad, postp in zip(circs, postps):
        got = sim.outcome_probs(pad)
        fixed = QOTPCorrectCounts({k: 1e6 * v for k, v in got.items()}, postp)
        keys = sorted(set(want) | set(fixed))
        mon.close([fixed.get(k, 0) / 1e6 for k in keys], [want.get(k, 0) for k in keys],
                  'distribution', 'corrected distribution differs from the target',
                  atol=1e-6, state=got)
        mon.equal(len(pad.clbits), len(circ.clbits), 'measured-bits', 'classical bits')
        mon.equal(sorted(c for _, c in sim.split(pad)[1]), sorted(c for _, c in sim.split(circ)[1]),
                  'measured-bits', 'measured classical bits')
        two = at.two_qubit(pad)
        mon.check(all(name == case['gate'] for name, _ in two), 'two-qubit-gates',
                  'other two-qubit gates', got=two)
        if cmap is not None:
            mon.check(all(list(qs) in cmap or list(reversed(qs)) in cmap for _, qs in two),
                      'coupling', 'gate off the coupling map', got=two, map=cmap)
        if shape is None:
            shape = at.spread(two)
        mon.equal(at.spread(two), shape, 'two-qubit-gates', 'pads differ in their two-qubit gates')
    if cmap is None:
        circs2, postps2 = QOTP(circ, num, two_qubit_gate=case['gate'], seed=seed)
        mon.check(all(np.array_equal(a, b) for a, b in zip(postps, postps2)) and
                  all(gen.fingerprint(a)[1:] == gen.fingerprint(b)[1:]
                      for a, b in zip(circs, circs2)), 'reproducible', 'same seed, other pads')


def case_correct(mon, case):
    rng = np.random.default_rng(case['seed'])
    n = case['n']
    keys = sorted({sim.bits(int(i), n) for i in rng.integers(2 ** n, size=int(rng.integers(1, 30)))})
    counts = {k: int(rng.integers(1, 1000)) for k in keys}
    pad = [int(b) for b in rng.integers(2, size=n)]
    before = dict(counts)
    got = QOTPCorrectCounts(counts, pad if rng.random() < .5 else np.array(pad))
    want = {''.join(str(int(k[i]) ^ pad[i]) for i in range(n)): v for k, v in counts.items()}
    mon.equal(dict(got), want, 'correction', 'shifted counts')
    mon.equal(counts, before, 'input-unmodified', 'counts changed')
    back = QOTPCorrectCounts(got, pad)
    mon.equal(dict(back), before, 'correction', 'shifting twice is the identity')


def case_random(mon, case):
    """Pads are random: every outcome bit flips in some pads, and Paulis before gates vary."""
    rng = np.random.default_rng(case['seed'])
    circ = at.target(rng, 3, 12, 'plain')
    circ.data = circ.data[:-3]
    circ.cx(0, 1)
    circ.h(2)
    circ.cx(1, 2)
    circ.measure([0, 1, 2], [0, 1, 2])
    circs, postps = QOTP(circ, 40, two_qubit_gate=case['gate'], seed=int(rng.integers(2 ** 31)))
    postps = np.array(postps)
    for i in range(3):
        mon.check(0 < postps[:, i].sum() < 40, 'pads-vary', 'outcome bit %d never padded' % i)
    # states entering the first two-qubit layer of the padded circuits
    seen = set()
    for pad in circs:
        head = []
        for inst, qs, _ in pad.data:
            if inst.name in ('cx', 'cz'):
                break
            if inst.name != 'barrier':
                head.append((inst.name, tuple(round(float(p), 6) for p in inst.params),
                             tuple(pad.qubits.index(q) for q in qs)))
        seen.add(tuple(head))
    mon.check(len(seen) >= 6, 'twirl', 'gates before the first layer hardly vary',
              state=len(seen))


PAULI1 = {(0, 0): np.eye(2), (1, 0): np.array([[0, 1], [1, 0]]),
          (0, 1): np.diag([1, -1]), (1, 1): np.array([[0, -1j], [1j, 0]])}


def case_twirl(mon, case):
    """The Paulis in front of every two-qubit gate are uniform and independent of each other."""
    rng = np.random.default_rng(case['seed'])
    layers = int(rng.integers(2, 7))
    circ = QuantumCircuit(2, 2)
    for _ in range(layers):
        for q in (0, 1):
            circ.u3(*map(float, rng.uniform(.4, 1.2, 3)), q)
        circ.cx(*([0, 1] if rng.random() < .5 else [1, 0]))
    for q in (0, 1):
        circ.u3(*map(float, rng.uniform(.4, 1.2, 3)), q)
    circ.measure([0, 1], [0, 1])
    num = 90
    circs, _ = QOTP(circ, num, two_qubit_gate=case['gate'], seed=int(rng.integers(2 ** 31)))
    bits = []
    ref = None
    for pad in circs:
        states = []
        head = QuantumCircuit(2)
        for inst, qs, _ in pad.data:
            if len(qs) == 2 and inst.name != 'barrier':
                states.append(Statevector.from_instruction(head).data)
            if inst.name not in ('barrier', 'measure'):
                head.append(inst, [pad.qubits.index(q) for q in qs])
        if ref is None:
            ref = states
            mon.equal(len(ref), layers, 'two-qubit-gates', 'number of two-qubit gates')
        row = []
        for one, zero in zip(states, ref):
            found = [(a, b) for a in PAULI1 for b in PAULI1
                     if abs(abs(np.vdot(one, np.kron(PAULI1[b], PAULI1[a]) @ zero)) - 1) < 1e-7]
            mon.check(len(found) >= 1, 'twirl', 'state before a gate is not padded with a Pauli')
            if len(found) != 1:
                return
            row += [v for p in found[0] for v in p]
        bits.append(row)
    bits = np.array(bits)
    for i in range(bits.shape[1]):
        for j in range(i):
            mon.check(len(set(zip(bits[:, i].tolist(), bits[:, j].tolist()))) == 4, 'twirl',
                      'pads are not independent', pads=[i, j], gates=layers, state=(layers, i, j))


def case_reject(mon, case):
    rng = np.random.default_rng(case['seed'])
    circ = at.target(rng, 2, 4, 'plain')
    circ.data = circ.data[:-2]
    circ.u3(.7, .2, .3, 0)
    circ.u3(.9, .1, .4, 1)
    circ.cx(0, 1)
    circ.measure([0, 1], [0, 1])
    mon.raises(QiskitError, lambda: QOTP(circ, 2, two_qubit_gate='swap'), 'rejected',
               'unknown two-qubit gate accepted')
    bad = circ.copy()
    bad.data = bad.data[:2]
    bad.h(0)
    bad.reset(0)
    bad.measure([0, 1], [0, 1])
    mon.raises(QiskitError, lambda: QOTP(bad, 2), 'rejected', 'reset accepted')
