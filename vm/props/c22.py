"""C22: quantum volume circuits."""
import copy

import numpy as np
from qiskit.quantum_info import Operator
from qiskit.ignis.verification.quantum_volume import qv_circuits
from vm import gen, sim

PROP = 'C22'
LEVEL = 'exploration'
RULE = ('random lists of 1-5 distinct qubits out of 9 (contiguous, with gaps, not starting at 0, '
        'in any order), several lists per call, 1-4 trials, seeds including 0 and None; every '
        'circuit pair is executed exactly; a state is one distinct outcome distribution')


def cases(rng, tier):
    n = 60 if tier == 'quick' else 1500
    for i in range(n):
        yield 'circuits', {'shape': ['range', 'shift', 'gap', 'any'][i % 4],
                           'trials': rng.randint(1, 4), 'lists': rng.randint(1, 3),
                           'rseed': rng.choice([None, 0, 1, rng.randrange(10 ** 6)])}
    for i in range(max(4, n // 8)):
        yield 'circuits', {'shape': ['range', 'shift', 'gap', 'any'][i % 4], 'trials': rng.randint(1, 3),
                           'lists': rng.randint(1, 3), 'rseed': rng.randrange(10 ** 6), 'top': 8}
        yield 'circuits', {'shape': ['range', 'shift', 'gap', 'any'][i % 4], 'trials': rng.randint(10, 13),
                           'lists': rng.randint(1, 4), 'rseed': rng.choice([None, 3]), 'top': 4}
    yield 'distinct', {}
    for i in range(n // 3):
        yield 'repro', {'rseed': rng.choice([0, 0, 1, 5, rng.randrange(10 ** 6)])}


def required_events(tier):
    return ['names', 'same-distribution', 'only-listed-qubits', 'measured-qubits', 'no-measurement',
            'square-circuit', 'reproducible', 'trials-differ', 'trials-distinct', 'inputs-unmodified']


def qubit_list(rng, shape, size):
    if shape == 'range':
        return list(range(size))
    if shape == 'shift':
        s = int(rng.integers(1, 4))
        return list(range(s, s + size))
    qs = [int(q) for q in rng.choice(8 if rng.random() < .7 else 13, size, replace=False)]
    return sorted(qs) if shape == 'gap' else qs


def unroll(circ, depth=0):
    """Two-qubit unitary blocks of a model circuit as (matrix, qubits)."""
    out = []
    qi = sim.qindex(circ)
    for inst, qs, _ in circ.data:
        if inst.name in ('barrier', 'measure'):
            continue
        idx = [qi[q] for q in qs]
        if inst.num_qubits > 2 or (inst.num_qubits == 2 and depth == 0
                                   and inst.definition is not None
                                   and inst.name.startswith('quantum_volume')):
            for mat, sub in unroll(inst.definition, depth + 1):
                out.append((mat, [idx[s] for s in sub]))
        elif inst.definition is not None and inst.name.startswith('quantum_volume'):
            for mat, sub in unroll(inst.definition, depth + 1):
                out.append((mat, [idx[s] for s in sub]))
        else:
            out.append((Operator(inst).data, idx))
    return out


def case_circuits(mon, case):
    rng = np.random.default_rng(case['seed'])
    sizes = sorted(int(s) for s in rng.choice(np.arange(1, case.get('top', 5) + 1), case['lists'],
                                        replace=False))
    lists = [qubit_list(rng, case['shape'], s) for s in sizes]
    keep = copy.deepcopy(lists)
    circs, nomeas = qv_circuits(lists, ntrials=case['trials'], seed=case['rseed'])
    mon.equal(lists, keep, 'inputs-unmodified')
    mon.equal([len(circs), len(nomeas)], [case['trials']] * 2, 'names', 'one list per trial')
    for t in range(case['trials']):
        mon.equal([len(circs[t]), len(nomeas[t])], [len(lists)] * 2, 'names')
        for qs, circ, ideal in zip(lists, circs[t], nomeas[t]):
            k = len(qs)
            name = 'qv_depth_%d_trial_%d' % (k, t)
            mon.equal([circ.name, ideal.name], [name, name], 'names')
            mon.equal(ideal.num_qubits, k, 'square-circuit', 'width of the ideal circuit')
            ops, meas = sim.split(ideal)
            mon.check(not meas, 'no-measurement', 'ideal circuit contains measurements')
            ops, meas = sim.split(circ)
            mon.equal(sorted(meas), sorted(zip(qs, range(k))), 'measured-qubits',
                      'the i-th listed qubit must be read into bit i', qubits=qs)
            mon.equal(len(circ.clbits), k, 'measured-qubits', 'number of bits')
            mon.check(all(set(idx) <= set(qs) for _, idx in ops), 'only-listed-qubits',
                      'gates act outside the listed qubits', qubits=qs,
                      got=[idx for _, idx in ops])
            psi = sim.statevector(ideal)
            want = np.abs(psi) ** 2
            probs = sim.outcome_probs(circ)
            got = np.array([probs.get(sim.bits(i, k), 0) for i in range(2 ** k)])
            mon.close(got, want, 'same-distribution',
                      'measured circuit and ideal circuit have different distributions',
                      atol=1e-8, qubits=qs)
            blocks = [b for b in unroll(ideal) if len(b[1]) == 2]
            mon.equal(len(blocks), k * (k // 2), 'square-circuit',
                      'number of two-qubit blocks is not depth times half the width')
            # layers pair disjoint qubits
            for layer in range(k if k > 1 else 0):
                used = [q for _, idx in blocks[layer * (k // 2):(layer + 1) * (k // 2)]
                        for q in idx]
                mon.check(len(set(used)) == len(used), 'square-circuit',
                          'a layer uses a qubit twice')
            if k >= 4:
                mon.check(not all(np.allclose(b[0], blocks[0][0]) for b in blocks),
                          'square-circuit', 'all blocks are the same unitary')


def case_distinct(mon, case):
    """No two trials are the same circuit."""
    _, ideal = qv_circuits([[0, 1]], ntrials=60, seed=7)
    mats = [sim.unitary(t[0]) for t in ideal]
    same = [(a, b) for b in range(60) for a in range(b) if np.allclose(mats[a], mats[b])]
    mon.check(not same, 'trials-distinct', 'trials that repeat an earlier circuit',
              key='qv_circuits([[0, 1]], ntrials=60, seed=7): %r' % (same,), pairs=same, state=same)
    _, ideal = qv_circuits([[0, 1]], ntrials=60)
    mats = [sim.unitary(t[0]) for t in ideal]
    same = [(a, b) for b in range(60) for a in range(b) if np.allclose(mats[a], mats[b])]
    # without a seed terra draws one of 999 seeds for each circuit, so a few repetitions are its own
    repeats = len({b for _, b in same})
    mon.check(repeats <= 20, 'trials-distinct', 'unseeded trials that repeat an earlier circuit', pairs=same,
              state='unseeded')


def case_repro(mon, case):
    rng = np.random.default_rng(case['seed'])
    lists = [qubit_list(rng, 'gap', 2), qubit_list(rng, 'any', 4)]

    def unitaries(seed):
        circs, ideal = qv_circuits(lists, ntrials=3, seed=seed)
        return [[sim.unitary(c) for c in tr] for tr in ideal], [[gen.fingerprint(c)[0:1] for c in t]
                                                               for t in circs]
    a, _ = unitaries(case['rseed'])
    np.random.seed(int(rng.integers(1000)))
    b, _ = unitaries(case['rseed'])
    ok = all(np.allclose(x, y) for s, t in zip(a, b) for x, y in zip(s, t))
    mon.check(ok, 'reproducible', 'same seed, different circuits', state=case['rseed'],
              seed=case['rseed'])
    mon.check(not all(np.allclose(a[0][i], a[t][i]) for t in (1, 2) for i in (0, 1)),
              'trials-differ', 'all trials are the same circuit', seed=case['rseed'])
    c, _ = unitaries(None)
    d, _ = unitaries(None)
    mon.check(not all(np.allclose(x, y) for s, t in zip(c, d) for x, y in zip(s, t)),
              'trials-differ', 'unseeded calls repeat')
