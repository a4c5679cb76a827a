"""C27: accreditation circuits and the accreditation protocol."""
import copy

import numpy as np
from qiskit import QiskitError
from qiskit.circuit.library import XGate, YGate, ZGate
from qiskit.ignis.verification.accreditation import (
    AccreditationCircuits, AccreditationFitter, QOTPCorrectCounts)
from vm import acctools as at
from vm import gen, sim

PROP = 'C27'
LEVEL = 'exploration'
RULE = ('random targets of 1-4 qubits with any terminal measurement map, both two-qubit gates, '
        'coupling maps; single Pauli errors between layers of traps; histories of protocol runs '
        'with accepted, rejected and invalid runs; a state is one distinct trap or fitter state')
ASSUMPTIONS = ['targets have one quantum and one classical register and measure at the end']


def cases(rng, tier):
    n = 20 if tier == 'quick' else 500
    for _ in range(n):
        yield 'circuits', {'n': rng.choice([1, 2, 3, 4]), 'depth': rng.choice([0, 4, 10, 16]),
                           'measure': rng.choice(['plain', 'plain', 'permuted', 'partial', 'wide']),
                           'gate': rng.choice(['cx', 'cz']),
                           'map': rng.choice(['none', 'none', 'line', 'star']),
                           'traps': rng.choice([0, 1, 3, 5])}
    for _ in range(max(3, n // 6)):
        yield 'circuits', {'n': rng.choice([5, 6, 7]), 'depth': rng.choice([10, 25]),
                           'measure': rng.choice(['plain', 'permuted', 'partial', 'wide']),
                           'gate': rng.choice(['cx', 'cz']),
                           'map': rng.choice(['none', 'line', 'star']),
                           'traps': rng.choice([3, 11])}
    for _ in range(2 if tier == 'quick' else 30):
        yield 'detect', {'gate': rng.choice(['cx', 'cz'])}
        yield 'position', {}
    for _ in range(80 if tier == 'quick' else 3000):
        yield 'history', {'runs': rng.choice([1, 2, 5, 12, 40]), 'traps': rng.choice([3, 4, 10, 25]),
                          'noise': rng.choice([0, .02, .1, .4, 1])}
    for _ in range(5):
        yield 'reject', {}


def required_events(tier):
    return ['trap-output', 'target-output', 'same-shape', 'coupling', 'position', 'trap-detects', 'trap-bases',
            'flag', 'outputs', 'bound', 'confidence', 'bound-trivial', 'rejected', 'no-trace',
            'instances-independent', 'input-unmodified', 'accepted', 'run-rejected']


def corrected(circ, postp):
    got = sim.outcome_probs(circ)
    return QOTPCorrectCounts({k: 1e6 * v for k, v in got.items()}, postp)


def case_circuits(mon, case):
    rng = np.random.default_rng(case['seed'])
    n = case['n']
    circ = at.target(rng, n, case['depth'], case['measure'])
    cmap = None
    if n > 1 and case['map'] != 'none':
        cmap = at.coupling(rng, n, case['map'])
    before = gen.fingerprint(circ)
    want = sim.outcome_probs(circ)
    acc = AccreditationCircuits(circ, two_qubit_gate=case['gate'], coupling_map=cmap,
                                seed=int(rng.integers(2 ** 31)))
    if rng.random() < .3:
        other = at.target(rng, 2, 4, 'plain')
        acc = AccreditationCircuits(other, seed=1)
        acc.target_circuit(circ, two_qubit_gate=case['gate'], coupling_map=cmap)
    for _ in range(2):
        circs, postps, v_zero = acc.generate_circuits(case['traps'])
        mon.equal(len(circs), case['traps'] + 1, 'position', 'number of circuits')
        mon.equal(len(postps), case['traps'] + 1, 'position', 'number of pads')
        mon.check(0 <= v_zero <= case['traps'], 'position', 'target position')
        shape = None
        for k, (c, p) in enumerate(zip(circs, postps)):
            fixed = corrected(c, p)
            if k == v_zero:
                keys = sorted(set(want) | set(fixed))
                mon.close([fixed.get(x, 0) / 1e6 for x in keys], [want.get(x, 0) for x in keys],
                          'target-output', 'corrected target distribution', atol=1e-6,
                          state=fixed)
            else:
                zero = '0' * len(circ.clbits)
                mon.close(fixed.get(zero, 0) / 1e6, 1, 'trap-output',
                          'noiseless trap does not return zeros', atol=1e-6,
                          state=sim.outcome_probs(c))
            two = at.two_qubit(c)
            if shape is None:
                shape = at.spread(two)
            mon.equal(at.spread(two), shape, 'same-shape',
                      'traps and target differ in their two-qubit gates')
            mon.check(all(x == case['gate'] for x, _ in two), 'same-shape', 'two-qubit gate')
            if cmap is not None:
                mon.check(all(list(q) in cmap or list(reversed(q)) in cmap for _, q in two),
                          'coupling', 'gate off the coupling map')
    mon.equal(gen.fingerprint(circ), before, 'input-unmodified', 'target changed')


def case_position(mon, case):
    rng = np.random.default_rng(case['seed'])
    circ = at.target(rng, 1, 1, 'plain')
    acc = AccreditationCircuits(circ, seed=int(rng.integers(2 ** 31)))
    traps = int(rng.integers(1, 4))
    seen = {acc.generate_circuits(traps)[2] for _ in range(35 * traps)}
    mon.equal(sorted(seen), list(range(traps + 1)), 'position',
              'target never at some of the positions')


def case_detect(mon, case):
    """Every Pauli error of one qubit after a two-qubit layer is caught by some traps."""
    rng = np.random.default_rng(case['seed'])
    circ = at.target(rng, 3, 6, 'plain')
    circ.data = circ.data[:-3]
    circ.cx(0, 1)
    circ.ry(.3, 1)
    circ.cx(1, 2)
    circ.ry(.7, 2)
    circ.measure([0, 1, 2], [0, 1, 2])
    acc = AccreditationCircuits(circ, two_qubit_gate=case['gate'], seed=int(rng.integers(2 ** 31)))
    traps = 40
    circs, postps, v_zero = acc.generate_circuits(traps)
    gates = [i for i, (inst, qs, _) in enumerate(circs[0].data)
             if len(qs) == 2 and inst.name != 'barrier']
    picked = [int(i) for i in rng.choice(len(gates), size=min(3, len(gates)), replace=False)]
    for g in picked:
        for side in (0, 1):
            for err in (XGate(), YGate(), ZGate()):
                caught = 0
                for k, (c, p) in enumerate(zip(circs, postps)):
                    if k == v_zero:
                        continue
                    idx = [i for i, (inst, qs, _) in enumerate(c.data)
                           if len(qs) == 2 and inst.name != 'barrier'][g]
                    bad = c.copy()
                    bad.data = c.data[:idx + 1] + [(err, [c.data[idx][1][side]], [])] + \
                        c.data[idx + 1:]
                    fixed = corrected(bad, p)
                    caught += 1 - fixed.get('000', 0) / 1e6
                mon.check(caught >= 2, 'trap-detects',
                          '%s error on one qubit is hardly ever caught' % err.name, caught=caught,
                          state=(g, side, err.name, round(caught)))
    # the traps enter the first two-qubit layer in eigenstates of all three Pauli operators
    axes = {q: set() for q in range(3)}
    for _ in range(3):
        circs, _, v_zero = acc.generate_circuits(traps)
        for k, c in enumerate(circs):
            if k == v_zero:
                continue
            psi = {q: np.array([1, 0], dtype=complex) for q in range(3)}
            index = {q: i for i, q in enumerate(c.qubits)}
            for inst, qs, _ in c.data:
                if inst.name == 'barrier':
                    continue
                if len(qs) > 1 or inst.name == 'measure':
                    break
                psi[index[qs[0]]] = inst.to_matrix() @ psi[index[qs[0]]]
            for q, v in psi.items():
                bloch = [2 * (v[0].conj() * v[1]).real, 2 * (v[0].conj() * v[1]).imag,
                         abs(v[0]) ** 2 - abs(v[1]) ** 2]
                axes[q].add('xyz'[int(np.argmax(np.abs(bloch)))])
    mon.equal({q: sorted(a) for q, a in axes.items()}, {q: ['x', 'y', 'z'] for q in range(3)},
              'trap-bases', 'Pauli bases the traps use')


def run_data(rng, nbits, traps, noise):
    """One protocol run: results, pads, target position, and what must come of it."""
    v_zero = int(rng.integers(traps + 1))
    pads, exps = [], []
    ok = True
    target = None
    for k in range(traps + 1):
        pad = [int(b) for b in rng.integers(2, size=nbits)]
        if k == v_zero:
            out = [int(b) for b in rng.integers(2, size=nbits)]
            target = ''.join(map(str, out))
        else:
            out = [0] * nbits
            if rng.random() < noise:
                out[int(rng.integers(nbits))] = 1
                ok = False
        raw = ''.join(str(a ^ b) for a, b in zip(out, pad))
        exps.append(sim.exp_result('circuit%d' % k, {raw: 1}, [['c', nbits]]))
        pads.append(pad if rng.random() < .5 else np.array(pad))
    return sim.result(exps), pads, v_zero, ok, target


def state(fit):
    return (fit.num_runs, fit.N_acc, list(fit.outputs), fit.num_traps)


def case_history(mon, case):
    rng = np.random.default_rng(case['seed'])
    nbits = int(rng.integers(1, 6 if rng.random() < .8 else 14))
    fit, other = AccreditationFitter(), AccreditationFitter()
    mon.equal(list(fit.outputs), [], 'instances-independent', 'new fitter has outputs')
    acc = runs = 0
    outputs = []
    for _ in range(case['runs']):
        res, pads, v_zero, ok, target = run_data(rng, nbits, case['traps'], case['noise'])
        before = copy.deepcopy([list(map(int, p)) for p in pads])
        fit.single_protocol_run(res, pads, v_zero)
        mon.equal([list(map(int, p)) for p in pads], before, 'input-unmodified', 'pads changed')
        runs += 1
        if ok:
            acc += 1
            outputs.append(target)
        mon.saw('accepted' if ok else 'run-rejected')
        mon.equal(fit.flag, 'accepted' if ok else 'rejected', 'flag', 'flag of the run')
        mon.equal(state(fit), (runs, acc, outputs, case['traps']), 'outputs',
                  'runs, accepted runs and outputs', state=(runs, acc, len(outputs)))
        if rng.random() < .5 and acc:
            for _ in range(2):
                check_bound(mon, fit, acc, runs, case['traps'], float(rng.uniform(0.01, .99)))
            if rng.random() < .3:
                check_bound(mon, fit, acc, runs, case['traps'], acc / runs)
    mon.equal(state(other)[:3], (0, 0, []), 'instances-independent', 'other fitter changed')


def check_bound(mon, fit, acc, runs, traps, theta):
    if 0 < abs(acc / runs - theta) < 1e-9:
        return
    fit.bound_variation_distance(theta)
    if acc / runs > theta:
        want = 1.7 / (traps + 1) / (acc / runs - theta)
        mon.close(fit.bound, min(want, 1), 'bound', 'bound on the variation distance')
        if want <= 1:
            mon.close(fit.confidence, 1 - 2 * np.exp(-2 * theta ** 2 * runs), 'confidence',
                      'confidence of the bound', theta=theta, runs=runs)
    else:
        mon.close(fit.bound, 1, 'bound-trivial', 'bound without enough accepted runs')


def case_reject(mon, case):
    rng = np.random.default_rng(case['seed'])
    nbits = 3
    fit = AccreditationFitter()
    mon.raises(QiskitError, lambda: fit.bound_variation_distance(.5), 'rejected',
               'bound without accepted runs')
    res, pads, v_zero, _, _ = run_data(rng, nbits, int(rng.integers(0, 3)), 0)
    mon.raises(QiskitError, lambda: fit.single_protocol_run(res, pads, v_zero), 'rejected',
               'fewer than three traps accepted')
    mon.equal(state(fit)[:3], (0, 0, []), 'no-trace', 'rejected run counted')
    res, pads, v_zero, ok, target = run_data(rng, nbits, 4, .3)
    fit.single_protocol_run(res, pads, v_zero)
    before = state(fit)
    res, pads, v_zero, _, _ = run_data(rng, nbits, [3, 5, 9][int(rng.integers(3))], 0)
    mon.raises(QiskitError, lambda: fit.single_protocol_run(res, pads, v_zero), 'rejected',
               'other number of traps accepted')
    mon.equal(state(fit), before, 'no-trace', 'rejected run counted')
    res, pads, v_zero, _, _ = run_data(rng, nbits, 4, 0)
    k = int(rng.integers(5))
    res.results[k] = sim.exp_result('circuit%d' % k, [{'000': 2}, {'000': 1, '101': 1}][
        int(rng.integers(2))], [['c', nbits]])
    mon.raises(QiskitError, lambda: fit.single_protocol_run(res, pads, v_zero), 'rejected',
               'several shots accepted')
    mon.equal(state(fit), before, 'no-trace', 'rejected run counted')
