"""C02: fitted calibration matrices are the observed conditional frequencies."""
import re
import numpy as np
from qiskit.ignis.mitigation.measurement import (CompleteMeasFitter, TensoredMeasFitter,
                                                 complete_meas_cal, tensored_meas_cal)
from qiskit import QiskitError
from vm import sim

PROP = 'C02'
LEVEL = 'exploration'
RULE = ('random calibration histories (several results, repeated and missing circuits, deferred '
        'rebuilds, custom label order, foreign circuits mixed in) replayed into an independent '
        'accumulator; a state is one distinct fitted matrix')
ASSUMPTIONS = []


def cases(rng, tier):
    n = 80 if tier == 'quick' else 800
    for i in range(n):
        yield 'complete', {'n': rng.choice([1, 2, 2, 3, 3, 4, 5]), 'batches': rng.randint(1, 4),
                           'label': rng.choice(['', 'test', 'a.b', 'run(1)', 'x_']),
                           'order': rng.choice(['std', 'perm']), 'defer': rng.random() < .4,
                           'wide': rng.random() < .2}
    for i in range(n):
        sizes = [rng.randint(1, 3) for _ in range(rng.randint(1, 3))]
        if i % 10 == 0:
            sizes = [rng.randint(1, 2) for _ in range(rng.randint(4, 6))]
        yield 'tensored', {'sizes': sizes, 'batches': rng.randint(1, 3),
                           'label': rng.choice(['', 'test', 'x_']),
                           'order': rng.choice(['std', 'perm']), 'defer': rng.random() < .4}
    for i in range(n // 4):
        yield 'exact', {'n': rng.randint(1, 3)}
    for i in range(3):
        yield 'unset', {}


def required_events(tier):
    return ['cal-matrix', 'column-stochastic', 'fidelity', 'fidelity-groups', 'accumulated',
            'tensored-matrix', 'repeated-circuit', 'same-counts-again']


def _random_counts(rng, n, shots):
    p = rng.dirichlet(np.ones(2 ** n) * rng.choice([0.2, 1.0]))
    c = rng.multinomial(shots, p)
    return {sim.bits(i, n): int(v) for i, v in enumerate(c) if v}


def _ref_matrices(history, groups, labels):
    """history: list of (state, counts); groups: sizes; labels: per-group order."""
    mats = [np.zeros((2 ** g, 2 ** g)) for g in groups]
    for state, counts in history:
        for meas, cnt in counts.items():
            end = sum(groups)
            for gi, g in enumerate(groups):
                sub, msub = state[end - g:end], meas[end - g:end]
                end -= g
                mats[gi][labels[gi].index(msub), labels[gi].index(sub)] += cnt
    for m in mats:
        tot = m.sum(axis=0)
        m /= np.where(tot == 0, 1, tot)
    return mats


def _fidelity(mat, labels, groups):
    vals = []
    for g in groups:
        idx = [labels.index(x) for x in g]
        vals.append(sum(mat[i, j] for i in idx for j in idx) / len(idx))
    return float(np.mean(vals))


def _labels(rng, n, order):
    labs = [sim.bits(i, n) for i in range(2 ** n)]
    if order == 'perm':
        labs = [labs[i] for i in rng.permutation(len(labs))]
    return labs


def _check_fidelities(mon, rng, fid, mat, labels):
    mon.close(fid(None), _fidelity(mat, labels, [[x] for x in labels]), 'fidelity',
              'readout fidelity is not the normalised trace')
    for _ in range(2):
        perm = [labels[i] for i in rng.permutation(len(labels))]
        groups, i = [], 0
        while i < len(perm):
            k = int(rng.integers(1, len(perm) + 1))
            groups.append(perm[i:i + k])
            i += k
        if len(groups) > 1 and rng.random() < .4:
            groups = groups[:-1]
        mon.close(fid(groups), _fidelity(mat, labels, groups), 'fidelity-groups',
                  'grouped readout fidelity', state=(len(labels), len(groups)))


def _drive(mon, rng, case, n, circs, make, get, ref, event):
    """Feed batches of results incrementally and compare after each."""
    states = [re.search('cal_([01]+)$', c.name).group(1) for c in circs]
    history = []
    fitter = None
    wide = case.get('wide', False)
    for b in range(case['batches']):
        exps = []
        batch = []
        order = list(rng.permutation(len(states)))
        if rng.random() < (.5 if b else .2) and len(order) > 1:
            mon.saw('partial-batch')
            order = order[:int(rng.integers(1, len(order)))]
        if rng.random() < .3:   # some circuits run several times in one job
            mon.saw('repeated-circuit')
            order = [order[i] for i in rng.integers(len(order), size=3)] + order
        for i in order:
            counts = _random_counts(rng, n, int(rng.integers(1, 4000)))
            batch.append((states[i], counts))
            sizes = [['c', n]]
            keyed = counts
            if wide:            # classical register larger than the qubit list
                sizes = [['c', n + 2]]
                keyed = {'00' + k: v for k, v in counts.items()}
            exps.append(sim.exp_result(circs[i].name, keyed, sizes))
        if rng.random() < .5:   # unrelated experiment in the same job
            exps.insert(int(rng.integers(0, len(exps) + 1)),
                        sim.exp_result('ghz', _random_counts(rng, n, 100), [['c', n]]))
        if case['label'] and rng.random() < .3:
            # calibration of another label must not leak in
            exps.append(sim.exp_result('other' + str(b) + '_', _random_counts(rng, n, 50),
                                       [['c', n]]))
        res = sim.result(exps)
        if b and rng.random() < .3:     # the very same counts once more
            mon.saw('same-counts-again')
            exps, batch, res = last
            if rng.random() < .5:
                res = sim.result(exps)
        last = exps, batch, res
        arg = [res] if rng.random() < .3 else res
        if fitter is None:
            fitter = make(arg)
            history += batch
        elif case['defer'] and b < case['batches'] - 1:
            before = [np.array(m) for m in get(fitter)]
            fitter.add_data(arg, rebuild_cal_matrix=False)
            for x, y in zip(before, get(fitter)):
                mon.close(y, x, 'deferred-rebuild', 'matrix changed without rebuild')
            history += batch
            continue
        else:
            fitter.add_data(arg)
            history += batch
            mon.saw('accumulated', len(history))
        want = ref(history)
        got = get(fitter)
        mon.equal(len(got), len(want), event)
        for gi, (g, w) in enumerate(zip(got, want)):
            mon.close(g, w, event, 'calibration matrix differs from the conditional frequencies',
                      group=gi, batch=b)
            g = np.array(g)
            tot = g.sum(axis=0)
            mon.check(np.all(np.isclose(tot, 1) | np.isclose(tot, 0)) and np.all(g >= 0),
                      'column-stochastic', 'columns are not probability vectors', state=tot)
    return fitter, ref(history)


def case_complete(mon, case):
    rng = np.random.default_rng(case['seed'])
    n = case['n']
    circs, _ = complete_meas_cal(qubit_list=list(range(n)), circlabel=case['label'])
    labels = _labels(rng, n, case['order'])
    fitter, want = _drive(
        mon, rng, case, n, circs,
        lambda r: CompleteMeasFitter(r, list(labels), circlabel=case['label']),
        lambda f: [f.cal_matrix], lambda h: _ref_matrices(h, [n], [labels]), 'cal-matrix')
    mon.equal(list(fitter.state_labels), labels, 'labels-kept')
    mon.equal(len(fitter.qubit_list), n, 'labels-kept')
    _check_fidelities(mon, rng, fitter.readout_fidelity, want[0], labels)
    filt = fitter.filter
    mon.close(filt.cal_matrix, want[0], 'filter-matrix')
    mon.equal(list(filt.state_labels), labels, 'filter-matrix')


def case_tensored(mon, case):
    rng = np.random.default_rng(case['seed'])
    sizes = case['sizes']
    n = sum(sizes)
    qs = [int(x) for x in rng.permutation(n + 1)[:n]]
    pattern, i = [], 0
    for s in sizes:
        pattern.append(qs[i:i + s])
        i += s
    circs, _ = tensored_meas_cal(pattern, circlabel=case['label'])
    labels = [_labels(rng, s, case['order']) for s in sizes]
    sub = None if case['order'] == 'std' else [list(x) for x in labels]
    fitter, want = _drive(
        mon, rng, case, n, circs,
        lambda r: TensoredMeasFitter(r, pattern, substate_labels_list=sub,
                                     circlabel=case['label']),
        lambda f: f.cal_matrices, lambda h: _ref_matrices(h, sizes, labels), 'tensored-matrix')
    mon.equal(fitter.nqubits, n, 'labels-kept')
    mon.equal([list(x) for x in fitter.substate_labels_list], labels, 'labels-kept')
    for gi in range(len(sizes)):
        _check_fidelities(mon, rng, lambda g, gi=gi: fitter.readout_fidelity(gi, g), want[gi],
                          labels[gi])


def case_exact(mon, case):
    """End to end: correlated readout noise is recovered exactly."""
    rng = np.random.default_rng(case['seed'])
    n = case['n']
    qubits = [int(x) for x in rng.permutation(n + 2)[:n]]
    circs, labels = complete_meas_cal(qubit_list=qubits)
    ro = {q: sim.random_readout(rng) for q in qubits}
    res = sim.run(circs, readout=ro, exact=True, shots=1000)
    fit = CompleteMeasFitter(res, labels, qubit_list=qubits)
    mon.close(fit.cal_matrix, sim.kron_readout([ro[q] for q in qubits]), 'cal-matrix',
              'readout noise not recovered')


def case_unset(mon, case):
    labels = ['0', '1']
    fit = CompleteMeasFitter(None, labels)
    mon.raises(QiskitError, fit.readout_fidelity, 'unset-rejected')
    tf = TensoredMeasFitter(None, [[0], [1]])
    mon.raises(QiskitError, tf.readout_fidelity, 'unset-rejected')
    mon.raises(ValueError, lambda: TensoredMeasFitter(None, [[0], [1]], [['0', '1']]),
               'unset-rejected')
    mat = np.array([[.9, .2], [.1, .8]])
    fit.cal_matrix = mat
    mon.close(fit.readout_fidelity(), .85, 'fidelity')
    mat[0, 0] = 5
    mon.close(fit.cal_matrix, [[.9, .2], [.1, .8]], 'setter-copies')
