"""C03: the complete filter inverts the calibrated readout noise."""
import copy

import numpy as np
from scipy.optimize import nnls
from qiskit import QiskitError
from qiskit.ignis.mitigation.measurement import (CompleteMeasFitter, MeasurementFilter,
                                                 complete_meas_cal)
from vm import sim

PROP = 'C03'
LEVEL = 'exploration'
RULE = ('random column-stochastic matrices (1-4 qubits, weak to strong, sparse, permuted labels), '
        'data inside and outside the image of the simplex, all four data forms and both methods; '
        'a state is one distinct corrected distribution')
ASSUMPTIONS = ['SLSQP accuracy: residual within 1e-3 of the optimum relative to the shots']


def cases(rng, tier):
    n = 900 if tier == 'quick' else 12000
    for i in range(n):
        yield 'inverse', {'n': rng.choice([1, 2, 2, 3, 4]) if i % 20 else rng.choice([5, 6]), 'strength': rng.uniform(0, .45),
                          'perm': rng.random() < .5}
    for i in range(n):
        yield 'lstsq', {'n': rng.choice([1, 2, 2, 3]), 'strength': rng.uniform(0, .5),
                        'perm': rng.random() < .5, 'shots': int(10 ** rng.uniform(.5, 6)),
                        'wild': rng.random() < .4}
    for i in range(n // 2):
        yield 'forms', {'n': rng.choice([1, 2, 3]) if i % 40 else 4, 'perm': rng.random() < .5,
                        'method': rng.choice(['pseudo_inverse', 'least_squares'])}
    for i in range(n // 6):
        yield 'endtoend', {'n': rng.choice([1, 2, 3])}
    for i in range(n // 4):
        yield 'perfect', {'n': rng.choice([1, 2, 3, 4])}
    for i in range(n // 6):
        yield 'reuse', {'n': rng.choice([1, 2, 3])}
    for i in range(4):
        yield 'reject', {'n': rng.choice([1, 2, 3])}


def required_events(tier):
    return ['pinv-recovers', 'badly-conditioned', 'ls-nonnegative', 'ls-conserves-shots', 'ls-optimal', 'form-counts',
            'form-concatenated', 'form-result', 'input-unchanged', 'bad-label-rejected',
            'perfect-readout', 'new-calibration', 'fractional']


def _labels(rng, n, perm):
    labs = [sim.bits(i, n) for i in range(2 ** n)]
    return [labs[i] for i in rng.permutation(len(labs))] if perm else labs


def _matrix(rng, d, strength):
    m = sim.random_stochastic(rng, d, strength)
    if rng.random() < .25:      # independent bits, some of them almost unreadable
        m = np.eye(1)
        while len(m) < d:
            p, q = rng.uniform(0, .49 if rng.random() < .4 else .2, 2)
            m = np.kron(m, np.array([[1 - p, q], [p, 1 - q]]))
    elif rng.random() < .3:     # sparse: only neighbouring states confused
        m = (1 - strength) * np.eye(d) + strength * np.roll(np.eye(d), 1, axis=0)
    return m


def case_perfect(mon, case):
    """Readout that only relabels states, a handful of shots: the correction is exact."""
    rng = np.random.default_rng(case['seed'])
    n = case['n']
    d = 2 ** n
    mat = np.eye(d) if rng.random() < .5 else np.eye(d)[rng.permutation(d)]
    filt = MeasurementFilter(mat, [sim.bits(i, n) for i in range(d)])
    vals = rng.integers(0, 3, d)
    vals[int(rng.integers(d))] = 1
    raw = {sim.bits(i, n): int(v) for i, v in enumerate(vals) if v}
    method = 'pseudo_inverse' if rng.random() < .8 or n > 2 else 'least_squares'
    out = filt.apply(raw, method=method)
    got = np.array([out.get(sim.bits(i, n), 0) for i in range(d)], dtype=float)
    mon.close(got, np.linalg.solve(mat, vals.astype(float)), 'perfect-readout',
              'shots of a noiseless readout are lost or moved',
              atol=1e-9 if method == 'pseudo_inverse' else 1e-3 * vals.sum())
    mon.close(sum(out.values()), vals.sum(), 'perfect-readout', 'shots not conserved', atol=1e-6)


def optimum(a, r):
    """Independent minimiser of ||a x - r|| over x>=0, sum x = sum r."""
    shots = r.sum()
    w = 1e5
    z, _ = nnls(np.vstack([a, w * np.ones(a.shape[1])]), np.append(r, w * shots) / shots)
    return np.linalg.norm(a @ z - r / shots)


def check_ls(mon, a, r, y):
    shots = r.sum()
    mon.check(y.min() >= -1e-6 * shots, 'ls-nonnegative', 'negative corrected counts %s' % y.min(),
              state=np.round(y / shots, 4))
    mon.close(y.sum() / shots, 1, 'ls-conserves-shots', 'corrected counts do not sum to the shots',
              atol=1e-3)
    best = optimum(a, r)
    res = np.linalg.norm(a @ y - r) / shots
    mon.check(res <= best + 1e-3, 'ls-optimal',
              'residual %.6g but a physical distribution reaches %.6g' % (res, best))


def _vec(counts, labels):
    return np.array([counts.get(x, 0) for x in labels], dtype=float)


def case_inverse(mon, case):
    rng = np.random.default_rng(case['seed'])
    n = case['n']
    d = 2 ** n
    labels = _labels(rng, n, case['perm'])
    a = _matrix(rng, d, case['strength'])
    if np.linalg.cond(a) > 1e4:
        mon.saw('skip-ill-conditioned')
        return
    x = rng.dirichlet(np.ones(d) * rng.choice([.2, 1])) * 1000
    filt = MeasurementFilter(a.copy(), list(labels))
    out = filt.apply(list(a @ x), method='pseudo_inverse')
    mon.close(out, x, 'pinv-recovers', 'noise-free counts not recovered', atol=1e-5)
    out = filt.apply(dict(zip(labels, a @ x)), method='pseudo_inverse')
    mon.check(set(out) <= set(labels), 'pinv-recovers', 'unknown labels in output')
    mon.close(_vec(out, labels), x, 'pinv-recovers', 'noise-free counts not recovered', atol=1e-5)
    if np.linalg.cond(a) > 10:
        mon.saw('badly-conditioned')
        return
    # in range data is also the least squares optimum
    out = filt.apply(dict(zip(labels, a @ x)))
    mon.close(_vec(out, labels) / 1000, x / 1000, 'ls-recovers', atol=.02)


def case_lstsq(mon, case):
    rng = np.random.default_rng(case['seed'])
    n = case['n']
    d = 2 ** n
    labels = _labels(rng, n, case['perm'])
    a = _matrix(rng, d, case['strength'])
    p = a @ rng.dirichlet(np.ones(d) * rng.choice([.1, 1]))
    if case['wild']:
        p = rng.dirichlet(np.ones(d) * .2)
    r = rng.multinomial(case['shots'], p).astype(float)
    filt = MeasurementFilter(a, labels)
    counts = {x: int(v) for x, v in zip(labels, r) if v}
    keep = dict(counts)
    method = rng.choice(['least_squares', 'default', 'none'])
    if method == 'default':
        out = filt.apply(counts)
    elif method == 'none':
        out = filt.apply(counts, method=None)
    else:
        out = filt.apply(counts, method='least_squares')
    mon.equal(counts, keep, 'input-unchanged')
    mon.check(set(out) <= set(labels), 'ls-optimal', 'unknown labels')
    check_ls(mon, a, r, _vec(out, labels))
    if rng.random() < .3:
        # data that is not whole shots: mitigated or averaged counts
        part = r * float(rng.uniform(.05, .95))
        out = filt.apply({x: float(v) for x, v in zip(labels, part) if v})
        mon.close(sum(out.values()) / part.sum(), 1, 'fractional', 'sum of fractional data', atol=1e-2)


def case_forms(mon, case):
    rng = np.random.default_rng(case['seed'])
    n = case['n']
    d = 2 ** n
    labels = _labels(rng, n, case['perm'])
    a = sim.random_stochastic(rng, d, .3)
    method = case['method']
    filt = MeasurementFilter(a, labels)
    m = int(rng.integers(2, 5))
    data = [rng.multinomial(int(rng.integers(500, 5000)), rng.dirichlet(np.ones(d)))
            .astype(float) for _ in range(m)]
    keep = copy.deepcopy(data)

    def judge(r, y, event):
        y = np.asarray(y, dtype=float)
        if method == 'pseudo_inverse':
            mon.close(y, np.linalg.solve(a, r), event, 'correction differs from the inverse',
                      atol=1e-4)
        else:
            check_ls(mon, a, r, y)
            mon.saw(event)

    dicts = [dict(zip(labels, map(float, r))) for r in data]
    for r, dd in zip(data, dicts):
        before = dict(dd)
        judge(r, _vec(filt.apply(dd, method=method), labels), 'form-counts')
        mon.equal(dd, before, 'input-unchanged')
        lst = [float(v) for v in r]
        before = list(lst)
        judge(r, filt.apply(lst, method=method), 'form-list')
        mon.equal(lst, before, 'input-unchanged')
    flat = [float(v) for r in data for v in r]
    before = list(flat)
    out = np.asarray(filt.apply(flat, method=method))
    mon.equal(out.shape, (m * d,), 'form-concatenated', fatal=True)
    mon.equal(flat, before, 'input-unchanged')
    for i, r in enumerate(data):
        judge(r, out[i * d:(i + 1) * d], 'form-concatenated')
    res = sim.result([sim.exp_result('e%d' % i, {x: int(v) for x, v in dd.items() if v},
                                     [['c', n]]) for i, dd in enumerate(dicts)])
    before = copy.deepcopy(res.to_dict())
    new = filt.apply(res, method=method)
    mon.equal(res.to_dict(), before, 'input-unchanged', 'the given result was modified')
    mon.check(new is not res, 'input-unchanged')
    mon.equal(len(new.results), m, 'form-result')
    for i, r in enumerate(data):
        judge(r, _vec(new.get_counts(i), labels), 'form-result')
        judge(r, _vec(new.get_counts('e%d' % i), labels), 'form-result')
    # experiments of one name (the same circuit run twice) are corrected one by one
    for exp in res.results:
        exp.header.name = 'same'
    new = filt.apply(res, method=method)
    for i, r in enumerate(data):
        judge(r, _vec(new.get_counts(i), labels), 'form-result')
    mon.equal([list(x) for x in data], [list(x) for x in keep], 'input-unchanged')
    mon.close(filt.cal_matrix, a, 'filter-unchanged')
    mon.equal(list(filt.state_labels), labels, 'filter-unchanged')


def case_endtoend(mon, case):
    """calibrate, fit, filter with independent per-qubit noise."""
    rng = np.random.default_rng(case['seed'])
    n = case['n']
    qubits = [int(q) for q in rng.permutation(n + 1)[:n]]
    ro = {q: sim.random_readout(rng) for q in qubits}
    circs, labels = complete_meas_cal(qubit_list=qubits)
    fit = CompleteMeasFitter(sim.run(circs, readout=ro, exact=True, shots=10000), labels)
    x = rng.dirichlet(np.ones(2 ** n) * .5) * 5000
    full = sim.kron_readout([ro[q] for q in qubits])
    raw = {sim.bits(i, n): v for i, v in enumerate(full @ x)}
    for method in ('pseudo_inverse', 'least_squares'):
        out = fit.filter.apply(raw, method=method)
        mon.close(_vec(out, labels), x, 'end-to-end-' + method, 'calibrated noise not undone',
                  atol=1e-3 if method == 'pseudo_inverse' else 75)


def case_reuse(mon, case):
    """One filter whose calibration is replaced: every correction uses the current one."""
    rng = np.random.default_rng(case['seed'])
    n = case['n']
    d = 2 ** n
    labels = _labels(rng, n, rng.random() < .5)
    a = sim.random_stochastic(rng, d, .3)
    filt = MeasurementFilter(a, list(labels))
    for _ in range(5):
        x = rng.dirichlet(np.ones(d)) * 1000
        method = 'pseudo_inverse' if rng.random() < .7 else 'least_squares'
        r = a @ x
        out = _vec(filt.apply(dict(zip(labels, r)), method=method), labels)
        if method == 'pseudo_inverse':
            mon.close(out, x, 'new-calibration', 'not corrected with the current calibration',
                      atol=1e-5)
        else:
            check_ls(mon, a, r, out)
        what = int(rng.integers(3))
        if what != 0:
            a = sim.random_stochastic(rng, d, .3)
            filt.cal_matrix = a
        if what != 1:
            labels = _labels(rng, n, True)
            filt.state_labels = list(labels)
        mon.close(filt.cal_matrix, a, 'new-calibration')
        mon.equal(list(filt.state_labels), labels, 'new-calibration')


def case_reject(mon, case):
    n = case['n']
    labels = [sim.bits(i, n) for i in range(2 ** n)]
    filt = MeasurementFilter(np.eye(2 ** n), labels)
    mon.raises(QiskitError, lambda: filt.apply({'0' * (n + 1): 5}), 'bad-label-rejected')
    mon.raises(QiskitError, lambda: filt.apply({'2' * n: 5, labels[0]: 3}), 'bad-label-rejected')
    wide = [sim.bits(i, 6) for i in range(64)]
    spoiled = {x: 3 for x in wide}
    spoiled['0' * 5 + 'x'] = 1
    for bad in (spoiled, {x: 3 for x in wide + ['0' * 7]}):
        mon.raises(QiskitError, lambda bad=bad: MeasurementFilter(np.eye(64), wide).apply(
            bad, method='pseudo_inverse'), 'bad-label-rejected', 'unknown label among many')
    mon.raises(QiskitError, lambda: filt.apply([1.0] * (2 ** n + 1)), 'bad-length-rejected')
    mon.raises(QiskitError, lambda: filt.apply(17), 'bad-type-rejected')
    mon.raises(QiskitError, lambda: filt.apply({labels[0]: 3}, method='nope'),
               'bad-method-rejected')
