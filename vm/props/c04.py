"""C04: tensored correction equals correction by the tensor product matrix."""
import copy

import numpy as np
from qiskit import QiskitError
from qiskit.ignis.mitigation.measurement import (TensoredFilter, TensoredMeasFitter,
                                                 tensored_meas_cal)
from vm import sim
from vm.props.c03 import check_ls

PROP = 'C04'
LEVEL = 'exploration'
RULE = ('random groupings (1-4 groups, up to 5 qubits), random group matrices and substate label '
        'orders, random counts; a state is one distinct corrected distribution')
ASSUMPTIONS = ['SLSQP accuracy as in C03']


def _sizes(rng, maxq, big=0):
    sizes, left = [], rng.randint(1, maxq)
    if big and rng.random() < .15:
        left = rng.randint(maxq, big)
    top = 3 if rng.random() < .8 else 6
    while left:
        k = rng.randint(1, min(left, top))
        sizes.append(k)
        left -= k
    return sizes


def cases(rng, tier):
    n = 250 if tier == 'quick' else 4000
    for i in range(n):
        yield 'pinv', {'sizes': _sizes(rng, 5, 9), 'perm': rng.random() < .4}
    for i in range(n // 2):
        yield 'lstsq', {'sizes': _sizes(rng, 3, 4), 'perm': rng.random() < .4,
                        'wild': rng.random() < .4}
    for i in range(n // 4):
        yield 'endtoend', {'sizes': _sizes(rng, 4, 8)}
    for i in range(n // 2):
        yield 'perfect', {'sizes': _sizes(rng, 4, 8)}
    for i in range(n // 3):
        yield 'reuse', {'sizes': _sizes(rng, 4)}
    for i in range(2):
        yield 'reject', {}


def required_events(tier):
    return ['pinv-equals-tensor', 'ls-optimal', 'form-result', 'end-to-end', 'input-unchanged', 'perfect-readout',
            'new-calibration']


def _setup(rng, sizes, perm):
    mats, labels, std = [], [], []
    for s in sizes:
        d = 2 ** s
        m = sim.random_stochastic(rng, d, rng.uniform(0, .4 if sum(sizes) < 6 else .2))
        order = rng.permutation(d) if perm else np.arange(d)
        std.append(m)
        labels.append([sim.bits(int(i), s) for i in order])
        mats.append(m[np.ix_(order, order)])
    full = np.eye(1)
    for m in std:
        full = np.kron(m, full)
    return mats, labels, full


def _vec(counts, n):
    v = np.zeros(2 ** n)
    for k, c in counts.items():
        v[int(k, 2)] += c
    return v


def case_pinv(mon, case):
    rng = np.random.default_rng(case['seed'])
    sizes = case['sizes']
    n = sum(sizes)
    mats, labels, full = _setup(rng, sizes, case['perm'])
    filt = TensoredFilter([m.copy() for m in mats], [list(x) for x in labels])
    mon.equal(filt.nqubits, n, 'shape')
    x = rng.dirichlet(np.ones(2 ** n) * .3) * 1000
    if rng.random() < .4:
        x[rng.random(2 ** n) < .5] = 0
    raw = {sim.bits(i, n): float(v) for i, v in enumerate(x) if v}
    if not raw:
        return
    keep = dict(raw)
    out = filt.apply(raw, method='pseudo_inverse')
    mon.equal(raw, keep, 'input-unchanged')
    mon.close(_vec(out, n), np.linalg.solve(full, x), 'pinv-equals-tensor',
              'tensored correction differs from the tensor product inverse', atol=1e-5)
    mon.check(all(len(k) == n for k in out), 'pinv-equals-tensor')
    ints = [{sim.bits(i, n): int(v) for i, v in enumerate(rng.multinomial(
        500, rng.dirichlet(np.ones(2 ** n)))) if v} for _ in range(3)]
    res = sim.result([sim.exp_result('r%d' % i, c, [['c', n]]) for i, c in enumerate(ints)])
    before = copy.deepcopy(res.to_dict())
    new = filt.apply(res, method='pseudo_inverse')
    mon.equal(res.to_dict(), before, 'input-unchanged')
    for i, c in enumerate(ints):
        mon.close(_vec(new.get_counts(i), n), np.linalg.solve(full, _vec(c, n)), 'form-result',
                  atol=1e-5)
    for exp in res.results:         # the same circuit run several times
        exp.header.name = 'same'
    new = filt.apply(res, method='pseudo_inverse')
    for i, c in enumerate(ints):
        mon.close(_vec(new.get_counts(i), n), np.linalg.solve(full, _vec(c, n)), 'form-result',
                  atol=1e-5)
    for m, k in zip(mats, filt.cal_matrices):
        mon.close(k, m, 'filter-unchanged')


def case_perfect(mon, case):
    """Readout that only relabels states, a handful of shots: the correction is exact."""
    rng = np.random.default_rng(case['seed'])
    sizes = case['sizes']
    n = sum(sizes)
    mats = [np.eye(2 ** s) if rng.random() < .5 else np.eye(2 ** s)[rng.permutation(2 ** s)]
            for s in sizes]
    full = np.eye(1)
    for m in mats:
        full = np.kron(m, full)
    filt = TensoredFilter(mats, [[sim.bits(i, s) for i in range(2 ** s)] for s in sizes])
    vals = rng.integers(0, 3, 2 ** n)
    vals[int(rng.integers(2 ** n))] = 1
    raw = {sim.bits(i, n): int(v) for i, v in enumerate(vals) if v}
    method = 'pseudo_inverse' if rng.random() < .8 or n > 2 else 'least_squares'
    out = filt.apply(raw, method=method)
    mon.close(_vec(out, n), np.linalg.solve(full, vals.astype(float)), 'perfect-readout',
              'shots of a noiseless readout are lost or moved',
              atol=1e-9 if method == 'pseudo_inverse' else 1e-3 * vals.sum())
    mon.close(sum(out.values()), vals.sum(), 'perfect-readout', 'shots not conserved', atol=1e-6)


def case_lstsq(mon, case):
    rng = np.random.default_rng(case['seed'])
    sizes = case['sizes']
    n = sum(sizes)
    mats, labels, full = _setup(rng, sizes, case['perm'])
    filt = TensoredFilter(mats, labels)
    p = full @ rng.dirichlet(np.ones(2 ** n) * .5)
    if case['wild']:
        p = rng.dirichlet(np.ones(2 ** n) * .2)
    r = rng.multinomial(int(10 ** rng.uniform(1, 5)), p).astype(float)
    raw = {sim.bits(i, n): int(v) for i, v in enumerate(r) if v}
    keep = dict(raw)
    args = [(), ('least_squares',), (None,)][int(rng.integers(3))]
    out = filt.apply(raw, *args)
    mon.equal(raw, keep, 'input-unchanged')
    check_ls(mon, full, r, _vec(out, n))
    if rng.random() < .4:
        res = sim.result([sim.exp_result('a', raw, [['c', n]])])
        check_ls(mon, full, r, _vec(filt.apply(res, *args).get_counts(0), n))
        mon.saw('form-result')


def case_endtoend(mon, case):
    rng = np.random.default_rng(case['seed'])
    sizes = case['sizes']
    n = sum(sizes)
    qs = [int(x) for x in rng.permutation(n + 1 if rng.random() < .7 else n + 6)[:n]]
    pattern, i = [], 0
    for s in sizes:
        pattern.append(qs[i:i + s])
        i += s
    ro = {q: sim.random_readout(rng) for q in qs}
    circs, _ = tensored_meas_cal(pattern)
    fit = TensoredMeasFitter(sim.run(circs, readout=ro, exact=True, shots=1000), pattern)
    x = rng.dirichlet(np.ones(2 ** n) * .5) * 1000
    full = sim.kron_readout([ro[q] for q in qs])
    raw = {sim.bits(j, n): float(v) for j, v in enumerate(full @ x)}
    out = fit.filter.apply(raw, method='pseudo_inverse')
    mon.close(_vec(out, n), x, 'end-to-end', 'calibrated noise not undone', atol=1e-4)


def case_reuse(mon, case):
    """One filter whose calibration is replaced: every correction uses the current one."""
    rng = np.random.default_rng(case['seed'])
    sizes = list(case['sizes'])
    n = sum(sizes)
    mats, labels, full = _setup(rng, sizes, rng.random() < .5)
    filt = TensoredFilter([m.copy() for m in mats], [list(x) for x in labels])
    for _ in range(4):
        x = rng.dirichlet(np.ones(2 ** n)) * 1000
        r = full @ x
        raw = {sim.bits(i, n): float(v) for i, v in enumerate(r) if v}
        out = filt.apply(raw, method='pseudo_inverse')
        mon.close(_vec(out, n), x, 'new-calibration', 'not corrected with the current calibration',
                  atol=1e-5)
        if n <= 2:
            check_ls(mon, full, r, _vec(filt.apply(raw), n))
        # the groups may be split differently from now on
        if rng.random() < .7:
            sizes = [int(s) for s in rng.permutation(sizes)]
            if rng.random() < .3:
                sizes = [1] * n
            mats, labels, full = _setup(rng, sizes, True)
            filt.substate_labels_list = [list(x) for x in labels]
        else:
            mats = []
            full = np.eye(1)
            for lab in labels:
                m = sim.random_stochastic(rng, len(lab), .3)
                order = [int(z, 2) for z in lab]
                mats.append(m[np.ix_(order, order)])
                full = np.kron(m, full)
        given = [m.copy() for m in mats]
        filt.cal_matrices = given
        given[0][:] = 0         # the filter keeps its own copy
        mon.equal(filt.nqubits, n, 'new-calibration')
        mon.equal(list(filt.qubit_list_sizes), sizes, 'new-calibration')
        mon.equal([list(z) for z in filt.substate_labels_list], [list(z) for z in labels],
                  'new-calibration')


def case_reject(mon, case):
    filt = TensoredFilter([np.eye(2), np.eye(2)], [['0', '1'], ['0', '1']])
    mon.raises(QiskitError, lambda: filt.apply(5), 'bad-type-rejected')
    mon.raises(QiskitError, lambda: filt.apply({'00': 5}, method='x'), 'bad-method-rejected')
