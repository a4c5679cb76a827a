"""C06: mitigated expectation values equal the noise-free expectation values."""
import copy

import numpy as np
import scipy.linalg as la
from qiskit.ignis.mitigation.expval import (CompleteExpvalMeasMitigator,
                                            CTMPExpvalMeasMitigator,
                                            TensoredExpvalMeasMitigator, expectation_value)
from qiskit.ignis.mitigation.expval.utils import counts_probability_vector
from vm import sim

PROP = 'C06'
LEVEL = 'exploration'
RULE = ('random assignment matrices (complete, tensored, CTMP generators), random diagonals, '
        'ordered qubit subsets and clbit subsets; the counts are the exact noisy distribution, so '
        'the mitigated value must be the noise-free value; a state is one distinct value')
ASSUMPTIONS = ['CTMP values are Monte-Carlo estimates, judged at 7 standard errors']


def cases(rng, tier):
    n = 400 if tier == 'quick' else 2500
    for i in range(n):
        yield 'exact', {'n': rng.randint(1, 4) if i % 12 else rng.choice([5, 6]), 'how': rng.choice(['complete', 'tensored']),
                        'diag': rng.choice(['none', 'random', 'proj'])}
    for i in range(n):
        yield 'subset', {'n': rng.randint(2, 4) if i % 12 else rng.choice([5, 6]), 'how': rng.choice(['complete', 'tensored']),
                         'diag': rng.choice(['none', 'random', 'proj']),
                         'order': rng.choice(['sorted', 'perm']),
                         'clbits': rng.choice(['all', 'some', 'none'])}
    for i in range(n // 3):
        yield 'plain', {'n': rng.randint(1, 4) if i % 8 else rng.choice([6, 8, 10, 12]), 'diag': rng.choice(['none', 'random'])}
    for i in range(40 if tier == 'quick' else 250):
        yield 'ctmp', {'n': rng.randint(1, 3), 'diag': rng.choice(['none', 'random', 'proj']),
                       'pair': rng.random() < .5}
    for i in range(n // 4):
        yield 'vector', {}
    for i in range(10):
        yield 'ctmpzero', {}
    for i in range(24 if tier == 'quick' else 120):
        yield 'ctmpsub', {'n': rng.randint(2, 3), 'diag': rng.choice(['none', 'random'])}


def required_events(tier):
    return ['unbiased-complete', 'unbiased-tensored', 'unbiased-ctmp', 'unbiased-ctmp-subset',
            'unbiased-subset', 'unmitigated', 'stddev', 'input-unchanged', 'ctmp-zero',
            'probability-vector']


SHOTS = 10 ** 6


def _diag(rng, n, kind):
    if kind == 'none':
        return None, np.array([(-1) ** bin(i).count('1') for i in range(2 ** n)], dtype=float)
    if kind == 'proj':
        d = np.zeros(2 ** n)
        d[rng.integers(2 ** n)] = 1
    else:
        d = rng.normal(size=2 ** n)
    arg = list(map(float, d)) if rng.random() < .5 else d.copy()
    return arg, d


def _counts(p, n, shots=SHOTS):
    return {sim.bits(i, n): float(v) * shots for i, v in enumerate(p)}


def _std(coeffs, p, shots=SHOTS):
    var = (coeffs ** 2) @ p - (coeffs @ p) ** 2
    return np.sqrt(max(var, 0) / shots)


def _mitigator(rng, how, n):
    """returns mitigator, per-qubit matrices or full matrix"""
    ros = [sim.random_readout(rng, 0, .3) for _ in range(n)]
    if how == 'tensored':
        return TensoredExpvalMeasMitigator([m.copy() for m in ros]), ros
    return CompleteExpvalMeasMitigator(sim.kron_readout(ros)), ros


def case_exact(mon, case):
    rng = np.random.default_rng(case['seed'])
    n = case['n']
    mit, ros = _mitigator(rng, case['how'], n)
    a = sim.kron_readout(ros)
    if case['how'] == 'complete' and rng.random() < .7:
        a = sim.random_stochastic(rng, 2 ** n, rng.uniform(0, .4))   # correlated
        mit = CompleteExpvalMeasMitigator(a.copy())
    x = rng.dirichlet(np.ones(2 ** n) * .5)
    shots = [SHOTS, 8, 1, 1024][case['seed'] % 4]
    counts = _counts(a @ x, n, shots)
    arg, d = _diag(rng, n, case['diag'])
    keep, keepd = dict(counts), copy.deepcopy(arg)
    kwargs = {}
    if rng.random() < .4:
        kwargs['qubits'] = list(range(n))
    if rng.random() < .4:
        kwargs['clbits'] = list(range(n))
    if rng.random() < .5:
        val, std = mit.expectation_value(counts, diagonal=arg, **kwargs)
    else:
        val, std = expectation_value(counts, diagonal=arg, meas_mitigator=mit, **kwargs)
    mon.close(val, d @ x, 'unbiased-' + case['how'], 'mitigated value differs from the ideal value',
              atol=1e-6)
    coeffs = np.linalg.solve(a.T, d)
    mon.close(std, _std(coeffs, a @ x, shots), 'stddev', 'standard deviation', atol=1e-6,
              rtol=1e-4)
    mon.equal(counts, keep, 'input-unchanged')
    mon.check(np.array_equal(np.asarray(arg, dtype=object), np.asarray(keepd, dtype=object)),
              'input-unchanged', 'diagonal modified')
    # repeat on the same mitigator (cached inverses must not go stale)
    val2, _ = mit.expectation_value(_counts(a @ x[::-1], n), diagonal=arg)
    mon.close(val2, d @ x[::-1], 'unbiased-repeat', atol=1e-6)


def case_subset(mon, case):
    """measure(qubits, clbits) of a subset of the calibrated qubits."""
    rng = np.random.default_rng(case['seed'])
    n = case['n']
    mit, ros = _mitigator(rng, case['how'], n)
    for _ in range(2):
        k = int(rng.integers(1, n + 1))
        qubits = [int(q) for q in rng.permutation(n)[:k]]
        if case['order'] == 'sorted':
            qubits = sorted(qubits)
        a = sim.kron_readout([ros[q] for q in qubits])
        x = rng.dirichlet(np.ones(2 ** k) * .5)
        arg, d = _diag(rng, k, case['diag'])
        p = a @ x
        kwargs = {'qubits': list(qubits) if rng.random() < .7 else tuple(qubits)}
        if case['clbits'] == 'none':
            counts = _counts(p, k)
        else:
            extra = 0 if case['clbits'] == 'all' else 2
            m = k + extra
            clbits = [int(c) for c in rng.permutation(m)[:k]]
            if case['order'] == 'sorted':
                clbits = sorted(clbits)
            other = rng.dirichlet(np.ones(2 ** extra))
            rest = [c for c in range(m) if c not in clbits]
            counts = {}
            for i, v in enumerate(p):
                for j, w in enumerate(other):
                    key = sum(((i >> b) & 1) << c for b, c in enumerate(clbits)) + \
                        sum(((j >> b) & 1) << c for b, c in enumerate(rest))
                    counts[sim.bits(key, m)] = v * w * SHOTS
            kwargs['clbits'] = clbits
        val, std = expectation_value(counts, diagonal=arg, meas_mitigator=mit, **kwargs)
        mon.close(val, d @ x, 'unbiased-subset', 'mitigated value differs from the ideal value',
                  atol=1e-6, kwargs=kwargs)
        mon.close(std, _std(np.linalg.solve(a.T, d), p), 'stddev', atol=1e-7, rtol=1e-4)
    # default qubits for fewer bits than calibrated qubits
    k = int(rng.integers(1, n + 1))
    a = sim.kron_readout(ros[:k])
    x = rng.dirichlet(np.ones(2 ** k))
    arg, d = _diag(rng, k, case['diag'])
    val, _ = mit.expectation_value(_counts(a @ x, k), diagonal=arg)
    mon.close(val, d @ x, 'unbiased-subset', 'default qubits are not 0..n-1', atol=1e-6)


def case_plain(mon, case):
    rng = np.random.default_rng(case['seed'])
    n = case['n']
    k = int(rng.integers(1, n + 1))
    clbits = [int(c) for c in rng.permutation(n)[:k]]
    if rng.random() < .5:
        clbits = sorted(clbits)
    p = rng.dirichlet(np.ones(2 ** n))
    p[rng.random(2 ** n) < .2] = 0
    if p.sum() == 0:
        p[0] = 1
    p /= p.sum()
    shots = [SHOTS, 8, 1, 1024][case['seed'] % 4]
    counts = {b: v for b, v in _counts(p, n, shots).items() if v}
    q = np.zeros(2 ** k)
    for i, v in enumerate(p):
        q[sum(((i >> c) & 1) << b for b, c in enumerate(clbits))] += v
    arg, d = _diag(rng, k, case['diag'])
    val, std = expectation_value(counts, diagonal=arg, clbits=clbits)
    mon.close(val, d @ q, 'unmitigated', 'plain expectation value', atol=1e-6)
    mon.close(std, _std(d, q, shots), 'stddev', atol=1e-6, rtol=1e-4)
    arg, d = _diag(rng, n, case['diag'])
    val, std = expectation_value(counts, diagonal=arg)
    mon.close(val, d @ p, 'unmitigated', 'plain expectation value', atol=1e-6)
    mon.close(std, _std(d, p, shots), 'stddev', atol=1e-6, rtol=1e-4)


def ctmp_generators(rng, n, pair, lo=.01, hi=.12):
    gens, rates = [], []
    for q in range(n):
        for b, a in (('1', '0'), ('0', '1')):
            gens.append((b, a, (q,)))
            rates.append(rng.uniform(lo, hi))
    if pair and n > 1:
        for _ in range(2):
            i, j = [int(z) for z in rng.permutation(n)[:2]]
            b, a = [('11', '00'), ('00', '11'), ('10', '01')][int(rng.integers(3))]
            if (b, a, (i, j)) not in gens:
                gens.append((b, a, (i, j)))
                rates.append(rng.uniform(lo, hi))
    return gens, rates


def ctmp_matrix(gens, rates, n):
    """expm(sum_i r_i (|b><a| - |a><a|)) with string character k on qubit C[k]."""
    g = np.zeros((2 ** n, 2 ** n))
    for (b, a, c), r in zip(gens, rates):
        for src in range(2 ** n):
            if all((src >> q) & 1 == int(ch) for q, ch in zip(c, a)):
                dst = src
                for q, ch in zip(c, b):
                    dst = dst & ~(1 << q) | (int(ch) << q)
                g[dst, src] += r
                g[src, src] -= r
    return la.expm(g), g


def _ctmp_value(mon, mit, p, n, arg, d, want, event, gamma, shotsel=1, **kwargs):
    shots = [500, 20000, 150000][shotsel % 3]
    counts = {sim.bits(i, n): float(v) * shots for i, v in enumerate(p)}
    keep = dict(counts)
    val, std = mit.expectation_value(counts, diagonal=arg, **kwargs)
    mon.equal(counts, keep, 'input-unchanged')
    tol = 7 * np.exp(gamma) * np.abs(d).max() / np.sqrt(max(shots, 1600))
    mon.close(val, want, event, 'mitigated value differs from the ideal value', atol=tol, rtol=0)
    mon.check(0 <= std, 'stddev')
    return val


def case_ctmp(mon, case):
    rng = np.random.default_rng(case['seed'])
    n = case['n']
    gens, rates = ctmp_generators(rng, n, case['pair'])
    a, g = ctmp_matrix(gens, rates, n)
    gamma = -np.diag(g).min()
    x = rng.dirichlet(np.ones(2 ** n) * .4)
    arg, d = _diag(rng, n, case['diag'])
    mit = CTMPExpvalMeasMitigator(gens, rates, num_qubits=n, seed=case['seed'])
    mon.close(mit.noise_strength(), gamma, 'ctmp-noise-strength', 'gamma', atol=1e-6)
    # weak noise is noise too
    weak = [r * float(rng.choice([.003, .01, .1])) for r in rates]
    mon.close(CTMPExpvalMeasMitigator(gens, weak, num_qubits=n).assignment_matrix(),
              ctmp_matrix(gens, weak, n)[0], 'ctmp-weak', 'assignment matrix of weak noise',
              atol=2e-5 * len(gens) + 1e-9, rtol=0)
    v1 = _ctmp_value(mon, mit, a @ x, n, arg, d, d @ x, 'unbiased-ctmp', gamma, shotsel=case['seed'])
    mit2 = CTMPExpvalMeasMitigator(gens, rates, num_qubits=n, seed=case['seed'])
    v2 = _ctmp_value(mon, mit2, a @ x, n, arg, d, d @ x, 'unbiased-ctmp', gamma, shotsel=case['seed'])
    mon.close(v1, v2, 'ctmp-seed-reproducible', 'same seed gave different values', atol=1e-12)
    mit.seed(case['seed'] if case['seed'] % 2 else np.random.default_rng(case['seed']))
    v3 = _ctmp_value(mon, mit, a @ x, n, arg, d, d @ x, 'unbiased-ctmp', gamma, shotsel=case['seed'])
    mon.close(v1, v3, 'ctmp-seed-reproducible', 'seeded again, different values', atol=1e-12)
    perm = [int(q) for q in rng.permutation(n)]
    y = np.zeros(2 ** n)
    for i, v in enumerate(a @ x):
        y[sum(((i >> q) & 1) << b for b, q in enumerate(perm))] += v
    xx = np.zeros(2 ** n)
    for i, v in enumerate(x):
        xx[sum(((i >> q) & 1) << b for b, q in enumerate(perm))] += v
    _ctmp_value(mon, mit, y, n, arg, d, d @ xx, 'unbiased-ctmp', gamma, qubits=perm)


def case_ctmpzero(mon, case):
    """Noise-free generators: nothing to mitigate."""
    rng = np.random.default_rng(case['seed'])
    n = int(rng.integers(1, 4))
    gens, rates = ctmp_generators(rng, n, n > 1)
    mit = CTMPExpvalMeasMitigator(gens, [0.0] * len(rates), num_qubits=n, seed=case['seed'])
    mon.close(mit.noise_strength(), 0, 'ctmp-zero', 'strength of no noise', atol=0)
    mon.close(mit.assignment_matrix(), np.eye(2 ** n), 'ctmp-zero', 'matrix of no noise')
    x = rng.dirichlet(np.ones(2 ** n))
    arg, d = _diag(rng, n, 'random')
    shots = 4000
    val, _ = mit.expectation_value({sim.bits(i, n): float(v) * shots for i, v in enumerate(x)},
                                   diagonal=arg)
    mon.close(val, d @ x, 'ctmp-zero', 'value without noise',
              atol=7 * np.abs(d).max() / np.sqrt(shots), rtol=0)


def case_vector(mon, case):
    """Counts as a probability vector over sorted qubits."""
    rng = np.random.default_rng(case['seed'])
    n = int(rng.integers(1, 5))
    vals = rng.integers(0, 50, 2 ** n)
    vals[int(rng.integers(2 ** n))] += 1
    counts = {sim.bits(i, n): int(v) for i, v in enumerate(vals) if v}
    vec = counts_probability_vector(counts)
    mon.close(vec, vals / vals.sum(), 'probability-vector', 'frequencies of the outcomes')
    vec, shots = counts_probability_vector(counts, return_shots=True)
    mon.close(vec, vals / vals.sum(), 'probability-vector', 'frequencies of the outcomes')
    mon.close(shots, vals.sum(), 'probability-vector', 'number of shots', atol=0)
    perm = [int(q) for q in rng.permutation(n)]
    want = np.zeros(2 ** n)
    for i, v in enumerate(vals):
        want[sum(((i >> b) & 1) << q for b, q in enumerate(perm))] += v / vals.sum()
    mon.close(counts_probability_vector(counts, qubits=perm), want, 'probability-vector',
              'bits not moved to their qubits')
    bits = [int(q) for q in rng.permutation(n)[:int(rng.integers(1, n + 1))]]
    want = np.zeros(2 ** len(bits))
    for i, v in enumerate(vals):
        want[sum(((i >> q) & 1) << k for k, q in enumerate(bits))] += v / vals.sum()
    mon.close(counts_probability_vector(counts, clbits=bits), want, 'probability-vector',
              'marginal of the classical bits')


def case_ctmpsub(mon, case):
    rng = np.random.default_rng(case['seed'])
    n = case['n']
    gens, rates = ctmp_generators(rng, n, False)
    mit = CTMPExpvalMeasMitigator(gens, rates, num_qubits=n, seed=case['seed'])
    k = int(rng.integers(1, n))
    qubits = [int(q) for q in rng.permutation(n)[:k]]
    a = np.eye(1)
    for q in qubits:
        sub = [((b, s, (0,)), r) for (b, s, c), r in zip(gens, rates) if c == (q,)]
        a = np.kron(ctmp_matrix([z[0] for z in sub], [z[1] for z in sub], 1)[0], a)
    x = rng.dirichlet(np.ones(2 ** k))
    arg, d = _diag(rng, k, case['diag'])
    _ctmp_value(mon, mit, a @ x, k, arg, d, d @ x, 'unbiased-ctmp-subset', .3 * k, qubits=qubits)
    sub = list(range(k))
    a = np.eye(1)
    for q in sub:
        s2 = [((b, s, (0,)), r) for (b, s, c), r in zip(gens, rates) if c == (q,)]
        a = np.kron(ctmp_matrix([z[0] for z in s2], [z[1] for z in s2], 1)[0], a)
    _ctmp_value(mon, mit, a @ x, k, arg, d, d @ x, 'unbiased-ctmp-subset', .3 * k)
