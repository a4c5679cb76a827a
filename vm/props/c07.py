"""C07: assignment/mitigation matrices, fidelities, overheads of expval mitigators agree."""
import numpy as np
from qiskit.ignis.mitigation.expval import (CompleteExpvalMeasMitigator,
                                            CTMPExpvalMeasMitigator,
                                            TensoredExpvalMeasMitigator)
from vm import sim
from vm.props.c06 import ctmp_generators, ctmp_matrix

PROP = 'C07'
LEVEL = 'exploration'
RULE = ('random mitigators of each kind queried in random order (cached and fresh) for random '
        'qubit subsets; a state is one distinct matrix')
ASSUMPTIONS = []


def cases(rng, tier):
    n = 150 if tier == 'quick' else 2000
    for i in range(n):
        yield 'tensored', {'n': rng.randint(1, 4) if i % 10 else rng.choice([5, 6, 7, 8])}
        yield 'complete', {'n': rng.randint(1, 4) if i % 10 else rng.choice([5, 6])}
        yield 'ctmp', {'n': rng.randint(1, 4)}
    for i in range(n // 10):
        yield 'singular', {'n': rng.randint(1, 3)}


def required_events(tier):
    return ['assignment-tensored', 'assignment-complete', 'assignment-ctmp', 'inverse', 'overhead',
            'required-shots', 'fidelity', 'stochastic', 'singular']


def _common(mon, mit, a, gamma, **kw):
    """a: expected assignment matrix for the query kw."""
    amat = np.asarray(mit.assignment_matrix(**kw))
    mmat = np.asarray(mit.mitigation_matrix(**kw))
    mon.close(amat @ mmat, np.eye(len(a)), 'inverse', 'mitigation is not the inverse', atol=1e-7)
    mon.close(amat.sum(axis=0), np.ones(len(a)), 'stochastic', atol=1e-7)
    mon.close(mit.assignment_fidelity(**kw), np.trace(a) / len(a), 'fidelity',
              'assignment fidelity', atol=1e-7)
    if gamma is None:
        return
    want = gamma ** 2
    got = mit.mitigation_overhead(**kw)
    mon.check(got == int(np.ceil(want)) or abs(want - round(want)) < 1e-6, 'overhead',
              'mitigation overhead', state=(got, round(want, 6)), got=got, want=want)
    for delta in (.5, .1, .013):
        s = mit.required_shots(delta, **kw)
        w = 4 * want / delta ** 2
        mon.check(abs(s - w) <= 1 + 1e-6 * w and s >= w * (1 - 1e-6), 'required-shots',
                  'required shots', state=s, got=s, want=w)
    for shots in (1, 100, 12345):
        mon.close(mit.stddev_upper_bound(shots=shots, **kw), gamma / np.sqrt(shots), 'stddev-bound',
                  'standard deviation bound')


def _queries(rng, n, ints=False):
    qs = [None]
    for _ in range(3):
        qs.append(sorted(int(q) for q in rng.permutation(n)[:int(rng.integers(1, n + 1))]))
    qs.append(qs[1])            # again, now cached
    if ints:
        qs.append(int(rng.integers(n)))
    qs.append(None)
    return qs


def _gamma(a):
    return np.abs(np.linalg.inv(a)).sum(axis=0).max()


def case_tensored(mon, case):
    rng = np.random.default_rng(case['seed'])
    n = case['n']
    ros = [sim.random_readout(rng, 0, .3) for _ in range(n)]
    mit = TensoredExpvalMeasMitigator([m.copy() for m in ros])
    for q in _queries(rng, n, True):
        qq = list(range(n)) if q is None else [q] if isinstance(q, int) else q
        if rng.random() < .5 and isinstance(q, list):
            qq = q = [int(z) for z in rng.permutation(q)]
        a = sim.kron_readout([ros[z] for z in qq])
        kw = {} if q is None else {'qubits': q}
        mon.close(mit.assignment_matrix(**kw), a, 'assignment-tensored', 'assignment matrix',
                  qubits=q)
        _common(mon, mit, a, None if isinstance(q, int) else _gamma(a), **kw)


def case_complete(mon, case):
    rng = np.random.default_rng(case['seed'])
    n = case['n']
    prod = rng.random() < .6
    ros = [sim.random_readout(rng, 0, .3) for _ in range(n)]
    full = sim.kron_readout(ros) if prod else sim.random_stochastic(rng, 2 ** n, .4)
    mit = CompleteExpvalMeasMitigator(full.copy())
    for q in _queries(rng, n):
        kw = {} if q is None else {'qubits': q}
        if q is None:
            a = full
        elif prod:
            a = sim.kron_readout([ros[z] for z in q])
        else:
            if np.linalg.cond(mit.assignment_matrix(**kw)) > 1e6:
                continue
            a = np.asarray(mit.assignment_matrix(**kw))
            # every column is some mixture of the true conditional distributions
            lo, hi = _marginal_range(full, n, q)
            mon.check(np.all(a >= lo - 1e-9) and np.all(a <= hi + 1e-9), 'marginal-range',
                      'marginal outside the range of the conditional distributions')
        mon.close(mit.assignment_matrix(**kw), a, 'assignment-complete', 'assignment matrix',
                  qubits=q)
        _common(mon, mit, a, _gamma(a), **kw)
    if n > 1:                   # order of the qubits keeps matrices inverse of each other
        q = [int(z) for z in rng.permutation(n)]
        a = np.asarray(mit.assignment_matrix(qubits=q))
        mon.close(a @ np.asarray(mit.mitigation_matrix(qubits=q)), np.eye(2 ** n), 'inverse',
                  atol=1e-6)


def case_singular(mon, case):
    """A qubit whose outcome says nothing: mitigation is the pseudo-inverse, not an error."""
    rng = np.random.default_rng(case['seed'])
    n = case['n']
    dead = int(rng.integers(n))
    flat = np.full((2, 2), .5)
    ros = [flat.copy() if q == dead else sim.random_readout(rng, 0, .3) for q in range(n)]
    full = sim.kron_readout(ros)
    with np.errstate(all='ignore'):
        mits = [TensoredExpvalMeasMitigator([m.copy() for m in ros])]
    if n == 1:
        mits.append(CompleteExpvalMeasMitigator(full.copy()))
    for mit in mits:
        mon.close(mit.assignment_matrix(), full, 'singular')
        mon.close(mit.mitigation_matrix(), np.linalg.pinv(full), 'singular',
                  'unreadable qubit: not the pseudo-inverse', atol=1e-7)
        others = [q for q in range(n) if q != dead]
        if others:
            a = sim.kron_readout([ros[q] for q in others])
            mon.close(mit.mitigation_matrix(qubits=others), np.linalg.inv(a), 'singular',
                      'readable qubits beside an unreadable one', atol=1e-7)


def _marginal_range(full, n, qubits):
    """Range, over preparations of the other qubits, of each marginal entry."""
    k = len(qubits)
    lo = np.full((2 ** k, 2 ** k), np.inf)
    hi = np.full((2 ** k, 2 ** k), -np.inf)

    def red(i):
        return sum(((i >> q) & 1) << b for b, q in enumerate(qubits))
    for j in range(2 ** n):
        col = np.zeros(2 ** k)
        for i in range(2 ** n):
            col[red(i)] += full[i, j]
        lo[:, red(j)] = np.minimum(lo[:, red(j)], col)
        hi[:, red(j)] = np.maximum(hi[:, red(j)], col)
    return lo, hi


def case_ctmp(mon, case):
    rng = np.random.default_rng(case['seed'])
    n = case['n']
    gens, rates = ctmp_generators(rng, n, rng.random() < .6)
    order = rng.permutation(len(gens))
    gens, rates = [gens[i] for i in order], [rates[i] for i in order]
    if rng.random() < .4:       # weak rates next to strong ones
        rates = [r * float(rng.choice([1, .1, .02, .004])) for r in rates]
        mon.saw('weak-rates')
    kw = {'num_qubits': n} if rng.random() < .5 else {}
    mit = CTMPExpvalMeasMitigator(list(gens), list(rates), **kw)
    for q in _queries(rng, n):
        qq = list(range(n)) if q is None else q
        keep = [(i, g) for i, g in enumerate(gens) if set(g[2]) <= set(qq)]
        sub = [(g[0], g[1], tuple(qq.index(z) for z in g[2])) for _, g in keep]
        a, gmat = ctmp_matrix(sub, [rates[i] for i, _ in keep], len(qq))
        kw = {} if q is None else {'qubits': q}
        mon.close(mit.assignment_matrix(**kw), a, 'assignment-ctmp', 'assignment matrix', qubits=q,
                  atol=1e-6)
        mon.close(mit.generator_matrix(**kw).toarray(), gmat, 'generator', 'generator matrix',
                  atol=1e-7)
        mon.close(mit.noise_strength(**kw), -np.diag(gmat).min(), 'noise-strength')
        _common(mon, mit, a, np.exp(-2 * np.diag(gmat).min()) if q is None else None, **kw)
