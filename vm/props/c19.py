"""C19: RB fitter turns counts into survival probabilities, statistics and a decay fit."""
import copy

import numpy as np
from scipy.optimize import least_squares
import qiskit.ignis.verification.randomized_benchmarking as rb
from vm import sim
from vm.rbtools import random_pattern

PROP = 'C19'
LEVEL = 'exploration'
SCATTERED = ('noisy', 'hostile')
RULE = ('random patterns, lengths, seeds and results histories (shuffled, repeated, merged '
        'results) with counts drawn around or exactly on a decay; a state is one distinct raw '
        'data table or fit')


def cases(rng, tier):
    n = 80 if tier == 'quick' else 2500
    for _ in range(n):
        yield 'data', {'prefix': rng.choice(['rb', 'rb_interleaved', 'rb_cnotdihedral_Z',
                                             'rb_cnotdihedral_X'])}
        yield 'exact', {'nseeds': rng.choice([1, 1, 2, 3])}
        yield 'noisy', {}
    for _ in range(n // 4):
        yield 'noisy', {'sure': True}
    for _ in range(n // 2):
        yield 'hostile', {}
    yield 'empty', {}


def required_events(tier):
    return ['raw-data', 'statistics', 'alpha-recovered', 'epc', 'fit-optimal', 'params-err', 'unweighted',
            'order-independent', 'shots-merged', 'seeds', 'hostile-fit', 'no-data', 'single-seed']


def table_results(rng, prefix, pattern, nlen, seeds, shots, probs=None):
    """Result objects (one per seed) + counts per (seed, length)."""
    nbits = sum(len(p) for p in pattern)
    counts = {}
    out = []
    for s in seeds:
        exps = []
        for i in range(nlen):
            if probs is None:
                p = rng.dirichlet(np.ones(2 ** nbits) * .3)
                c = rng.multinomial(shots, p)
            else:
                c = probs(s, i)
            d = {sim.bits(k, nbits): (int(v) if probs is None else float(v))
                 for k, v in enumerate(c) if v}
            counts[s, i] = d
            exps.append(sim.exp_result('%s_length_%d_seed_%d' % (prefix, i, s), d,
                                       [['cr', nbits]], shots=shots))
        rng.shuffle(exps)
        out.append(sim.result(exps))
    return out, counts


def ground(counts, start, end):
    nbits = len(next(iter(counts)))
    tot = sum(counts.values())
    hit = sum(v for k, v in counts.items()
              if all(k[nbits - 1 - b] == '0' for b in range(start, end)))
    return hit / tot


def expected_raw(counts, pattern, nlen, seeds):
    out = []
    start = 0
    for pat in pattern:
        end = start + len(pat)
        out.append([[ground(counts[s, i], start, end) for i in range(nlen)] for s in seeds])
        start = end
    return out


def merge(a, b):
    return {k: a.get(k, 0) + b.get(k, 0) for k in set(a) | set(b)}


def case_data(mon, case):
    try:
        _data(mon, case)
    except RuntimeError as exc:     # the optimiser may give up on a legal decay
        if 'Optimal parameters not found' not in str(exc):
            raise
        mon.saw('optimiser-gave-up')


def _data(mon, case):
    rng = np.random.default_rng(case['seed'])
    pattern = random_pattern(rng, 5) if rng.random() < .8 else \
        random_pattern(rng, 8, sizes=(1, 1, 2, 3), max_groups=7, span=14)
    lengths = random_lengths(rng)
    nlen = len(lengths)
    xdata = np.array([lengths * int(rng.integers(1, 4)) for _ in pattern])
    truth = [random_decay(rng, len(p), x) for p, x in zip(pattern, xdata)]
    nseed = int(rng.integers(1, 5 if rng.random() < .8 else 14))
    seeds = [int(s) for s in rng.choice(np.arange(0, 30 if rng.random() < .7 else 150), nseed, replace=False)]
    probs = decay_probs(rng, pattern, xdata, truth, 30, spread=.02)
    res, counts = table_results(rng, case['prefix'], pattern, nlen, seeds, 4096, probs)
    if rng.random() < .3:       # everything in one Result
        res = [sim.result([e for r in res for e in r.results])]
        arg = res[0] if rng.random() < .5 else res
        fitter = rb.RBFitter(arg, xdata, pattern)
    elif rng.random() < .5:
        fitter = rb.RBFitter(res, xdata, pattern)
    else:
        fitter = rb.RBFitter(res[0], xdata, pattern)
        for r in res[1:]:
            fitter.add_data([r] if rng.random() < .5 else r)
    mon.equal(sorted(fitter.seeds), sorted(seeds), 'seeds')
    order = list(fitter.seeds)
    raw = expected_raw(counts, pattern, nlen, order)
    for k in range(len(pattern)):
        mon.close(np.array(fitter.raw_data[k]), np.array(raw[k]), 'raw-data',
                  'survival probability', pattern=pattern)
        mean = np.mean(raw[k], 0)
        mon.close(fitter.ydata[k]['mean'], mean, 'statistics', 'mean over seeds')
        if nseed == 1:
            mon.check(fitter.ydata[k]['std'] is None, 'single-seed')
        else:
            std = np.sqrt(np.mean((np.array(raw[k]) - mean) ** 2, 0))
            mon.close(fitter.ydata[k]['std'], std, 'statistics', 'std over seeds')
        check_fit_consistent(mon, fitter.fit[k], len(pattern[k]))
    # more shots of the same circuits are merged, not replaced
    probs = decay_probs(rng, pattern, xdata, truth, 30, spread=.03)
    more, counts2 = table_results(rng, case['prefix'], pattern, nlen, seeds, 2048,
                                  lambda *a: probs(*a) / 2)
    fitter.add_data(more)
    total = {k: merge(counts[k], counts2[k]) for k in counts}
    raw = expected_raw(total, pattern, nlen, list(fitter.seeds))
    mon.check(all(np.allclose(fitter.raw_data[k], raw[k]) for k in range(len(pattern))),
              'shots-merged', 'added shots are not pooled with the earlier ones',
              got=fitter.raw_data, want=raw)
    mon.equal(sorted(fitter.seeds), sorted(seeds), 'seeds', 'known seeds listed again')
    mon.equal(len(fitter.results), len(res) + len(more), 'seeds', 'stored results')
    # a different arrival order gives the same statistics
    allres = list(res) + list(more)
    rng.shuffle(allres)
    other = rb.RBFitter(allres, xdata, pattern)
    for k in range(len(pattern)):
        mon.close(other.ydata[k]['mean'], fitter.ydata[k]['mean'], 'order-independent',
                  'order of results changed the mean')
    # nothing recomputed until asked
    third = rb.RBFitter(res, xdata, pattern)
    before = np.array(third.raw_data, dtype=object).tolist()
    third.add_data(more, rerun_fit=False)
    mon.equal(np.array(third.raw_data, dtype=object).tolist(), before, 'shots-merged',
              'rerun_fit=False recalculated')
    third.calc_data()
    third.calc_statistics()
    third.fit_data()
    for k in range(len(pattern)):
        mon.close(third.ydata[k]['mean'], fitter.ydata[k]['mean'], 'shots-merged')
    # the very same counts once more
    third.add_data([copy.deepcopy(r) if rng.random() < .5 else r for r in more], rerun_fit=False)
    third.calc_data()
    twice = {k: merge(total[k], counts2[k]) for k in total}
    raw = expected_raw(twice, pattern, nlen, list(third.seeds))
    for k in range(len(pattern)):
        mon.close(np.array(third.raw_data[k]), np.array(raw[k]), 'same-counts-again',
                  'equal counts of two runs are not both used')


def check_fit_consistent(mon, fit, nq):
    a, alpha, b = fit['params']
    d = 2 ** nq
    mon.check(all(-1e-9 <= v <= 1 + 1e-9 for v in (a, alpha, b)), 'epc',
              'fit parameters outside [0,1]', got=fit['params'])
    mon.close(fit['epc'], (d - 1) / d * (1 - alpha), 'epc', 'error per Clifford')
    err = fit['params_err'][1]
    if np.isfinite(err) and alpha > 1e-3:
        lo = (d - 1) / d * err
        mon.check(lo * (1 - 1e-6) <= fit['epc_err'] <= lo / alpha * (1 + 1e-6) + 1e-15, 'epc',
                  'error bar of epc', got=fit['epc_err'], alpha=alpha, err=err)


def decay_probs(rng, pattern, lengths, truth, nseed, spread=0.0, sure=()):
    """Exact joint outcome distributions with the wanted ground-state probabilities."""
    jit = rng.normal(0, spread, (len(pattern), nseed, len(lengths[0]))) if spread else None

    def probs(s, i):
        joint = np.ones(1)
        for k, pat in enumerate(pattern):
            a, al, b = truth[k]
            g = a * al ** lengths[k][i] + b
            if jit is not None:
                g = float(np.clip(g + jit[k, s % nseed, i], 0.01, .999))
            if i in sure:
                g = 1.0
            d = 2 ** len(pat)
            rest = rng.dirichlet(np.ones(d - 1)) * (1 - g)
            joint = np.kron(np.concatenate([[g], rest]), joint)
        return joint * 4096
    return probs


def random_decay(rng, nq, lengths):
    d = 2 ** nq
    span = float(lengths[-1] - lengths[0])
    # at least a factor e^-0.5 and at most e^-3 of decay over the data
    alpha = float(np.exp(-rng.uniform(1, 3) / span))
    b = float(rng.uniform(.9, 1.1) / d)
    # stays below 1 at the first length
    a = float(rng.uniform(.4, .95)) * (1 - b)
    return a, alpha, b


def random_lengths(rng, lo=5, hi=10):
    """Typical RB lengths: from a short sequence up, roughly evenly or geometrically spaced."""
    n = int(rng.integers(lo, hi))
    top = int(rng.integers(4 * n, 60 * n))
    if rng.random() < .7:
        x = np.linspace(1, top, n) + rng.uniform(-.2, .2, n) * top / n
    else:
        x = np.geomspace(1, top, n)
    x = np.unique(np.maximum(1, np.round(x)).astype(int))
    return x if len(x) >= lo else np.arange(1, n + 1) * 5


def case_exact(mon, case):
    rng = np.random.default_rng(case['seed'])
    pattern = random_pattern(rng, 4, sizes=(1, 2, 3))
    base = random_lengths(rng)
    xdata = np.array([base * int(rng.integers(1, 4)) for _ in pattern])
    truth = [random_decay(rng, len(p), x) for p, x in zip(pattern, xdata)]
    res, _ = table_results(rng, 'rb', pattern, len(base), list(range(case['nseeds'])), 4096,
                           decay_probs(rng, pattern, xdata, truth, case['nseeds']))
    fitter = rb.RBFitter(res, xdata, pattern)
    for k, pat in enumerate(pattern):
        mon.close(fitter.fit[k]['params'], truth[k], 'alpha-recovered',
                  'exact decay data, other parameters', atol=2e-3, rtol=0, lengths=xdata[k])
        check_fit_consistent(mon, fitter.fit[k], len(pat))
        y = fitter.rb_fit_fun(np.array(xdata[k], dtype=float), *fitter.fit[k]['params'])
        mon.close(y, fitter.ydata[k]['mean'], 'alpha-recovered', 'curve misses the data',
                  atol=1e-4, rtol=0)


def cost(params, x, y, sig):
    return float(np.sum(((params[0] * params[1] ** x + params[2] - y) / sig) ** 2))


def case_noisy(mon, case):
    rng = np.random.default_rng(case['seed'])
    pattern = random_pattern(rng, 3, sizes=(1, 2))
    # every seed agrees exactly at one length: no finite weights exist, so all points count alike
    sure = (0,) if case.get('sure') else ()
    if sure:
        pattern = pattern[:1]
    base = random_lengths(rng, 6, 10)
    xdata = np.array([base for _ in pattern])
    truth = [random_decay(rng, len(p), x) for p, x in zip(pattern, xdata)]
    if sure:    # a decay that starts at the certain outcome
        b = truth[0][2]
        truth = [(min(1.0, (1 - b) / truth[0][1] ** float(xdata[0][0])), truth[0][1], b)]
    ns = int(rng.integers(3, 6))
    res, _ = table_results(rng, 'rb', pattern, len(base), list(range(ns)), 4096,
                           decay_probs(rng, pattern, xdata, truth, ns, spread=.01, sure=sure))
    fitter = rb.RBFitter(res, xdata, pattern)
    for k in range(len(pattern)):
        x = np.array(xdata[k], dtype=float)
        y = np.array(fitter.ydata[k]['mean'])
        sig = np.array(fitter.ydata[k]['std'])
        if np.any(sig == 0):
            mon.saw('unweighted')
            sig = np.ones_like(sig)
        fit = fitter.fit[k]
        got = cost(fit['params'], x, y, sig)
        ref = least_squares(lambda p: (p[0] * p[1] ** x + p[2] - y) / sig,
                            np.clip(truth[k], 1e-6, 1 - 1e-6), bounds=([0] * 3, [1] * 3),
                            xtol=1e-12, ftol=1e-12, gtol=1e-12)
        best = 2 * ref.cost
        slack = 1e-1 if case.get('sure') else 1e-2
        mon.check(got <= best * (1 + slack) + 1e-6, 'fit-optimal',
                  'weighted least-squares fit is not optimal', got=got, best=best,
                  state=fit['params'])
        inside = all(1e-3 < v < 1 - 1e-3 for v in fit['params'])
        if inside:
            p = fit['params']
            jac = np.stack([p[1] ** x, p[0] * x * p[1] ** (x - 1), np.ones_like(x)], 1) / \
                sig[:, None]
            info = jac.T @ jac
            if np.linalg.cond(info) < 1e10:
                cov = np.linalg.inv(info) * got / (len(x) - 3)
                mon.close(fit['params_err'], np.sqrt(np.diag(cov)), 'params-err',
                          'reported parameter errors', rtol=.05, atol=1e-6)


def case_hostile(mon, case):
    """Arbitrary probabilities (flat, rising, exactly 1/2^n, zero) still give a bounded fit."""
    rng = np.random.default_rng(case['seed'])
    nq = int(rng.integers(1, 3))
    n = int(rng.integers(2, 6))
    kind = int(rng.integers(6))
    lengths = np.sort(rng.choice(np.arange(1, 400), n, replace=False))
    d = 2 ** nq
    y = rng.uniform(0, 1, n)
    if kind == 0:
        y = np.full(n, 1 / d)
    elif kind == 1:
        y[1] = 1 / d
    elif kind == 2:
        y = np.sort(y)
    elif kind == 3:
        y = np.zeros(n)
    elif kind == 4:
        y = np.ones(n)
    elif kind == 5:
        y = np.sort(y)[::-1]

    def probs(_s, i):
        return np.concatenate([[y[i]], np.full(d - 1, (1 - y[i]) / (d - 1))]) * 1024
    pattern = [list(range(nq))]
    res, _ = table_results(rng, 'rb', pattern, n, [0], 1024, probs)
    try:
        fitter = rb.RBFitter(res, [lengths], pattern)
    except RuntimeError:
        mon.check(True, 'hostile-fit', state=['reported', kind])
        return
    mon.close(fitter.ydata[0]['mean'], y, 'raw-data')
    p = fitter.fit[0]['params']
    mon.check(np.all(np.isfinite(p)) and np.all(p >= -1e-9) and np.all(p <= 1 + 1e-9),
              'hostile-fit', 'fit parameters out of bounds', state=[kind, y.round(4).tolist()],
              got=p)


def case_empty(mon, case):
    f = rb.RBFitter(None, [[1, 10, 20]], [[0, 1]])
    mon.check(not f.raw_data and not f.ydata and not f.results and not f.seeds, 'no-data',
              'fitter without data is not empty', state='empty')
    mon.equal(list(f.cliff_lengths[0]), [1, 10, 20], 'no-data')
