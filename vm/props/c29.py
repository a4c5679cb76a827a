"""C29: fitters of characteristic times and ZZ rates."""
import itertools

import numpy as np
from qiskit.ignis.characterization.coherence import T1Fitter, T2Fitter, T2StarFitter
from qiskit.ignis.characterization.hamiltonian import ZZFitter
from vm import sim

PROP = 'C29'
LEVEL = 'exploration'
RULE = ('random curves per qubit, delays and shots, results split over circuits and repeated runs, '
        'added at once or later, refitted as a whole or per qubit; a state is one distinct fit')
ASSUMPTIONS = ['the starting point of the fit is near the true parameters']

KINDS = {'t1': ('t1', ['0'], '1'), 't2': ('t2', ['0'], '0'), 't2star': ('t2star', ['0'], '0'),
         'zz': ('zz', ['0', '1'], '0'), 'cpmg': ('cpmg', ['0'], '0')}


def cases(rng, tier):
    n = 40 if tier == 'quick' else 1500
    for _ in range(n):
        for exp in KINDS:
            yield 'fit', {'exp': exp, 'num': rng.choice([1, 1, 2, 3, 4, 6]),
                          'exact': rng.random() < .5,
                          'mode': rng.choice(['one', 'list', 'later', 'late', 'noresult', 'split', 'stages'])}
            if rng.random() < .3:
                yield 'fit', {'exp': exp, 'num': rng.choice([1, 2, 5]), 'exact': False, 'mode': 'few'}


def required_events(tier):
    return ['limits', 'mean', 'std', 'fit-optimal', 'fit-exact', 'time', 'time-error', 'zz-rate', 'guess',
            'partial-refit', 'not-refitted', 'input-unmodified', 'exponential', 'oscillation',
            'certain-outcome', 'few-shots', 'start-kept']


def curve(exp, par, x):
    x = np.asarray(x, dtype=float)
    if exp in ('t1', 't2', 'cpmg'):
        a, tau, c = par
        return a * np.exp(-x / tau) + c
    if exp == 't2star':
        a, tau, f, phi, c = par
        return a * np.exp(-x / tau) * np.cos(2 * np.pi * f * x + phi) + c
    a, f, phi, c = par
    return a * np.cos(2 * np.pi * f * x + phi) + c


def truth(rng, exp, span):
    if exp == 't1':
        return [rng.uniform(.6, .82), span * rng.uniform(.25, .7), rng.uniform(.02, .1)]
    if exp in ('t2', 'cpmg'):
        sign = -1 if rng.random() < .25 else 1      # the wrong final rotation: rising curve
        return [sign * rng.uniform(.35, .44), span * rng.uniform(.25, .7), rng.uniform(.45, .5)]
    if exp == 't2star':
        return [rng.uniform(.3, .42), span * rng.uniform(.5, 2), rng.integers(3, 6) / span,
                rng.uniform(-.3, .3), rng.uniform(.48, .52)]
    return [rng.uniform(.3, .42), rng.uniform(3, 6) / span, rng.uniform(-.3, .3),
            rng.uniform(.48, .52)]


def joint(ps, shots, rng):
    """Counts of independent bits; ps[i] is the probability of 1 of bit i."""
    probs = {}
    for vals in itertools.product([0, 1], repeat=len(ps)):
        p = 1.0
        for v, q in zip(vals, ps):
            p *= q if v else 1 - q
        probs[''.join(str(v) for v in reversed(vals))] = max(p, 0)
    return sim.split_counts(probs, shots, rng)


def make(exp, res, xdata, qubits, p0, bounds):
    if exp == 't1':
        return T1Fitter(res, xdata, qubits, p0, bounds)
    if exp == 't2':
        return T2Fitter(res, xdata, qubits, p0, bounds)
    if exp == 'cpmg':
        return T2Fitter(res, xdata, qubits, p0, bounds, circbasename='cpmg')
    if exp == 't2star':
        return T2StarFitter(res, xdata, qubits, p0, bounds)
    return ZZFitter(res, xdata, qubits, [q + 10 for q in qubits], p0, bounds)


def case_fit(mon, case):
    rng = np.random.default_rng(case['seed'])
    exp = case['exp']
    base, series, expected = KINDS[exp]
    num = case['num']
    qubits = [int(q) for q in rng.choice(20, size=num, replace=False)]
    npts = int(rng.integers(22, 32))
    span = float(rng.choice([1.0, 40.0, 5e3]))
    xdata = np.linspace(span / npts if exp in ('t1', 't2', 'cpmg') else 0, span, npts)
    first = [float(v) for v in truth(rng, exp, span)]
    pars = {}
    for s in series:
        for i in range(num):
            p = [v * (1 + .04 * rng.uniform(-1, 1)) for v in first]
            pars[s, i] = p
    shots = 10 ** 9 if case['exact'] else int(rng.integers(3000, 20000))
    sample = None if case['exact'] else rng
    mode = case['mode']
    if mode == 'few':
        shots = int(rng.integers(5, 90))
    exps, pooled = [], {}
    parts = 1 if mode in ('one', 'noresult') else int(rng.integers(2, 4))
    if mode == 'stages':
        parts = int(rng.integers(3, 5))
    saturate = exp in ('t1',) and rng.random() < .2
    chunks = [[] for _ in range(parts)]
    order = [(s, k) for s in series for k in range(npts)]
    for s, k in order:
        ps = []
        for i in range(num):
            p = float(curve(exp, pars[s, i], xdata[k]))
            ps.append(p if expected == '1' else 1 - p)
        if saturate and k == npts - 1:
            ps = [0.0] * num
            mon.saw('certain-outcome')
        targets = [int(rng.integers(parts))] if mode == 'split' else range(parts)
        for part in targets:
            n = shots if part == 0 else shots * int(rng.integers(1, 4))
            counts = joint(ps, n, sample)
            name = '%scircuit_%d_%s' % (base, k, s)
            chunks[part].append(sim.exp_result(name, counts, [['c', num]], shots=n))
            cell = pooled.setdefault((s, k), {})
            for key, v in counts.items():
                cell[key] = cell.get(key, 0) + v
    exps = []
    for chunk in chunks:
        chunk = [chunk[int(i)] for i in rng.permutation(len(chunk))]
        exps.append(sim.result(chunk))
    before = [r.to_dict() for r in exps]
    bounds = None
    if rng.random() < .6:
        low = [0.0] * len(first)
        low[0] = min(0.0, 1.5 * first[0])
        high = [1.0 if j in (0, len(first) - 1) else 20 * abs(v) for j, v in enumerate(first)]
        if exp == 't2star':
            low[3], high[3] = -np.pi, np.pi
        if exp == 'zz':
            low[2], high[2] = -np.pi, np.pi
        bounds = (low, high)
    p0 = list(first)
    xarg = [float(v) for v in xdata] if rng.random() < .3 else xdata
    if mode == 'one':
        fit = make(exp, exps[0], xarg, qubits, p0, bounds)
    elif mode in ('list', 'split'):
        fit = make(exp, list(exps), xarg, qubits, p0, bounds)
    elif mode == 'later':
        fit = make(exp, exps[0], xarg, qubits, p0, bounds)
        old = {s: [np.array(fit.params[s][i]) for i in range(num)] for s in series}
        fit.add_data(exps[1:] if rng.random() < .5 or parts > 2 else exps[1], refit=False)
        mon.check(all(np.array_equal(old[s][i], fit.params[s][i]) for s in series
                      for i in range(num)), 'not-refitted', 'fit changed without refit')
        fit.fit_data()
    elif mode == 'few':
        fit = make(exp, None, xarg, qubits, p0, bounds)
        for r in exps:
            fit.add_data(r, refit=False)
        if rng.random() < .5:       # the very same results once more
            fit.add_data(list(exps), refit=False)
            pooled = {c: {k: 2 * v for k, v in d.items()} for c, d in pooled.items()}
            mon.saw('same-counts-again')
        check_data(mon, fit, series, num, npts, pooled, expected)
        mon.saw('few-shots', (exp, shots, num))
        return
    elif mode == 'stages':
        fit = make(exp, exps[0], xarg, qubits, p0, bounds)
        for r in exps[1:]:
            fit.add_data([r] if rng.random() < .7 else r)
    elif mode == 'late':
        fit = make(exp, None, xarg, qubits, p0, bounds)
        fit.add_data(exps[0], recalc=False, refit=False)
        fit.add_data(exps[1:])
    else:
        fit = make(exp, None, xarg, qubits, p0, bounds)
        fit.add_data(exps, refit=True)
    mon.equal([r.to_dict() for r in exps], before, 'input-unmodified', 'results changed')
    mon.saw('oscillation' if exp in ('zz', 't2star') else 'exponential')
    check_data(mon, fit, series, num, npts, pooled, expected)
    if saturate:
        return      # the weight of the certain outcome spoils the curve
    check_fit(mon, fit, case, series, num, xdata, pars)
    if rng.random() < .3:
        # a limit the optimum lies outside of is respected
        low, high = [-1e3] * len(first), [1e3 * span + 1e3] * len(first)
        j = int(rng.integers(len(first)))
        if rng.random() < .5:
            high[j] = first[j] - .3 * abs(first[j]) - .01
        else:
            low[j] = first[j] + .3 * abs(first[j]) + .01
        start = list(np.clip(first, np.array(low) + 1e-3, np.array(high) - 1e-3))
        try:
            tight = make(exp, list(exps), xarg, qubits, start, (low, high))
            tight.fit_data(qid=0)
            for s in series:
                for i in range(num):
                    got = np.asarray(tight.params[s][i])
                    mon.check(np.all(got >= np.array(low) - 1e-9) and np.all(got <= np.array(high) + 1e-9),
                              'limits', 'fitted parameter outside the requested bounds', got=got,
                              low=low, high=high, state=(exp, j))
        except RuntimeError:
            mon.saw('optimiser-gave-up')
    # refit of one qubit with another start leaves the others alone
    if num > 1:
        i = int(rng.integers(num))
        old = {s: [np.array(fit.params[s][j]) for j in range(num)] for s in series}
        s = series[int(rng.integers(len(series)))]
        fit.fit_data(qid=i, p0=[v * 1.02 for v in first], series=s)
        same = all(np.array_equal(old[t][j], fit.params[t][j]) for t in series for j in range(num)
                   if (t, j) != (s, i))
        mon.check(same, 'partial-refit', 'refit of one qubit changed another')
        mon.close(fit.params[s][i], old[s][i], 'partial-refit', 'refit gives another optimum',
                  rtol=1e-2, atol=1e-2)
        # a poor start asked for once is not kept for the next fit
        if not saturate:
            try:
                fit.fit_data(qid=i, p0=[v if j != 1 and j != 2 else v * .35
                                        for j, v in enumerate(first)])
            except (RuntimeError, ValueError):
                mon.saw('optimiser-gave-up')
            fit.fit_data()
            for t in series:
                for j in range(num):
                    mon.close(fit.params[t][j], old[t][j], 'start-kept', 'default fit after a fit '
                              'from another start', rtol=1e-3, atol=1e-3)
        # without a series all of them are refitted: forget the old values first
        errs = {t: np.array(fit.params_err[t][i]) for t in series}
        for t in series:
            fit.params[t][i] = [0.0] * len(first)
            fit.params_err[t][i] = [-1.0] * len(first)
        fit.fit_data(qid=i, p0=list(first))
        for t in series:
            new = np.asarray(fit.params_err[t][i], dtype=float)
            mon.check(np.all((new >= 0) | ~np.isfinite(new)), 'partial-refit',
                      'parameter errors are not those of the new fit', got=new, old=errs[t])
            mon.close(fit.params[t][i], old[t][i], 'partial-refit', 'series %s is not refitted' % t,
                      rtol=1e-2, atol=1e-2)


def check_data(mon, fit, series, num, npts, pooled, expected):
    for s in series:
        mon.equal(len(fit.ydata[s]), num, 'mean', 'number of qubits in the data')
        for i in range(num):
            mean, std = [], []
            for k in range(npts):
                counts = pooled[s, k]
                tot = sum(counts.values())
                hit = sum(v for key, v in counts.items() if key[len(key) - 1 - i] == expected)
                p = hit / tot
                mean.append(p)
                std.append(np.sqrt(p * (1 - p) / tot) or 1e-4)
            mon.close(fit.ydata[s][i]['mean'], mean, 'mean', 'success probabilities', atol=1e-12)
            mon.close(fit.ydata[s][i]['std'], std, 'std', 'standard deviations', atol=1e-12)


def check_fit(mon, fit, case, series, num, xdata, pars):
    exp = case['exp']
    for s in series:
        for i in range(num):
            got = np.asarray(fit.params[s][i], dtype=float)
            y = np.asarray(fit.ydata[s][i]['mean'])
            sd = np.asarray(fit.ydata[s][i]['std'])
            true = pars[s, i]

            def ssr(p):
                return float(np.sum(((curve(exp, p, xdata) - y) / sd) ** 2))
            mon.check(ssr(got) <= ssr(true) * (1 + 1e-5) + 1e-6 * len(y), 'fit-optimal',
                      'fit is worse than the true curve', state=(exp, got), got=got, true=true,
                      cost=(ssr(got), ssr(true)))
            if case['exact'] and sd.min() > 0 and not np.any(sd == 1e-4):
                mon.close(got, true, 'fit-exact', 'parameters of the curve', rtol=2e-3, atol=2e-3)
            # errors are those of the weighted least squares problem
            jac = []
            for j in range(len(got)):
                h = 1e-5 * max(abs(got[j]), 1e-3)
                up, dn = got.copy(), got.copy()
                up[j] += h
                dn[j] -= h
                jac.append((curve(exp, up, xdata) - curve(exp, dn, xdata)) / (2 * h) / sd)
            jac = np.array(jac).T
            scale = np.linalg.norm(jac, axis=0)
            cov = np.linalg.inv((jac / scale).T @ (jac / scale)) / np.outer(scale, scale)
            err = np.sqrt(np.diag(cov) * ssr(got) / (len(y) - len(got)))
            if not case['exact']:
                mon.close(np.asarray(fit.params_err[s][i]) / err, np.ones(len(got)), 'time-error',
                          'errors of the parameters', atol=.05)
    tau = 1
    for s in series:
        want = [fit.params[s][i][tau] for i in range(num)]
        werr = [fit.params_err[s][i][tau] for i in range(num)]
        mon.close(fit.time(series=s), want, 'time', 'times of all qubits')
        mon.close(fit.time_err(series=s), werr, 'time', 'errors of all times')
        for i in range(num):
            mon.close(fit.time(i, s), want[i], 'time', 'time of one qubit')
            mon.close(fit.time_err(i, s), werr[i], 'time', 'error of one time')
    if exp == 'zz':
        rate = [pars['1', i][1] - pars['0', i][1] for i in range(num)]
        tol = 1e-3 if case['exact'] else .05
        mon.close(np.asarray(fit.ZZ_rate()) * xdata[-1], np.array(rate) * xdata[-1], 'zz-rate',
                  'ZZ rates', atol=tol)
        mon.close(fit.ZZ_rate(num - 1), fit.ZZ_rate()[num - 1], 'zz-rate', 'ZZ rate of one qubit')
    if exp == 't2star':
        for i in range(num):
            guess = fit.guess_params(i)
            mon.equal(len(guess), 5, 'guess', 'number of guessed parameters')
            mon.check(abs(abs(guess[2]) - pars['0', i][2]) <= 1.2 / (xdata[-1] - xdata[0]),
                      'guess', 'guessed frequency', guess=guess, true=pars['0', i])
