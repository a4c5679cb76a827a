"""C12: tomography fits are physical and optimal for the stated objective."""
import itertools

import numpy as np
from qiskit import QiskitError
from qiskit.ignis.verification.tomography import (StateTomographyFitter, ProcessTomographyFitter,
                                                  TomographyFitter, state_tomography_circuits,
                                                  process_tomography_circuits)
from qiskit.ignis.verification.tomography.fitters.lstsq_fit import (make_positive_semidefinite,
                                                                        lstsq_fit)
from ast import literal_eval
from vm import sim, gen
from vm.props.c09 import meas_ops, prep_op

PROP = 'C12'
LEVEL = 'exploration'
RULE = ('finite-shot, unbalanced and adversarial (inconsistent) counts; each fit is compared with '
        'an independent weighted least-squares solution and simplex projection, or with the '
        'optimality of its objective; a state is one distinct fitted matrix')
ASSUMPTIONS = ['cvx tolerances follow the accuracy of the SCS/Clarabel solver']


def cases(rng, tier):
    n = 240 if tier == 'quick' else 2500
    for i in range(n):
        yield 'state', {'m': rng.choice([1, 1, 2, 2, 3]) if i % 60 != 5 else 4, 'hostile': rng.random() < .35,
                        'weights': rng.random() < .7, 'beta': rng.choice([0.5, 0.0, 0.05, 3.0]),
                        'cvx': i % 20 == 0, 'default': i % 3 == 0}
    for i in range(n // 8):
        yield 'process', {'m': 2 if i % 8 == 0 else 1, 'hostile': rng.random() < .3,
                          'prep': rng.choice(['Pauli', 'SIC']), 'weights': rng.random() < .7,
                          'beta': rng.choice([0.5, 1.0]), 'cvx': i % 4 == 1}
    for i in range(n // 2):
        yield 'psd', {'dim': rng.randint(1, 9 if rng.random() < .8 else 40)}
    for i in range(n // 16):
        yield 'notrace', {}
    for i in range(n // 8):
        yield 'cvxqubit', {'weights': i % 4 != 0, 'beta': rng.choice([0.5, 0.5, 0.0, 2.0])}


def required_events(tier):
    return ['physical', 'lstsq-solution', 'unconstrained', 'cvx-physical', 'cvx-optimal',
            'trace-preserving', 'psd-projection', 'auto-method', 'defaults',
            'cvx-process-optimal', 'no-trace', 'cvx-optimum']


def simplex(vals, total):
    """Euclidean projection on {x >= 0, sum x = total}."""
    u = np.sort(vals)[::-1]
    css = np.cumsum(u) - total
    rho = np.nonzero(u - css / (np.arange(len(u)) + 1) > 0)[0][-1]
    return np.maximum(vals - css[rho] / (rho + 1), 0)


def psd_projection(mat):
    mat = (mat + mat.conj().T) / 2
    v, w = np.linalg.eigh(mat)
    return (w * simplex(v, v.sum())) @ w.conj().T


def design(labels, m, qpt):
    rows = []
    for lab in labels:
        prep, meas = lab if qpt else (None, lab)
        for i in range(2 ** m):
            op = meas_ops(meas, sim.bits(i, m))
            if qpt:
                op = np.kron(prep_op(prep).T, op)
            rows.append(op.conj().ravel(order='F'))
    return np.array(rows)


def data_vec(data, labels, m, weights, beta):
    probs, wts = [], []
    for lab in labels:
        c = np.array([data[lab].get(sim.bits(i, m), 0) for i in range(2 ** m)], dtype=float)
        shots = c.sum()
        probs.append(c / shots)
        b = 0.5 if beta == 0 and ((c == 0).any() or (c == shots).any()) else beta
        p = (c + b) / (shots + len(c) * b)
        wts.append(np.sqrt(shots / (p * (1 - p))))
    return np.concatenate(probs), (np.concatenate(wts) if weights else None)


def weighted_ls(a, b, w):
    if w is not None:
        a, b = w[:, None] * a, w * b
    x = np.linalg.pinv(a) @ b
    d = int(round(np.sqrt(len(x))))
    return x.reshape(d, d, order='F')


def objective(mat, a, b, w):
    r = a @ mat.ravel(order='F') - b
    if w is not None:
        r = r * (w / np.linalg.norm(w))
    return np.linalg.norm(r)


def fake_data(rng, circs, m, hostile):
    data, exps = {}, []
    for c in circs:
        shots = int(rng.choice([1, 7, 100, 2000, 10 ** 6]))
        if hostile:
            p = rng.dirichlet(np.ones(2 ** m) * rng.choice([.1, 1]))
        else:
            probs = sim.outcome_probs(c)
            p = np.array([probs.get(sim.bits(i, m), 0) for i in range(2 ** m)])
            p = p / p.sum()
        cts = {sim.bits(i, m): int(v) for i, v in enumerate(rng.multinomial(shots, p)) if v}
        data[literal_eval(c.name)] = cts
        exps.append(sim.exp_result(c.name, cts, sim.creg_sizes(c)))
    return data, sim.result(exps)


def check_physical(mon, mat, trace, event, tol):
    mon.check(np.all(np.isfinite(mat)), event, 'not finite')
    mon.close(mat, np.asarray(mat).conj().T, event, 'not hermitian', atol=tol, rtol=0)
    mon.close(np.trace(mat), trace, event, 'wrong trace', atol=tol * 10, rtol=0)
    low = np.linalg.eigvalsh((mat + np.asarray(mat).conj().T) / 2).min()
    mon.check(low > -tol * 10, event, 'not positive semidefinite', lowest=low)


def case_state(mon, case):
    rng = np.random.default_rng(case['seed'])
    m = case['m']
    circ = gen.random_circuit(rng, m)
    circs = state_tomography_circuits(circ, list(range(m)))
    data, res = fake_data(rng, circs, m, case['hostile'])
    fit = StateTomographyFitter(res, circs)
    labels = list(itertools.product('XYZ', repeat=m))
    a = design(labels, m, False)
    b, w = data_vec(data, labels, m, case['weights'], case['beta'])
    raw = weighted_ls(a, b, w)
    kw = dict(standard_weights=case['weights'], beta=case['beta'])
    if np.trace(raw).real <= 1e-2:
        # no state comes near such data: an error, never a matrix of NaNs
        try:
            got = fit.fit(method='lstsq', **kw)
        except (ValueError, QiskitError):
            mon.saw('no-state')
            return
        check_physical(mon, got, 1, 'physical', 1e-9)
        return
    got = fit.fit(method='lstsq', **kw)
    check_physical(mon, got, 1, 'physical', 1e-9)
    want = psd_projection(raw)
    mon.close(got, want / np.trace(want), 'lstsq-solution',
              'not the projected weighted least-squares solution', atol=1e-6, rtol=0)
    base = TomographyFitter(res, circs, 'Pauli', None)
    mon.close(base.fit(method='lstsq', psd=False, **kw), raw, 'unconstrained',
              'psd=False is not the least-squares solution', atol=1e-6, rtol=0)
    mon.close(base.fit(method='lstsq', psd=True, **kw), want, 'unconstrained',
              'trace=None changes the trace', atol=1e-6, rtol=0)
    mon.close(base.fit(method='lstsq', psd=True, trace=3, **kw), 3 * want / np.trace(want),
              'unconstrained', 'trace constraint', atol=1e-6, rtol=0)
    mon.close(base.fit(method='lstsq', psd=False, trace=2, **kw), 2 * raw / np.trace(raw),
              'unconstrained', 'trace constraint without positivity', atol=1e-6, rtol=0)
    if case.get('default'):
        b_d, w_d = data_vec(data, labels, m, True, .5)
        want = weighted_ls(a, b_d, w_d)
        if np.trace(want).real <= 1e-2:
            return
        want = psd_projection(want)
        mon.close(fit.fit(method='lstsq'), want / np.trace(want), 'defaults',
                  'default fit is not the weighted fit with beta 0.5', atol=1e-6, rtol=0)
    if case['cvx']:
        cvx = fit.fit(method='cvx', **kw)
        check_physical(mon, cvx, 1, 'cvx-physical', 1e-3)
        mon.check(objective(cvx, a, b, w) <= objective(got, a, b, w) + 2e-3, 'cvx-optimal',
                  'constrained fit is worse than the projected fit',
                  state=round(objective(cvx, a, b, w), 3))


def tp_point(choi, d):
    """A trace-preserving channel near a positive matrix."""
    choi = choi + 1e-9 * np.eye(d * d)
    red = np.einsum('iaja->ij', choi.reshape(d, d, d, d))
    val, vec = np.linalg.eigh(red)
    fix = np.kron((vec / np.sqrt(np.maximum(val, 1e-9))) @ vec.conj().T, np.eye(d))
    return fix @ choi @ fix.conj().T


def case_process(mon, case):
    rng = np.random.default_rng(case['seed'])
    m = case['m']
    circ = gen.random_circuit(rng, m)
    circs = process_tomography_circuits(circ, list(range(m)), prep_labels=case['prep'],
                                        prep_basis=case['prep'])
    data, res = fake_data(rng, circs, m, case['hostile'])
    fit = ProcessTomographyFitter(res, circs, 'Pauli', case['prep'])
    labels = sorted(data)
    a = design(labels, m, True)
    b, w = data_vec(data, labels, m, case['weights'], case['beta'])
    kw = dict(standard_weights=case['weights'], beta=case['beta'])
    d = 2 ** m
    want = weighted_ls(a, b, w)
    if np.trace(want).real <= 1e-2:
        try:
            check_physical(mon, fit.fit(method='lstsq', **kw).data, d, 'physical', 1e-9)
        except (ValueError, QiskitError):
            mon.saw('no-state')
        return
    got = fit.fit(method='lstsq', **kw).data
    check_physical(mon, got, d, 'physical', 1e-9)
    want = psd_projection(want)
    mon.close(got, d * want / np.trace(want), 'lstsq-solution',
              'not the projected weighted least-squares solution', atol=1e-5, rtol=0)
    if case['cvx'] and m == 1:
        cvx = fit.fit(method='cvx', **kw).data
        check_physical(mon, cvx, d, 'cvx-physical', 2e-3)
        mon.close(np.einsum('iaja->ij', cvx.reshape(d, d, d, d)), np.eye(d), 'trace-preserving',
                  'fitted channel does not preserve the trace', atol=5e-3, rtol=0)
        mon.check(objective(cvx, a, b, w) <= objective(tp_point(got, d), a, b, w) + 5e-3,
                  'cvx-process-optimal', 'worse than a channel near the least-squares fit')
        auto = fit.fit(**kw).data
        mon.close(np.einsum('iaja->ij', auto.reshape(d, d, d, d)), np.eye(d), 'auto-method',
                  'automatic method does not preserve the trace', atol=5e-3, rtol=0)
        b_d, w_d = data_vec(data, labels, m, True, .5)
        want = psd_projection(weighted_ls(a, b_d, w_d))
        mon.close(fit.fit(method='lstsq').data, d * want / np.trace(want), 'defaults',
                  'default fit is not the weighted fit with beta 0.5', atol=1e-5, rtol=0)


def case_notrace(mon, case):
    """Contradictory counts whose least-squares matrix has a negative trace."""
    rng = np.random.default_rng(case['seed'])
    m = 1 if rng.random() < .5 else 2
    circ = gen.random_circuit(rng, m)
    circs = state_tomography_circuits(circ, list(range(m)))
    fit = StateTomographyFitter(sim.run(circs, shots=100), circs)
    size = 4 ** m
    mat = rng.normal(size=(2 ** m, 2 ** m)) + 1j * rng.normal(size=(2 ** m, 2 ** m))
    mat = -(mat @ mat.conj().T)
    trace = 1 if rng.random() < .5 else float(rng.uniform(.5, 3))
    try:
        got = lstsq_fit(mat.ravel(order='F'), np.eye(size), trace=trace)
    except (ValueError, QiskitError):
        mon.check(True, 'no-trace', state=case['seed'])
    else:
        check_physical(mon, got, trace, 'no-trace', 1e-9)
    mat = -mat
    check_physical(mon, lstsq_fit(mat.ravel(order='F'), np.eye(size), trace=trace), trace,
                   'no-trace', 1e-9)
    check_physical(mon, fit.fit(method='lstsq'), 1, 'no-trace', 1e-9)


def case_psd(mon, case):
    rng = np.random.default_rng(case['seed'])
    d = case['dim']
    mat = rng.normal(size=(d, d)) + 1j * rng.normal(size=(d, d))
    mat = mat + mat.conj().T
    mat += np.eye(d) * (abs(np.trace(mat).real) + 1) / d     # positive trace
    keep = mat.copy()
    got = make_positive_semidefinite(mat)
    mon.close(got, psd_projection(keep), 'psd-projection',
              'not the closest positive matrix with the same trace', atol=1e-8)
    mon.close(mat, keep, 'psd-projection', 'input modified')
    pos = keep @ keep.conj().T
    mon.close(make_positive_semidefinite(pos), pos, 'psd-projection',
              'positive matrix was changed', atol=1e-7)
    eps = float(rng.uniform(.05, .9)) * np.trace(keep).real / d
    vals = np.linalg.eigvalsh(make_positive_semidefinite(keep.copy(), epsilon=eps))
    mon.check(bool(np.all((abs(vals) < 1e-8) | (vals > eps - 1e-8))), 'psd-threshold',
              'eigenvalues below the threshold remain', got=vals, eps=eps)
    mon.close(vals.sum(), np.trace(keep).real, 'psd-threshold', 'trace changed', atol=1e-8)
    mon.raises(ValueError, lambda: make_positive_semidefinite(pos, epsilon=-1), 'psd-errors')


PAULIS = [np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.diag([1, -1])]


def ball_optimum(a, b, w):
    """Minimise |w (a rho - b)| over the Bloch ball (trust-region problem, by bisection)."""
    w = np.ones(len(b)) if w is None else w / np.linalg.norm(w)
    cols = [(a @ (p.ravel(order='F') / 2)).real for p in PAULIS]
    m = w[:, None] * np.array(cols).T
    r = w * ((a @ (np.eye(2).ravel(order='F') / 2)).real - b)
    h, g = m.T @ m, m.T @ r
    v = -np.linalg.solve(h, g)
    if np.linalg.norm(v) > 1:
        lo, hi = 0., 1e6
        for _ in range(200):
            mid = (lo + hi) / 2
            v = -np.linalg.solve(h + mid * np.eye(3), g)
            lo, hi = (mid, hi) if np.linalg.norm(v) > 1 else (lo, mid)
    return v


def case_cvxqubit(mon, case):
    """The convex fit of one qubit against the exact constrained optimum."""
    rng = np.random.default_rng(case['seed'])
    circs = state_tomography_circuits(gen.random_circuit(rng, 1), [0])
    data, exps = {}, []
    for c in circs:
        shots = int(rng.choice([20, 200, 5000]))
        k = int(rng.binomial(shots, rng.beta(.4, .4)))
        cts = {x: y for x, y in (('0', k), ('1', shots - k)) if y}
        data[literal_eval(c.name)] = cts
        exps.append(sim.exp_result(c.name, cts, sim.creg_sizes(c)))
    labels = [('X',), ('Y',), ('Z',)]
    a = design(labels, 1, False)
    b, w = data_vec(data, labels, 1, case['weights'], case['beta'])
    got = StateTomographyFitter(sim.result(exps), circs).fit(
        method='cvx', standard_weights=case['weights'], beta=case['beta'])
    bloch = [np.trace(got @ p).real for p in PAULIS]
    mon.close(bloch, ball_optimum(a, b, w), 'cvx-optimum',
              'convex fit is not the constrained weighted optimum', atol=.01, rtol=0)
