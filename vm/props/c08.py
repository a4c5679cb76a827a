"""C08: expval mitigator calibration recovers the readout noise."""
import numpy as np
from qiskit import QiskitError
from qiskit.ignis.mitigation.expval import (ExpvalMeasMitigatorFitter,
                                            expval_meas_mitigator_circuits)
from vm import sim
from vm.props.c06 import ctmp_matrix

PROP = 'C08'
LEVEL = 'exploration'
RULE = ('calibration circuits of every method simulated under random readout noise, mixed with '
        'unrelated experiments and repeated calibrations, then fitted; a state is one fitted '
        'matrix')
ASSUMPTIONS = ['CTMP is compared exactly for product noise, and for correlated noise on 2 qubits']

METHODS = ['complete', 'tensored', 'CTMP', 'ctmp']


def cases(rng, tier):
    n = 150 if tier == 'quick' else 800
    for i in range(n):
        yield 'circuits', {'n': rng.randint(1, 5), 'method': rng.choice(METHODS)}
    for i in range(max(14, n // 20)):
        yield 'circuits', {'n': rng.choice([7, 10, 11, 13]), 'method': rng.choice(METHODS[1:])}
    for i in range(2 * n):
        yield 'product', {'n': rng.randint(1, 4) if i % 12 else rng.choice([5, 6]), 'method': rng.choice(METHODS)}
    for i in range(n):
        yield 'correlated', {'n': rng.randint(1, 3) if i % 12 else rng.choice([4, 6])}
        yield 'ctmp2', {}
        yield 'sampled', {'n': rng.randint(1, 4), 'method': rng.choice(METHODS),
                          'shots': rng.choice([200, 2000, 20000])}
    for i in range(n // 4):
        yield 'spectators', {'n': rng.choice([1, 2, 3, 5, 9, 10, 12])}
    for i in range(3):
        yield 'reject', {}


def required_events(tier):
    return ['circuit-prepares', 'fit-complete', 'fit-tensored', 'fit-CTMP', 'fit-correlated',
            'fit-ctmp-correlated', 'stochastic', 'statistical', 'rates', 'foreign-ignored', 'repeat-accumulates',
            'no-generator-rejected', 'conditional']


def case_circuits(mon, case):
    rng = np.random.default_rng(case['seed'])
    n, method = case['n'], case['method']
    labels = None
    if rng.random() < .4:
        labels = [sim.bits(int(rng.integers(2 ** n)), n) for _ in range(int(rng.integers(1, 6)))]
    circs, meta = expval_meas_mitigator_circuits(n, method=method, labels=labels)
    want = labels
    if labels is None:
        want = {'complete': [sim.bits(i, n) for i in range(2 ** n)],
                'tensored': ['0' * n, '1' * n]}.get(
                    method, ['0' * n, '1' * n] + [sim.bits(1 << i, n) for i in range(n)])
    mon.equal(sorted(m['cal'] for m in meta), sorted(want), 'circuit-labels')
    mon.equal(len(circs), len(meta), 'circuit-labels')
    for c, m in zip(circs, meta):
        if n > 6:
            # classical circuit: follow the flips
            val = ['0'] * n
            for inst, qs, cs in c.data:
                if inst.name == 'x':
                    q = c.qubits.index(qs[0])
                    val[q] = '10'[int(val[q])]
                elif inst.name not in ('barrier', 'measure'):
                    val = None
                    break
            if val is not None:
                out = ['?'] * len(c.clbits)
                for inst, qs, cs in c.data:
                    if inst.name == 'measure':
                        out[c.clbits.index(cs[0])] = val[c.qubits.index(qs[0])]
                mon.equal(''.join(reversed(out)), m['cal'], 'circuit-prepares',
                          'circuit does not prepare its label', state=(n, m['cal']))
            continue
        p = sim.outcome_probs(c)
        mon.close(p.get(m['cal'], 0), 1, 'circuit-prepares', 'circuit does not prepare its label',
                  state=(n, m['cal']))


def _fit(mon, rng, circs, meta, method, matrix_or_ro, n):
    """build a Result (list order = metadata order) with foreign experiments mixed in"""
    circs, meta = list(circs), list(meta)
    order = rng.permutation(len(circs))
    circs, meta = [circs[i] for i in order], [meta[i] for i in order]
    exps, metas = [], []
    for c, m in zip(circs, meta):
        if rng.random() < .3:
            exps.append(sim.exp_result('other', {sim.bits(0, n): 77}, [['meas', n]]))
            metas.append({'experiment': 'something', 'cal': sim.bits(2 ** n - 1, n)}
                         if rng.random() < .5 else {})
            mon.saw('foreign-ignored')
        reps = 1 + int(rng.random() < .3)
        if reps == 2:
            mon.saw('repeat-accumulates')
        for r in range(reps):
            shots = float(rng.integers(500, 5000))
            if isinstance(matrix_or_ro, dict):
                p = sim.outcome_probs(c, readout=matrix_or_ro)
            else:
                x = np.zeros(2 ** n)
                for k, v in sim.outcome_probs(c).items():
                    x[int(k, 2)] += v
                p = {sim.bits(i, n): v for i, v in enumerate(matrix_or_ro @ x)}
            exps.append(sim.exp_result(c.name, {k: v * shots for k, v in p.items()},
                                       [['meas', n]], shots=int(shots)))
            metas.append(m)
    return ExpvalMeasMitigatorFitter(sim.result(exps), metas)


def case_product(mon, case):
    rng = np.random.default_rng(case['seed'])
    n, method = case['n'], case['method']
    ro = {q: sim.random_readout(rng, .001, .2) for q in range(n)}
    circs, meta = expval_meas_mitigator_circuits(n, method=method)
    fit = _fit(mon, rng, circs, meta, method, ro, n)
    mit = fit.fit() if rng.random() < .5 else fit.fit(method=method)
    mon.check(fit.mitigator is mit, 'mitigator-property')
    tag = 'CTMP' if method == 'ctmp' else method
    mon.close(mit.assignment_matrix(), sim.kron_readout([ro[q] for q in range(n)]), 'fit-' + tag,
              'fitted assignment matrix differs from the noise', atol=1e-4)
    # complete calibration data supports every method
    if method == 'complete' and n <= 3:
        for other in ('tensored', 'CTMP'):
            mon.close(fit.fit(method=other).assignment_matrix(),
                      sim.kron_readout([ro[q] for q in range(n)]), 'fit-' + other, atol=1e-4)


def case_correlated(mon, case):
    rng = np.random.default_rng(case['seed'])
    n = case['n']
    a = sim.random_stochastic(rng, 2 ** n, .4)
    circs, meta = expval_meas_mitigator_circuits(n, method='complete')
    mit = _fit(mon, rng, circs, meta, 'complete', a, n).fit()
    mon.close(mit.assignment_matrix(), a, 'fit-correlated', atol=1e-7)


def case_ctmp2(mon, case):
    """two-qubit noise generated by every standard generator"""
    rng = np.random.default_rng(case['seed'])
    gens = [(b, s, (q,)) for q in (0, 1) for b, s in (('1', '0'), ('0', '1'))]
    gens += [('11', '00', (0, 1)), ('00', '11', (0, 1)), ('10', '01', (0, 1)), ('10', '01', (1, 0))]
    rates = [rng.uniform(.001, .1) for _ in gens]
    a, _ = ctmp_matrix(gens, rates, 2)
    circs, meta = expval_meas_mitigator_circuits(2, method='CTMP')
    mit = _fit(mon, rng, circs, meta, 'CTMP', a, 2).fit()
    mon.close(mit.assignment_matrix(), a, 'fit-ctmp-correlated',
              'fitted assignment matrix differs from the noise', atol=1e-4)


def case_sampled(mon, case):
    """finite shots: a valid noise model near the true noise"""
    rng = np.random.default_rng(case['seed'])
    n, method, shots = case['n'], case['method'], case['shots']
    hi = float(rng.choice([.005, .03, .1]))
    ro = [sim.random_readout(rng, 0, hi) for _ in range(n)]
    a = sim.kron_readout(ro)
    circs, meta = expval_meas_mitigator_circuits(n, method=method)
    exps = []
    for c, m in zip(circs, meta):
        cts = rng.multinomial(shots, a[:, int(m['cal'], 2)])
        exps.append(sim.exp_result(c.name, {sim.bits(i, n): int(v) for i, v in enumerate(cts) if v},
                                   [['meas', n]]))
    mit = ExpvalMeasMitigatorFitter(sim.result(exps), meta).fit()
    got = np.asarray(mit.assignment_matrix())
    mon.close(got.sum(axis=0), np.ones(2 ** n), 'stochastic', 'columns do not sum to one',
              atol=1e-8)
    mon.check(got.min() > -1e-9, 'stochastic', 'negative probabilities', lowest=got.min(),
              state=round(float(got.min()), 9))
    # six standard deviations (with the smoothing of pair averages for CTMP)
    mon.close(got, a, 'statistical', 'fitted matrix is far from the noise',
              atol=.005 * (n + 1) + 8 * np.sqrt((hi + 1 / shots) / shots) * (n + 1), rtol=0)
    if method.lower() == 'ctmp':
        gen_mat = np.asarray(mit.generator_matrix().toarray())
        off = gen_mat - np.diag(np.diag(gen_mat))
        mon.check(off.min() > -1e-12, 'rates', 'negative transition rates', lowest=off.min())
        mon.close(gen_mat.sum(axis=0), np.zeros(2 ** n), 'rates', 'rates are not conserved',
                  atol=1e-9)


def case_spectators(mon, case):
    """Correlated readout: each qubit is fitted from the pooled shots where the others read right."""
    rng = np.random.default_rng(case['seed'])
    n = case['n']
    exps, metas, pooled = [], [], {}
    for cal in [0, 2 ** n - 1] * int(rng.integers(1, 4)):
        counts = {cal: int(rng.integers(500, 3000))}
        for q in range(n):
            counts[cal ^ (1 << q)] = int(rng.integers(1, 200))
            if rng.random() < .8:
                other = cal ^ (1 << q) ^ (1 << int(rng.integers(n)))
                counts[other] = counts.get(other, 0) + int(rng.integers(1, 200))
        exps.append(sim.exp_result('cal', {sim.bits(k, n): v for k, v in counts.items()},
                                   [['meas', n]]))
        metas.append({'experiment': 'meas_mit', 'cal': sim.bits(cal, n), 'method': 'tensored'})
        cell = pooled.setdefault(cal, {})
        for k, v in counts.items():
            cell[k] = cell.get(k, 0) + v
    mit = ExpvalMeasMitigatorFitter(sim.result(exps), metas).fit()
    for q in range(n):
        want = np.zeros((2, 2))
        for cal, cell in pooled.items():
            for k, v in cell.items():
                if (k ^ cal) & ~(1 << q) == 0:
                    want[(k >> q) & 1, (cal >> q) & 1] += v
        want /= want.sum(axis=0)
        mon.close(mit.assignment_matrix([q]), want, 'conditional', 'matrix of one qubit', atol=1e-9,
                  state=(n, q, np.round(want, 6)))


def case_reject(mon, case):
    circs, meta = expval_meas_mitigator_circuits(2, method='tensored')
    fit = ExpvalMeasMitigatorFitter(sim.run(circs, exact=True), meta)
    mon.raises(QiskitError, lambda: fit.mitigator, 'unfitted-rejected')
    mon.raises(QiskitError, lambda: fit.fit(method='complete'), 'insufficient-rejected',
               'fit from insufficient calibration data accepted')
    mon.raises(QiskitError, lambda: fit.fit(method='zzz'), 'method-rejected')
    # no generator produces a readout that is wrong more often than right
    rng = np.random.default_rng(case['seed'])
    n = int(rng.integers(1, 4))
    ro = {q: sim.random_readout(rng, .01, .1) for q in range(n)}
    worst = int(rng.integers(n))
    ro[worst] = np.array([[.3, .8], [.7, .2]])
    circs, meta = expval_meas_mitigator_circuits(n, method='CTMP')
    odd = _fit(mon, rng, circs, meta, 'CTMP', ro, n)
    mon.raises(QiskitError, odd.fit, 'no-generator-rejected', 'noise without generator accepted')
    mon.raises(QiskitError, lambda: expval_meas_mitigator_circuits(2, method='zzz'),
               'method-rejected')
