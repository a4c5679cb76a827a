"""C05: subset calibration is the marginal calibration."""
import numpy as np
from qiskit import QiskitError
from qiskit.ignis.mitigation.measurement import CompleteMeasFitter, complete_meas_cal
from vm import sim

PROP = 'C05'
LEVEL = 'exploration'
RULE = ('random calibrations (correlated and product), random qubit lists and ordered subsets; a '
        'state is one distinct subset matrix')
ASSUMPTIONS = []


def cases(rng, tier):
    n = 500 if tier == 'quick' else 6000
    for i in range(n):
        q = rng.randint(1, 4) if i % 12 else rng.choice([5, 6])
        yield 'corr', {'n': q, 'k': rng.randint(1, q), 'perm': rng.random() < .4}
    for i in range(n // 3):
        q = rng.randint(2, 4) if i % 12 else rng.choice([5, 6])
        yield 'product', {'n': q, 'k': rng.randint(1, q)}
    for i in range(3):
        yield 'reject', {}


def required_events(tier):
    return ['marginal', 'product-calibration', 'subset-filter', 'unknown-rejected',
            'subset-accumulates']


def _marginal(a, labels, qubits, sub):
    n, k = len(qubits), len(sub)
    pos = [qubits.index(q) for q in sub]
    out = np.zeros((2 ** k, 2 ** k))

    def red(lab):
        return sum(int(lab[-1 - p]) << i for i, p in enumerate(pos))
    for i, li in enumerate(labels):
        for j, lj in enumerate(labels):
            out[red(li), red(lj)] += a[i, j] / 2 ** (n - k)
    return out


def case_corr(mon, case):
    rng = np.random.default_rng(case['seed'])
    n, k = case['n'], case['k']
    qubits = [int(x) for x in rng.permutation(8)[:n]]
    sub = [qubits[i] for i in rng.permutation(n)[:k]]
    labels = [sim.bits(i, n) for i in range(2 ** n)]
    if case['perm']:
        labels = [labels[i] for i in rng.permutation(2 ** n)]
    a = sim.random_stochastic(rng, 2 ** n, .6)
    fit = CompleteMeasFitter(None, list(labels), qubit_list=list(qubits))
    fit.cal_matrix = a
    new = fit.subset_fitter(list(sub))
    want = _marginal(a, labels, qubits, sub)
    slabels = list(new.state_labels)
    mon.equal(sorted(slabels), [sim.bits(i, k) for i in range(2 ** k)], 'subset-labels')
    idx = [int(x, 2) for x in slabels]
    mon.close(new.cal_matrix, want[np.ix_(idx, idx)], 'marginal', 'not the marginal calibration',
              qubits=qubits, sub=sub)
    mon.equal(list(new.qubit_list), sub, 'subset-qubits')
    mon.close(np.array(new.cal_matrix).sum(axis=0), np.ones(2 ** k), 'column-stochastic')
    mon.close(fit.cal_matrix, a, 'original-unchanged')
    mon.close(new.readout_fidelity(), np.trace(want) / 2 ** k, 'subset-fidelity')
    if np.linalg.cond(want) < 1e4:
        x = rng.dirichlet(np.ones(2 ** k)) * 100
        raw = {sim.bits(i, k): v for i, v in enumerate(want @ x)}
        out = new.filter.apply(raw, method='pseudo_inverse')
        mon.close([out.get(sim.bits(i, k), 0) for i in range(2 ** k)], x, 'subset-filter',
                  atol=1e-5)


def case_product(mon, case):
    rng = np.random.default_rng(case['seed'])
    n, k = case['n'], case['k']
    qubits = [int(x) for x in rng.permutation(n + 1)[:n]]
    sub = [qubits[i] for i in rng.permutation(n)[:k]]
    ro = {q: sim.random_readout(rng) for q in qubits}
    circs, labels = complete_meas_cal(qubit_list=qubits)
    fit = CompleteMeasFitter(sim.run(circs, readout=ro, exact=True, shots=1000), labels,
                             qubit_list=qubits)
    new = fit.subset_fitter(sub)
    mon.close(new.cal_matrix, sim.kron_readout([ro[q] for q in sub]), 'product-calibration',
              'not the calibration of the requested qubits', qubits=qubits, sub=sub)
    # a second round of calibration data keeps the restriction consistent
    fit.add_data(sim.run(circs, readout=ro, exact=True, shots=500))
    mon.close(fit.subset_fitter(sub[:1]).cal_matrix, ro[sub[0]], 'subset-accumulates')


def case_reject(mon, case):
    fit = CompleteMeasFitter(None, ['0', '1'], qubit_list=[3])
    mon.raises(QiskitError, lambda: fit.subset_fitter([3]), 'unset-rejected')
    fit.cal_matrix = np.eye(2)
    mon.raises(QiskitError, lambda: fit.subset_fitter([0]), 'unknown-rejected')
    mon.raises(QiskitError, fit.subset_fitter, 'unknown-rejected')
    rng = np.random.default_rng(case['seed'])
    for _ in range(20):
        n = int(rng.integers(1, 5))
        qubits = [int(q) for q in rng.permutation(9)[:n]]
        fit = CompleteMeasFitter(None, [sim.bits(i, n) for i in range(2 ** n)], qubit_list=qubits)
        fit.cal_matrix = np.eye(2 ** n)
        known = [int(q) for q in rng.permutation(qubits)[:int(rng.integers(0, n + 1))]]
        bad = list(known)
        bad.insert(int(rng.integers(len(known) + 1)),
                   int(rng.choice([q for q in range(12) if q not in qubits])))
        mon.raises(QiskitError, lambda f=fit, b=bad: f.subset_fitter(b), 'unknown-rejected')
