"""C23: quantum volume fitter."""
import copy
import math

import numpy as np
from qiskit import QiskitError
from qiskit.result.models import ExperimentResult, ExperimentResultData
from qiskit.qobj import QobjExperimentHeader
from qiskit.ignis.verification.quantum_volume import QVFitter, qv_circuits
from vm import sim

PROP = 'C23'
LEVEL = 'exploration'
RULE = ('random ideal states (generic, sparse, uniform, with ties), random measured counts, 1-60 '
        'trials, results split over circuits, depths and add-data calls in any order, some with '
        'unequal shots; a state is one distinct set of statistics')


def cases(rng, tier):
    n = 150 if tier == 'quick' else 4000
    for i in range(n):
        yield 'history', {'trials': rng.choice([1, 2, 3, 5, 11, 60]),
                          'psi': rng.choice(['haar', 'haar', 'sparse', 'uniform', 'ties']),
                          'mode': rng.choice(['one', 'trial', 'depth', 'repeat'])}
    for i in range(n // 3):
        yield 'decision', {'trials': rng.choice([5, 20, 60, 120]), 'hop': rng.uniform(.55, .95)}
    for i in range(n // 10):
        yield 'edge', {'trials': rng.choice([5, 20, 60]), 'z': rng.choice([-1, 1]) * 10 ** rng.uniform(-4.5, -1)}
    for i in range(12):
        yield 'endtoend', {}
        yield 'reject', {}


def required_events(tier):
    return ['heavy-outputs', 'heavy-probability', 'heavy-counts', 'statistics', 'success',
            'confidence', 'quantum-volume', 'end-to-end', 'rejected', 'success-true',
            'success-false', 'inputs-unmodified', 'near-threshold']


def sv_exp(name, psi, n):
    header = QobjExperimentHeader(name=name, creg_sizes=[], memory_slots=0, clbit_labels=[],
                                  n_qubits=n, qreg_sizes=[['q', n]],
                                  qubit_labels=[['q', i] for i in range(n)])
    return ExperimentResult(shots=1, success=True, header=header,
                            data=ExperimentResultData(statevector=np.array(psi)))


def random_state(rng, n, kind):
    d = 2 ** n
    if kind == 'uniform':
        return np.exp(2j * np.pi * rng.random(d)) / np.sqrt(d)
    psi = rng.normal(size=d) + 1j * rng.normal(size=d)
    if kind == 'sparse':
        psi[rng.random(d) < .6] = 0
        psi[int(rng.integers(d))] = 1
    if kind == 'ties':
        psi = rng.integers(0, 3, d) + 0j
        psi[0] = 1
    return psi / np.linalg.norm(psi)


def heavy(psi):
    """Strings strictly above the median; None where rounding could decide."""
    p = np.abs(psi) ** 2
    med = np.median(p)
    n = int(np.log2(len(p)))
    sure = {sim.bits(i, n) for i in range(len(p)) if p[i] > med + 1e-12}
    maybe = {sim.bits(i, n) for i in range(len(p)) if abs(p[i] - med) <= 1e-12 and p[i] > 0}
    return sure, maybe


def check_all(mon, fit, lists, states, counts):
    depths = [len(q) for q in lists]
    trials = 1 + max(t for _, t in counts)
    mean = []
    ideal = []
    for d in depths:
        hits = shots = 0
        hp = []
        for t in range(trials):
            name = 'qv_depth_%d_trial_%d' % (d, t)
            hv = set(fit.heavy_outputs[name])
            c = counts[d, t]
            h = sum(v for k, v in c.items() if k in hv)
            mon.close(fit.heavy_output_counts[name], h, 'heavy-counts',
                      'heavy counts of %s' % name)
            hits += h
            shots += sum(c.values())
            p = np.abs(states[d, t]) ** 2
            hp.append(sum(p[int(k, 2)] for k in hv))
            mon.close(fit.heavy_output_prob_ideal[name], hp[-1], 'heavy-probability')
        mean.append(hits / shots)
        ideal.append(np.mean(hp))
    mean, ideal = np.array(mean), np.array(ideal)
    y = np.asarray(fit.ydata)
    mon.equal(y.shape, (4, len(depths)), 'statistics', fatal=True)
    mon.close(y[0], mean, 'statistics', 'measured heavy output probability')
    mon.close(y[1], np.sqrt(mean * (1 - mean) / trials), 'statistics', 'its error', atol=1e-6)
    mon.close(y[2], ideal, 'statistics', 'ideal heavy output probability')
    part = ideal < 1 - 1e-9     # rounding decides the error of a certain outcome
    mon.close(y[3][part], np.sqrt(ideal * (1 - ideal) / trials)[part], 'statistics',
              'its error', atol=1e-6)
    out = fit.qv_success()
    mon.equal(len(out), len(depths), 'success')
    for m, (ok, conf) in zip(mean, out):
        sigma = math.sqrt(m * (1 - m) / trials)
        if sigma > 1e-6:
            z = (m - 2 / 3) / sigma
            mon.close(conf, .5 * math.erfc(-z / math.sqrt(2)), 'confidence', atol=1e-7)
            if abs(z - 2) > 1e-6:
                mon.equal(bool(ok), z > 2, 'success', 'heavy output probability %s, z=%s' % (m, z))
                mon.saw('success-true' if ok else 'success-false')
        else:
            mon.equal(bool(ok), m > 2 / 3, 'success')
    mon.equal([int(v) for v in fit.quantum_volume()], [2 ** d for d in depths], 'quantum-volume')
    mon.equal(list(fit.depths), depths, 'quantum-volume')


def build(rng, case, lists, trials, hop=None):
    depths = [len(q) for q in lists]
    states, counts, sv, exps = {}, {}, [], []
    for t in range(trials):
        for d in depths:
            name = 'qv_depth_%d_trial_%d' % (d, t)
            psi = random_state(rng, d, case.get('psi', 'haar'))
            states[d, t] = psi
            sv.append(sv_exp(name, psi, d))
            shots = int(rng.integers(1, 2000))
            p = rng.dirichlet(np.ones(2 ** d) * .5)
            if hop is not None:
                hv = [int(x, 2) for x in heavy(psi)[0]]
                p = np.full(2 ** d, 1e-12)
                p[hv] += hop / max(1, len(hv))
                rest = [i for i in range(2 ** d) if i not in hv]
                p[rest] += (1 - hop) / len(rest)
                p /= p.sum()
                shots = 1000
            c = rng.multinomial(shots, p)
            counts[d, t] = {sim.bits(i, d): int(v) for i, v in enumerate(c) if v}
            exps.append(((d, t), sim.exp_result(name, counts[d, t], [['c', d]])))
    return states, counts, sv, exps


def make_lists(rng):
    wide = rng.random() < .15
    sizes = sorted(int(x) for x in rng.choice([1, 2, 3, 4, 5, 7, 8, 10] if wide else [1, 2, 3, 4],
                                              int(rng.integers(1, 4)) if rng.random() < .8 else 4,
                                              replace=False))
    return [[int(q) for q in rng.choice(12 if wide else 6, s, replace=False)] for s in sizes]


def case_history(mon, case):
    rng = np.random.default_rng(case['seed'])
    lists = make_lists(rng)
    trials = case['trials']
    states, counts, sv, exps = build(rng, case, lists, trials)
    if rng.random() < .5:
        fit = QVFitter(sim.result([e for _, e in exps]), sim.result(sv), lists) \
            if case['mode'] == 'one' else QVFitter(None, sim.result(sv), lists)
    else:
        fit = QVFitter(qubit_lists=lists)
        half = len(sv) // 2
        for part in (sv[:half], sv[half:]):
            if part:
                fit.add_statevectors(sim.result(part) if rng.random() < .5
                                     else [sim.result(part)])
        if case['mode'] == 'one':
            fit.add_data(sim.result([e for _, e in exps]))
    for (d, t), psi in states.items():
        sure, maybe = heavy(psi)
        got = set(fit.heavy_outputs['qv_depth_%d_trial_%d' % (d, t)])
        mon.check(sure <= got <= sure | maybe, 'heavy-outputs',
                  'not the strings above the median', got=sorted(got), sure=sorted(sure),
                  state=sorted(got))
    if case['mode'] != 'one':
        groups = {}
        for (d, t), e in exps:
            groups.setdefault(t if case['mode'] in ('trial', 'repeat') else d, []).append(e)
        res = [sim.result(g) for g in groups.values()]
        order = list(rng.permutation(len(res)))
        before = [copy.deepcopy(r.to_dict()) for r in res]
        if case['mode'] == 'repeat' and rng.random() < .5:
            fit.add_data([res[i] for i in order])
        else:
            for i in order[:-1]:
                fit.add_data(res[i], rerun_fit=False)
            fit.add_data(res[order[-1]])
        mon.equal([r.to_dict() for r in res], before, 'inputs-unmodified')
    check_all(mon, fit, lists, states, counts)
    if case['mode'] == 'repeat':
        (d, t) = exps[int(rng.integers(len(exps)))][0]
        extra = {sim.bits(i, d): int(v) for i, v in enumerate(
            rng.multinomial(500, np.ones(2 ** d) / 2 ** d)) if v}
        more = [sim.result([sim.exp_result('qv_depth_%d_trial_%d' % (d, t), extra, [['c', d]])])
                for _ in range(2)]
        if rng.random() < .3:
            more[1] = more[0]
        for res in more:    # the second time with the very same counts
            fit.add_data(res)
            counts[d, t] = {k: counts[d, t].get(k, 0) + extra.get(k, 0)
                            for k in set(counts[d, t]) | set(extra)}
            check_all(mon, fit, lists, states, counts)
        mon.saw('same-counts-again')


def case_decision(mon, case):
    rng = np.random.default_rng(case['seed'])
    lists = [[0, 1, 2], [3, 1, 0, 2]][:int(rng.integers(1, 3))]
    states, counts, sv, exps = build(rng, case, lists, case['trials'], hop=case['hop'])
    fit = QVFitter(sim.result([e for _, e in exps]), sim.result(sv), lists)
    check_all(mon, fit, lists, states, counts)


def case_edge(mon, case):
    """The decision close to two standard deviations above 2/3."""
    rng = np.random.default_rng(case['seed'])
    lists = [[2, 0, 1]]
    trials = case['trials']
    states, counts, sv, _ = build(rng, case, lists, trials, hop=.8)
    low, high = 2 / 3, 1 - 1e-9
    for _ in range(100):
        mid = (low + high) / 2
        if (mid - 2 / 3) / math.sqrt(mid * (1 - mid) / trials) < 2 + case['z']:
            low = mid
        else:
            high = mid
    shots = 10 ** 8
    exps = []
    for t in range(trials):
        hv = sorted(heavy(states[3, t])[0])
        rest = [sim.bits(i, 3) for i in range(8) if sim.bits(i, 3) not in hv]
        counts[3, t] = {hv[0]: int(round(low * shots)), rest[-1]: shots - int(round(low * shots))}
        exps.append(sim.exp_result('qv_depth_3_trial_%d' % t, counts[3, t], [['c', 3]]))
    fit = QVFitter(sim.result(exps), sim.result(sv), lists)
    check_all(mon, fit, lists, states, counts)
    mon.saw('near-threshold', (trials, low))
    big = [list(range(int(d))) for d in rng.integers(20, 60, 3)]
    mon.equal([int(v) for v in QVFitter(qubit_lists=big).quantum_volume()], [2 ** len(q) for q in big],
              'quantum-volume', 'volume of a wide list')


def case_endtoend(mon, case):
    """circuits -> exact execution -> fitter: the measured heavy output probability of a noiseless
    device is the ideal one, whatever the qubit list."""
    rng = np.random.default_rng(case['seed'])
    lists = make_lists(rng)
    circs, ideal = qv_circuits(lists, ntrials=3, seed=int(rng.integers(1000)))
    sv = sim.result([sv_exp(c.name, sim.statevector(c), c.num_qubits) for tr in ideal for c in tr])
    fit = QVFitter(sim.run([c for tr in circs for c in tr], exact=True, shots=1e6), sv, lists)
    mon.close(fit.ydata[0], fit.ydata[2], 'end-to-end',
              'noiseless device does not reach the ideal heavy output probability', atol=1e-6,
              lists=lists)


def case_reject(mon, case):
    rng = np.random.default_rng(case['seed'])
    lists = make_lists(rng)
    states, counts, sv, exps = build(rng, {}, lists, 2)
    fit = QVFitter(None, sim.result(sv), lists)
    mon.raises(QiskitError, lambda: fit.add_statevectors(sim.result([sv[0]])), 'rejected',
               'ideal result added twice')
    d = len(lists[0])
    stray = sim.exp_result('qv_depth_%d_trial_7' % d, {'0' * d: 5}, [['c', d]])
    mon.raises(QiskitError, lambda: fit.add_data(sim.result([stray])), 'rejected',
               'data without an ideal result')
    fit.add_data(sim.result([e for _, e in exps]))
    check_all(mon, fit, lists, states, counts)
    mon.raises(QiskitError, lambda: fit.add_statevectors(sim.result([sv[-1]])), 'rejected',
               'ideal result added again after the data')
    check_all(mon, fit, lists, states, counts)
    # a batch with one repeated circuit is rejected as a whole and can be given again without it
    fit = QVFitter(None, sim.result(sv[:1]), lists)
    batch = [sv[int(i)] for i in rng.permutation(len(sv))]
    arg = sim.result(batch) if rng.random() < .5 else [sim.result([e]) for e in batch]
    mon.raises(QiskitError, lambda: fit.add_statevectors(arg), 'rejected', 'repeated ideal result')
    rest = sv[1:]
    if rest:
        mon.raises(QiskitError, lambda: fit.add_data(sim.result([e for _, e in exps])), 'rejected',
                   'data accepted although its ideal results were rejected')
        fit.add_statevectors(sim.result(rest))
    fit.add_data([sim.result([e]) for _, e in exps])
    check_all(mon, fit, lists, states, counts)
    fit = QVFitter(None, sim.result(sv), lists)
    mon.raises(QiskitError, lambda: fit.add_data([sim.result([exps[0][1]]), sim.result([stray])]),
               'rejected', 'one of several results without ideal result')
    fit.add_data([sim.result([e]) for _, e in exps])
    check_all(mon, fit, lists, states, counts)
    fit = QVFitter(None, None, lists)
    twice = [sim.result([sv[0]]), sim.result([sv[0]])]
    mon.raises(QiskitError, lambda: fit.add_statevectors(twice), 'rejected',
               'ideal result given twice in one call')
    mon.raises(QiskitError, lambda: fit.add_data(sim.result([exps[0][1]])), 'rejected',
               'data before the ideal result')
