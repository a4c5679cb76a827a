"""C10: state tomography returns the measured state, from any history of results."""
import itertools
from ast import literal_eval

import numpy as np
from qiskit import QuantumCircuit, QiskitError
from qiskit.ignis.verification.tomography import (state_tomography_circuits,
                                                  StateTomographyFitter, TomographyFitter)
from qiskit.ignis.verification.tomography.basis import TomographyBasis
from vm import sim, gen
from vm.props.c09 import pick_qubits

PROP = 'C10'
LEVEL = 'exploration'
RULE = ('random circuits, qubit subsets and orders, measurement bases, splittings of the data '
        'over results and add-data calls; a state is one distinct reconstructed density matrix '
        'or accumulated data table')
ASSUMPTIONS = ['exact probabilities are injected as real-valued counts']


def cases(rng, tier):
    n = 300 if tier == 'quick' else 900
    for i in range(n):
        m = rng.choice([1, 1, 2, 2, 2, 3]) if i % 50 != 7 else 4
        yield 'exact', {'n': rng.randint(m, 4 if rng.random() < .7 else 11), 'm': m, 'own': rng.choice([0, 0, 0, 1, 2]),
                        'form': rng.choice(['int', 'qubit', 'regs', 'mixed']),
                        'weights': rng.random() < .6, 'beta': rng.choice([0.5, 0.0, 0.1, 2.0]),
                        'mode': rng.choice(['one', 'split', 'incremental', 'pieces']),
                        'method': 'cvx' if i % 15 == 0 and m < 3 else
                        rng.choice(['lstsq', 'lstsq', 'auto'])}
    for i in range(n // 2):
        yield 'history', {'m': rng.choice([1, 1, 2, 2, 3]) if i % 30 != 3 else 4, 'steps': rng.randint(1, 4),
                          'own': rng.choice([0, 0, 1])}
    for i in range(n // 4):
        yield 'custom', {'n': rng.randint(1, 3), 'k': rng.choice([3, 4, 5, 11])}
    yield 'errors', {}


def required_events(tier):
    return ['state-recovered', 'data-accumulated', 'custom-basis', 'missing-data',
            'repeated-counts']


def parts(rng, circs, k):
    order = [circs[i] for i in rng.permutation(len(circs))]
    cuts = sorted(int(x) for x in rng.integers(0, len(order) + 1, k - 1))
    out, last = [], 0
    for c in cuts + [len(order)]:
        out.append(order[last:c])
        last = c
    return [p for p in out if p]


def make_fitter(rng, cls, circs, runner, mode, *args):
    """Feed exact data in one of several equivalent ways."""
    names = (lambda cs: [c.name for c in cs]) if rng.random() < .4 else (lambda cs: list(cs))
    if mode == 'one':
        res = runner(circs)
        arg = [res] if rng.random() < .3 else res
        return cls(arg, names([circs[i] for i in rng.permutation(len(circs))]), *args)
    if mode == 'split':
        return cls([runner(p) for p in parts(rng, circs, 3)], names(circs), *args)
    if mode == 'pieces':
        # every experiment is measured in several unequal pieces that only add up to the truth
        total = runner(circs)
        piles = [[] for _ in range(int(rng.integers(2, 4)))]
        for exp in total.results:
            exp = exp.to_dict()
            left = dict(exp['data']['counts'])
            for j, pile in enumerate(piles):
                last = j == len(piles) - 1
                take = {k: v if last else v * float(rng.uniform(.05, .95)) for k, v in left.items()}
                left = {k: left[k] - v for k, v in take.items()}
                pile.append(dict(exp, data={'counts': take}))
        results = [type(total).from_dict(dict(total.to_dict(), results=[p[i] for i in rng.permutation(len(p))]))
                   for p in piles]
        if rng.random() < .4:
            return cls(results, names(circs), *args)
        fit = cls(results[0], names(circs), *args)
        for r in results[1:]:
            fit.add_data([r], names([circs[i] for i in rng.permutation(len(circs))]))
        return fit
    chunks = parts(rng, circs, 3)
    fit = cls(runner(chunks[0]), names(chunks[0]), *args)
    for p in chunks[1:]:
        fit.add_data([runner(p)], names(p))
    return fit


def case_exact(mon, case):
    rng = np.random.default_rng(case['seed'])
    circ = gen.random_circuit(rng, case['n'], own_cregs=case['own'])
    arg, idx = pick_qubits(rng, circ, case['m'], case['form'])
    rho = gen.reduced(circ, idx)
    circs = state_tomography_circuits(circ, arg)
    shots = float(rng.choice([1, 100, 1e5]))
    beta = case['beta']
    if case['method'] != 'lstsq':   # keep the weights within the accuracy of the SDP solver
        shots, beta = 1000.0, .5
    fit = make_fitter(rng, StateTomographyFitter, circs,
                      lambda cs: sim.run(cs, exact=True, shots=shots), case['mode'])
    tol = 1e-6 if case['method'] == 'lstsq' else 2e-2
    got = fit.fit(method=case['method'], standard_weights=case['weights'], beta=beta)
    mon.close(got, rho, 'state-recovered', 'reconstructed state differs', atol=tol, rtol=0,
              idx=idx)


def case_history(mon, case):
    """The data table is the sum of everything that was added."""
    rng = np.random.default_rng(case['seed'])
    m = case['m']
    circ = gen.random_circuit(rng, m, own_cregs=case['own'])
    circs = state_tomography_circuits(circ, list(range(m)))
    shadow = {}
    fit = None
    for step in range(case['steps']):
        pool = [circs[i] for i in rng.permutation(len(circs))]
        if fit is not None:
            pool = pool[:int(rng.integers(1, len(pool) + 1))]
        results = []
        nres = int(rng.integers(1, 5))
        # a circuit is in any of the results, but in one at least
        has = {c.name: {int(rng.integers(nres))} | {r for r in range(nres) if rng.random() < .5}
               for c in pool}
        for r in range(nres):
            exps = []
            for c in pool:
                if r not in has[c.name]:
                    continue
                past = shadow.get(literal_eval(c.name))
                if past and rng.random() < .3:    # exactly the counts seen so far, once more
                    cts = dict(past)
                    mon.saw('repeated-counts')
                else:
                    vals = rng.multinomial(int(rng.integers(1, 500)),
                                           rng.dirichlet(np.ones(2 ** m)))
                    cts = {sim.bits(i, m): int(v) for i, v in enumerate(vals) if v}
                sizes = sim.creg_sizes(c)
                extra = sum(s for _, s in sizes) - m
                exps.append(sim.exp_result(c.name, {'0' * extra + k: v for k, v in cts.items()},
                                           sizes))
                acc = shadow.setdefault(literal_eval(c.name), {})
                for k, v in cts.items():
                    acc[k] = acc.get(k, 0) + v
            results.append(sim.result(exps))
        frozen = [r.to_dict() for r in results]
        if fit is None:
            fit = StateTomographyFitter(results if len(results) > 1 else results[0], pool)
        else:
            fit.add_data(results, pool)
        got = {k: {a: b for a, b in dict(v).items() if b} for k, v in fit.data.items()}
        mon.equal(got, shadow, 'data-accumulated', 'data is not the sum of the added counts',
                  step=step)
        mon.equal([r.to_dict() for r in results], frozen, 'results-unmodified')


def rotated_basis(rng, k):
    """A random (overcomplete) set of projective single qubit measurements."""
    angles = {}
    while True:
        ops = []
        for i in range(k):
            th, ph = np.arccos(rng.uniform(-1, 1)), rng.uniform(0, 2 * np.pi)
            angles['M%d' % i] = (th, ph)
            v = np.array([np.cos(th / 2), np.exp(1j * ph) * np.sin(th / 2)])
            ops += [np.outer(v, v.conj()).ravel(), (np.eye(2) - np.outer(v, v.conj())).ravel()]
        if np.linalg.cond(np.array(ops)[[0, 1] + [2 * i for i in range(1, k)]]) < 30:
            break

    def circuit(op, qubit, clbit):
        th, ph = angles[op]
        c = QuantumCircuit(qubit.register, clbit.register)
        c.rz(-ph, qubit)
        c.ry(-th, qubit)
        c.measure(qubit, clbit)
        return c

    def matrix(op, outcome):
        th, ph = angles[op]
        v = np.array([np.cos(th / 2), np.exp(1j * ph) * np.sin(th / 2)])
        proj = np.outer(v, v.conj())
        return proj if outcome in (0, '0') else np.eye(2) - proj
    labels = tuple(sorted(angles))
    return TomographyBasis('rotated', measurement=(labels, circuit, matrix)), labels


def case_custom(mon, case):
    rng = np.random.default_rng(case['seed'])
    n = case['n']
    m = min(n, 2)
    basis, labels = rotated_basis(rng, case['k'])
    circ = gen.random_circuit(rng, n)
    idx = [int(i) for i in rng.permutation(n)[:m]]
    circs = state_tomography_circuits(circ, idx, meas_labels=labels, meas_basis=basis)
    mon.equal({literal_eval(c.name) for c in circs}, set(itertools.product(labels, repeat=m)),
              'custom-basis', 'label set')
    res = sim.run(circs, exact=True, shots=1000)
    rho = gen.reduced(circ, idx)
    got = StateTomographyFitter(res, circs, meas_basis=basis).fit(method='lstsq')
    mon.close(got, rho, 'custom-basis', 'state in custom basis', atol=1e-5, rtol=0)


def case_errors(mon, case):
    circ = QuantumCircuit(1)
    circs = state_tomography_circuits(circ, [0])
    res = sim.run(circs)
    part = sim.run(circs[:2])
    mon.raises(QiskitError, lambda: StateTomographyFitter(part, circs), 'missing-data')
    mon.raises(QiskitError, lambda: StateTomographyFitter(res, []), 'missing-data')
    fit = StateTomographyFitter(res, circs)
    mon.raises(QiskitError, lambda: fit.fit(method='nope'), 'missing-data')
    mon.raises(ValueError, lambda: fit.fit(method='lstsq', beta=-1), 'missing-data')
    mon.raises((QiskitError, ValueError), lambda: StateTomographyFitter(res, circs, 'SIC'),
               'missing-data')
    mon.raises((QiskitError, ValueError), lambda: StateTomographyFitter(res, circs, 'foo'),
               'missing-data')
    mon.raises((QiskitError, ValueError),
               lambda: TomographyFitter(res, circs, 'Pauli',
                                        TomographyBasis('m', measurement=(('X',), None, None))),
               'missing-data')
