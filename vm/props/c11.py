"""C11: process tomography returns the channel that was run."""
import numpy as np
from qiskit import QiskitError
from qiskit.ignis.verification.tomography import (process_tomography_circuits,
                                                  ProcessTomographyFitter)
from vm import sim, gen
from vm.props.c09 import channel_output
from vm.props.c10 import make_fitter

PROP = 'C11'
LEVEL = 'exploration'
RULE = ('random (possibly non-unitary, ancilla-generated) channels, prepared and measured qubit '
        'orders, preparation bases and data histories; a state is one distinct Choi matrix')
ASSUMPTIONS = ['exact probabilities are injected as real-valued counts']


def cases(rng, tier):
    n = 110 if tier == 'quick' else 1200
    for i in range(n):
        m = 2 if i % 5 == 0 else 1
        yield 'channel', {'n': rng.randint(m, 3 if rng.random() < .7 else 8), 'm': m,
                          'prep': rng.choice(['Pauli', 'SIC']), 'full': rng.random() < .2,
                          'other': rng.random() < .5, 'own': rng.choice([0, 0, 1]),
                          'weights': rng.random() < .6, 'beta': rng.choice([0.5, 0.0, 1.0]),
                          'mode': rng.choice(['one', 'split', 'incremental', 'pieces']),
                          'method': rng.choice(['cvx', 'auto']) if m == 1 and i % 4 == 1
                          else 'lstsq'}
    yield 'errors', {}
    if tier == 'thorough':
        for i in range(6):
            yield 'channel', {'n': 2, 'm': 2, 'prep': 'Pauli', 'other': False, 'own': 0,
                              'weights': True, 'beta': 0.5, 'mode': 'one', 'method': 'cvx',
                              'opt': True}


def required_events(tier):
    return ['channel-recovered', 'channel-type', 'rejected']


def choi(circ, prep, meas):
    k = 2 ** len(prep)
    out = np.zeros((k * k, k * k), dtype=complex)
    for i in range(k):
        for j in range(k):
            e_ij = np.zeros((k, k), dtype=complex)
            e_ij[i, j] = 1
            out += np.kron(e_ij, channel_output(circ, e_ij, prep, meas))
    return out


def case_channel(mon, case):
    rng = np.random.default_rng(case['seed'])
    n, m = case['n'], case['m']
    circ = gen.random_circuit(rng, n, own_cregs=case['own'])
    idx = [int(i) for i in rng.permutation(n)[:m]]
    pidx = [int(i) for i in rng.permutation(n)[:m]] if case['other'] else idx
    kw = {'prep_labels': case['prep'], 'prep_basis': case['prep']}
    if case.get('full') and case['prep'] == 'Pauli' and m == 1:
        kw['prep_labels'] = ('Xp', 'Xm', 'Yp', 'Ym', 'Zp', 'Zm')
    if case['other']:
        kw['prepared_qubits'] = pidx
    circs = process_tomography_circuits(circ, idx, **kw)
    fit = make_fitter(rng, ProcessTomographyFitter, circs,
                      lambda cs: sim.run(cs, exact=True, shots=1e4), case['mode'],
                      'Pauli', case['prep'])
    want = choi(circ, pidx, idx)
    got = fit.fit(method=case['method'], standard_weights=case['weights'], beta=case['beta'])
    tol = 1e-6 if case['method'] == 'lstsq' else 2e-2
    mon.equal(type(got).__name__, 'Choi', 'channel-type')
    mon.close(got.data, want, 'channel-recovered', 'reconstructed channel differs', atol=tol,
              rtol=0, idx=idx, pidx=pidx)
    # prediction on a random input
    k = 2 ** m
    v = rng.normal(size=k) + 1j * rng.normal(size=k)
    rho = np.outer(v, v.conj()) / np.vdot(v, v).real
    out = got._evolve(rho) if not hasattr(got, 'evolve') else None
    if out is None:
        from qiskit.quantum_info import DensityMatrix
        out = DensityMatrix(rho).evolve(got).data
    mon.close(out, channel_output(circ, rho, pidx, idx), 'channel-recovered',
              'channel maps a state wrongly', atol=5 * tol, rtol=0)


def case_errors(mon, case):
    rng = np.random.default_rng(case['seed'])
    circ = gen.random_circuit(rng, 1)
    circs = process_tomography_circuits(circ, [0])
    res = sim.run(circs)
    fit = ProcessTomographyFitter(res, circs)
    mon.raises(QiskitError, lambda: fit.fit(method='nope'), 'rejected')
    mon.raises(QiskitError, lambda: ProcessTomographyFitter(sim.run(circs[:-1]), circs),
               'rejected')
    mon.raises((QiskitError, ValueError), lambda: ProcessTomographyFitter(res, circs, 'SIC'),
               'rejected')
