"""C36: calls and objects do not interfere: pure functions, unchanged arguments, no shared state."""
import contextlib
import functools
import io
import warnings

import numpy as np
from qiskit import QuantumCircuit, QuantumRegister
from qiskit.circuit.library import SGate
import qiskit.ignis.verification.randomized_benchmarking as rb
from qiskit.ignis.characterization.coherence import t1_circuits, t2_circuits, t2star_circuits
from qiskit.ignis.characterization.hamiltonian import zz_circuits
from qiskit.ignis.characterization.gates import (
    ampcal_1Q_circuits, ampcal_cx_circuits, anglecal_1Q_circuits, anglecal_cx_circuits)
from qiskit.ignis.characterization.calibrations import rabi_schedules, drag_schedules
from qiskit.ignis.mitigation.expval import (
    expval_meas_mitigator_circuits, ExpvalMeasMitigatorFitter, expectation_value,
    CompleteExpvalMeasMitigator, TensoredExpvalMeasMitigator)
from qiskit.ignis.mitigation.expval.utils import counts_probability_vector
from qiskit.ignis.mitigation.measurement import (
    complete_meas_cal, tensored_meas_cal, CompleteMeasFitter, TensoredMeasFitter)
from qiskit.ignis.utils import build_counts_dict_from_list
from qiskit.ignis.verification.accreditation import (
    AccreditationCircuits, AccreditationFitter, QOTP, QOTPCorrectCounts)
from qiskit.ignis.verification.entanglement import (
    get_ghz_simple, get_ghz_mqc, get_ghz_po, composite_pauli_z_expvalue, ordered_list_generator,
    Plotter, BConfig)
from qiskit.ignis.verification.quantum_volume import qv_circuits, QVFitter
from qiskit.ignis.verification.tomography import (
    state_tomography_circuits, process_tomography_circuits, gateset_tomography_circuits,
    StateTomographyFitter, ProcessTomographyFitter, GatesetTomographyFitter, marginal_counts,
    combine_counts, expectation_counts, count_keys)
from qiskit.ignis.verification.topological_codes import (
    RepetitionCode, GraphDecoder, lookuptable_decoding, postselection_decoding)
from vm import acctools as at
from vm import gen, sim
from vm.purity import canon, differ, scribble
from vm.rbtools import random_pattern, interleaved_choice, random_dihedral_circuit
from vm.props import c19, c23, c25, c27, c29, c30, c31, c32

PROP = 'C36'
LEVEL = 'exploration'
RULE = ('random sessions over the whole public interface: seeded and deterministic functions called '
        'repeatedly, interleaved with others, after their earlier results were overwritten; pairs '
        'of fitter objects read in random orders; a state is one distinct (operation, value)')
ASSUMPTIONS = ['functions drawing random numbers are given an explicit seed',
               'values are compared to 1e-7 relative, solver results to 1e-5']


def cases(rng, tier):
    n = 2 if tier == 'quick' else 60
    for _ in range(n):
        for k in range(0, len(FUNCS), 4):
            names = sorted(FUNCS)
            yield 'functions', {'names': names[k:k + 4] + rng.sample(names, 2)}
        for name in sorted(OBJECTS):
            yield 'objects', {'name': name, 'other': rng.choice(sorted(OBJECTS))}


def required_events(tier):
    return ['arguments-unchanged', 'repeatable', 'history-independent', 'results-not-shared',
            'accessor-stable', 'instances-independent', 'constructor-arguments'] + \
        ['fn:' + k for k in FUNCS] + ['obj:' + k for k in OBJECTS]


# ------------------------------------------------------------------ building blocks

def ints(rng, hi, size):
    return [int(v) for v in rng.choice(hi, size=size, replace=False)]


def rand_counts(rng, n, shots=500):
    vals = rng.multinomial(shots, rng.dirichlet(np.ones(2 ** n) * .7))
    out = {sim.bits(i, n): int(v) for i, v in enumerate(vals) if v}
    return out


def faked(rng, circs, shots=2000):
    """A result with random counts for every circuit."""
    exps = []
    for c in circs:
        n = sum(r.size for r in c.cregs)
        exps.append(sim.exp_result(c.name, rand_counts(rng, n, shots), sim.creg_sizes(c)))
    return sim.result(exps)


@functools.lru_cache(maxsize=1)
def ghz_backend():
    from qiskit.test.mock import FakeMelbourne
    return FakeMelbourne()


def rb_options(rng):
    dihedral = rng.random() < .3
    pattern = random_pattern(rng, 3, sizes=(1, 2), max_groups=2)
    opts = {'nseeds': int(rng.integers(1, 3)), 'length_vector': sorted(ints(rng, 6, 2)),
            'rb_pattern': pattern, 'rand_seed': int(rng.integers(1, 1000)),
            'length_multiplier': [int(v) for v in rng.integers(1, 3, len(pattern))]}
    opts['length_vector'] = [v + 1 for v in opts['length_vector']]
    if dihedral:
        opts['group_gates'] = 'CNOT-Dihedral'
    kind = rng.integers(3)
    if kind == 1:
        opts['interleaved_elem'] = [interleaved_choice(
            rng, len(p), dihedral, lambda c: rb.CNOTDihedral(c))[0] for p in pattern]
    elif kind == 2 and not dihedral and len({len(p) for p in pattern}) == 1:
        opts['is_purity'] = True
        del opts['length_multiplier']
    if rng.random() < .4:
        opts['align_cliffs'] = True
    return opts


# ------------------------------------------------------------------ functions

FUNCS = {}


def func(name):
    def deco(build):
        FUNCS[name] = build
        return build
    return deco


@func('complete_meas_cal')
def _(rng):
    n = int(rng.integers(1, 4))
    if rng.random() < .5:
        return complete_meas_cal, [], {'qubit_list': ints(rng, 5, n), 'qr': QuantumRegister(5, 'q')}
    return complete_meas_cal, [], {'qr': QuantumRegister(n, 'q'), 'circlabel': 'x'}


@func('tensored_meas_cal')
def _(rng):
    q = ints(rng, 5, 4)
    return tensored_meas_cal, [[q[:2], q[2:]]], {}


@func('expval_circuits')
def _(rng):
    return expval_meas_mitigator_circuits, [int(rng.integers(1, 4))], {
        'method': str(rng.choice(['CTMP', 'complete', 'tensored']))}


@func('expectation_value')
def _(rng):
    n = int(rng.integers(1, 4))
    kw = {'clbits': list(range(n))} if rng.random() < .5 else {}
    if rng.random() < .5:
        kw['diagonal'] = rng.normal(size=2 ** n)
    if rng.random() < .5:
        kw['meas_mitigator'] = CompleteExpvalMeasMitigator(sim.random_stochastic(rng, 2 ** n))
        kw['qubits'] = ints(rng, n, n)
    return expectation_value, [rand_counts(rng, n)], kw


@func('counts_probability_vector')
def _(rng):
    n = int(rng.integers(1, 4))
    return counts_probability_vector, [rand_counts(rng, n)], {'clbits': ints(rng, n, n),
                                                              'qubits': ints(rng, n, n)}


@func('state_tomography_circuits')
def _(rng):
    n = int(rng.integers(1, 4))
    circ = gen.random_circuit(rng, n, own_cregs=int(rng.integers(2)))
    return state_tomography_circuits, [circ, ints(rng, n, min(n, 2))], {}


@func('process_tomography_circuits')
def _(rng):
    circ = gen.random_circuit(rng, 2)
    m = ints(rng, 2, 1)
    basis = str(rng.choice(['Pauli', 'SIC']))
    return process_tomography_circuits, [circ, m], {'prep_labels': basis, 'prep_basis': basis}


@func('gateset_tomography_circuits')
def _(rng):
    return gateset_tomography_circuits, [], {'measured_qubits': [int(rng.integers(3))]}


@func('marginal_counts')
def _(rng):
    n = int(rng.integers(1, 5))
    return marginal_counts, [rand_counts(rng, n)], {'meas_qubits': ints(rng, n, int(
        rng.integers(1, n + 1))), 'pad_zeros': bool(rng.random() < .5)}


@func('combine_counts')
def _(rng):
    n = int(rng.integers(1, 4))
    return combine_counts, [rand_counts(rng, n), rand_counts(rng, n)], {}


@func('expectation_counts')
def _(rng):
    return expectation_counts, [rand_counts(rng, int(rng.integers(1, 4)))], {}


@func('count_keys')
def _(rng):
    return count_keys, [int(rng.integers(1, 6))], {}


@func('build_counts_dict_from_list')
def _(rng):
    n = int(rng.integers(1, 4))
    return build_counts_dict_from_list, [[rand_counts(rng, n)
                                          for _ in range(int(rng.integers(2, 4)))]], {}


@func('randomized_benchmarking_seq')
def _(rng):
    return rb.randomized_benchmarking_seq, [], rb_options(rng)


@func('coherence_limit')
def _(rng):
    n = int(rng.integers(1, 3))
    t_1 = [float(v) for v in rng.uniform(20, 100, n)]
    return rb.coherence_limit, [n, t_1, [t * 1.5 for t in t_1], .1], {}


@func('epg')
def _(rng):
    gpc = {q: {'u1': float(rng.uniform(.1, 1)), 'u2': float(rng.uniform(.1, 1)),
               'u3': float(rng.uniform(.1, 1)), 'cx': 0} for q in (0, 1)}
    return rb.calculate_1q_epg, [gpc, float(rng.uniform(0, .01)), int(rng.integers(2))], {}


@func('epc2q')
def _(rng):
    gpc = {q: {'u1': float(rng.uniform(.1, 1)), 'u2': float(rng.uniform(.1, 1)),
               'u3': float(rng.uniform(.1, 1)), 'cx': 1.5 if q == 0 else 0} for q in (0, 1)}
    epg = [{'u1': 0, 'u2': float(rng.uniform(0, .01)), 'u3': float(rng.uniform(0, .01))}
           for _ in range(2)]
    if rng.random() < .5:
        return rb.calculate_2q_epc, [gpc, .02, [0, 1], epg], {}
    return rb.calculate_2q_epg, [gpc, .05, [0, 1], epg], {}


@func('dihedral')
def _(rng):
    n = int(rng.integers(1, 4))
    a = rb.CNOTDihedral(random_dihedral_circuit(rng, n))
    b = rb.CNOTDihedral(random_dihedral_circuit(rng, n))
    op = rng.choice(['compose', 'front', 'dot', 'tensor', 'expand', 'adjoint', 'conj', 'circuit',
                     'matrix', 'mul'])
    f = {'compose': lambda x, y: x.compose(y), 'front': lambda x, y: x.compose(y, front=True),
         'dot': lambda x, y: x.dot(y), 'tensor': lambda x, y: x.tensor(y),
         'expand': lambda x, y: x.expand(y), 'adjoint': lambda x, y: x.adjoint(),
         'conj': lambda x, y: x.conjugate(), 'circuit': lambda x, y: x.to_circuit(),
         'matrix': lambda x, y: x.to_matrix(), 'mul': lambda x, y: x * y}[str(op)]
    return f, [a, b], {}


@func('random_cnotdihedral')
def _(rng):
    return rb.dihedral.random_cnotdihedral, [int(rng.integers(1, 4))], {
        'seed': int(rng.integers(1000))}


@func('qv_circuits')
def _(rng):
    return qv_circuits, [[ints(rng, 6, 2), ints(rng, 6, 3)]], {
        'ntrials': int(rng.integers(1, 3)), 'seed': int(rng.integers(1, 1000))}


@func('repetition')
def _(rng):
    d, t, log = int(rng.integers(2, 5)), int(rng.integers(0, 3)), str(rng.choice(['0', '1']))

    def run(d, t):
        code = RepetitionCode(d, t)
        return code.get_circuit_list(), code.circuit[log]
    return run, [d, t], {}


@func('lookuptable_decoding')
def _(rng):
    dist, rounds = 3, 1
    tables = [{log: {c25.random_string(rng, dist, rounds): int(rng.integers(1, 60))
                     for _ in range(8)} for log in '01'} for _ in range(2)]
    return lookuptable_decoding, tables, {}


@func('postselection_decoding')
def _(rng):
    table = {log: dict({c25.random_string(rng, 3, 1): int(rng.integers(1, 60)) for _ in range(8)},
                       **{'%s %s  00 00' % (log, log): 9}) for log in '01'}
    return postselection_decoding, [table], {}


@func('t1_circuits')
def _(rng):
    return t1_circuits, [np.sort(rng.integers(1, 30, 3)), .1, ints(rng, 5, 2)], {}


@func('t2_circuits')
def _(rng):
    return t2_circuits, [sorted(ints(rng, 30, 3)), .1, ints(rng, 5, 2)], {
        'n_echos': int(rng.integers(1, 3)), 'phase_alt_echo': bool(rng.random() < .5)}


@func('t2star_circuits')
def _(rng):
    return t2star_circuits, [np.sort(rng.integers(1, 30, 3)), .1, ints(rng, 5, 2)], {
        'nosc': int(rng.integers(0, 4))}


@func('zz_circuits')
def _(rng):
    q = ints(rng, 5, 4)
    return zz_circuits, [np.sort(rng.integers(1, 30, 3)), .1, q[:2], q[2:]], {
        'nosc': int(rng.integers(0, 4))}


@func('gate_calibration')
def _(rng):
    q = ints(rng, 5, 4)
    reps = int(rng.integers(1, 4))
    return [(ampcal_1Q_circuits, [reps, q[:2]], {}),
            (anglecal_1Q_circuits, [reps, q[:2]], {'angleerr': .1}),
            (ampcal_cx_circuits, [reps, q[:2], q[2:]], {}),
            (anglecal_cx_circuits, [reps, q[:2], q[2:]], {})][int(rng.integers(4))]


@func('pulse_schedules')
def _(rng):
    imap, mmap, drives = c31.backend()
    vals = [float(v) for v in rng.uniform(.1, .8, 3)]
    q = ints(rng, 3, 2)

    def rabi(vals, q):
        return rabi_schedules(vals, q, 40, drives=drives, inst_map=imap, meas_map=mmap)

    def drag(vals, q):
        return drag_schedules(vals, q, [.2, .3], 40, drives=drives, inst_map=imap, meas_map=mmap)
    return (rabi if rng.random() < .5 else drag), [vals, q], {}


@func('accreditation_circuits')
def _(rng):
    n = int(rng.integers(1, 4))
    circ = at.target(rng, n, int(rng.integers(1, 5)), 'plain')
    seed = int(rng.integers(1000))

    def run(circ, seed, traps):
        return AccreditationCircuits(circ, seed=seed).generate_circuits(traps)
    return run, [circ, seed, int(rng.integers(1, 4))], {}


@func('QOTP')
def _(rng):
    n = int(rng.integers(1, 4))
    circ = at.target(rng, n, int(rng.integers(1, 5)), 'plain')
    return QOTP, [circ, int(rng.integers(1, 3))], {'seed': int(rng.integers(1000))}


@func('QOTPCorrectCounts')
def _(rng):
    n = int(rng.integers(1, 4))
    return QOTPCorrectCounts, [rand_counts(rng, n), [int(b) for b in rng.integers(2, size=n)]], {}


@func('ghz_circuits')
def _(rng):
    n = int(rng.integers(2, 5))
    t = float(rng.uniform(-3, 3))
    return [(get_ghz_simple, [n], {}), (get_ghz_mqc, [n, t], {}),
            (get_ghz_po, [n, t], {})][int(rng.integers(3))]


@func('ghz_layouts')
def _(rng):
    n = int(rng.integers(2, 8))
    t = float(rng.uniform(-3, 3))
    kind = int(rng.integers(3))

    def run(n, t):
        conf = BConfig(ghz_backend())
        return [lambda: conf.get_ghz_simple(n), lambda: conf.get_ghz_mqc(n, t),
                lambda: conf.get_ghz_po(n, t)][kind]()
    return run, [n, t], {}


@func('ghz_analysis')
def _(rng):
    n = int(rng.integers(1, 5))
    f = composite_pauli_z_expvalue if rng.random() < .5 else ordered_list_generator
    return f, [rand_counts(rng, n), n], {}


@func('fourier_info')
def _(rng):
    n = int(rng.integers(2, 4))
    x = np.linspace(0, 2 * np.pi, 2 * n + 4, endpoint=False)
    y = np.cos(n * x) * .4 + .5
    pops = {k: float(rng.uniform(.3, .5)) for k in ('P0', 'P1', 'P0_m', 'P1_m')}

    def run(n, x, y, z, pops):
        with contextlib.redirect_stdout(io.StringIO()):
            import matplotlib
            matplotlib.use('Agg')
            from matplotlib import pyplot as plt
            out = Plotter('mqc').get_fourier_info(n, x, y, z, pops)
            plt.close('all')
        return out
    return run, [n, x, y, y * .9, pops], {}


def invoke(fn, args, kwargs):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return fn(*args, **kwargs)


def case_functions(mon, case):
    rng = np.random.default_rng(case['seed'])
    sess = []
    for name in case['names']:
        seed = int(rng.integers(2 ** 31))
        sess.append((name, seed))
    ref = {}
    # first calls, in order: arguments stay as they were
    for name, seed in sess:
        fn, args, kw = FUNCS[name](np.random.default_rng(seed))
        before = canon([args, kw])
        out = invoke(fn, args, kw)
        got = canon(out)
        mon.saw('fn:' + name)
        diff = differ(before, canon([args, kw]), 0)
        mon.check(diff is None, 'arguments-unchanged', '%s changed its arguments: %s' % (name, diff),
                  state=(name, seed))
        again = canon(invoke(fn, args, kw))
        diff = differ(got, again, 1e-7)
        mon.check(diff is None, 'repeatable', '%s: second call differs: %s' % (name, diff))
        ref[name, seed] = got
        scribble(out)
        # what a caller does with a result does not reach later calls
        fn, args, kw = FUNCS[name](np.random.default_rng(seed))
        diff = differ(got, canon(invoke(fn, args, kw)), 1e-7)
        mon.check(diff is None, 'results-not-shared',
                  '%s: changing a returned value changes later calls: %s' % (name, diff))
    for _ in range(2):
        for k in rng.permutation(len(sess)):
            name, seed = sess[int(k)]
            np.random.seed(int(rng.integers(1000)))
            fn, args, kw = FUNCS[name](np.random.default_rng(seed))
            diff = differ(ref[name, seed], canon(invoke(fn, args, kw)), 1e-7)
            mon.check(diff is None, 'history-independent',
                      '%s: depends on the calls before it: %s' % (name, diff))


# ------------------------------------------------------------------ objects

OBJECTS = {}


def obj(name):
    def deco(build):
        OBJECTS[name] = build
        return build
    return deco


@obj('complete_fitter')
def _(rng):
    n = int(rng.integers(1, 4))
    circs, labels = complete_meas_cal(qr=QuantumRegister(n, 'q'))
    res = faked(rng, circs)
    data = rand_counts(rng, n)
    sub = ints(rng, n, 1)
    return CompleteMeasFitter, [res, labels], {
        'matrix': lambda f: f.cal_matrix, 'labels': lambda f: f.state_labels,
        'fidelity': lambda f: f.readout_fidelity(),
        'groups': lambda f: f.readout_fidelity([labels]),
        'pinv': lambda f: f.filter.apply(data, method='pseudo_inverse'),
        'lsq': lambda f: (f.filter.apply(data), None)[1],
        'subset': lambda f: f.subset_fitter(sub).cal_matrix}


@obj('tensored_fitter')
def _(rng):
    pat = [[1, 0], [2]] if rng.random() < .5 else [[2], [0], [1]]
    circs, pat = tensored_meas_cal(pat)
    res = faked(rng, circs)
    data = rand_counts(rng, 3)
    return TensoredMeasFitter, [res, pat], {
        'matrices': lambda f: f.cal_matrices, 'labels': lambda f: f.substate_labels_list,
        'fidelity': lambda f: f.readout_fidelity(1),
        'pinv': lambda f: f.filter.apply(data, method='pseudo_inverse'),
        'lsq': lambda f: (f.filter.apply(data), None)[1], 'fidelity0': lambda f: f.readout_fidelity(0)}


@obj('expval_fitter')
def _(rng):
    n = int(rng.integers(1, 4))
    method = str(rng.choice(['complete', 'tensored', 'CTMP']))
    circs, meta = expval_meas_mitigator_circuits(n, method)
    exps = []
    for c, m in zip(circs, meta):
        cts = {m['cal'] if isinstance(m['cal'], str) else sim.bits(m['cal'], n): 900}
        for k, v in rand_counts(rng, n, 100).items():
            cts[k] = cts.get(k, 0) + v
        exps.append(sim.exp_result(c.name, cts, sim.creg_sizes(c), metadata=m))
    res = sim.result(exps)
    data = rand_counts(rng, n)
    diag = rng.normal(size=2 ** n)
    qs = ints(rng, n, n)

    def make(res, meta):
        return ExpvalMeasMitigatorFitter(res, meta).fit(method=method)
    acc = {'assign': lambda f: f.assignment_matrix(), 'mitig': lambda f: f.mitigation_matrix(),
           'gamma': lambda f: f.stddev_upper_bound(10), 'over': lambda f: f.mitigation_overhead(),
           'fid': lambda f: f.assignment_fidelity(), 'shots': lambda f: f.required_shots(.1),
           'sub': lambda f: f.assignment_matrix(qs[:1])}
    if method != 'CTMP':
        acc['expval'] = lambda f: f.expectation_value(data, diagonal=diag, qubits=qs)
        acc['z'] = lambda f: f.expectation_value(data)
    return make, [res, meta], acc


@obj('state_tomography')
def _(rng):
    circ = gen.random_circuit(rng, 2, own_cregs=int(rng.integers(2)))
    qs = ints(rng, 2, int(rng.integers(1, 3)))
    circs = state_tomography_circuits(circ, qs)
    res = sim.run(circs, shots=1000, rng=rng)
    return StateTomographyFitter, [res, circs], {
        'lstsq': lambda f: f.fit(method='lstsq'),
        'weights': lambda f: f.fit(method='lstsq', standard_weights=False),
        'beta': lambda f: f.fit(method='lstsq', beta=.05),
        'data': lambda f: f.data, 'cvx': lambda f: f.fit(method='cvx'),
        'basis': lambda f: f.measure_basis.name}


@obj('process_tomography')
def _(rng):
    circ = gen.random_circuit(rng, 1)
    circs = process_tomography_circuits(circ, [0])
    res = sim.run(circs, shots=1000, rng=rng)
    return ProcessTomographyFitter, [res, circs], {
        'lstsq': lambda f: f.fit(method='lstsq'), 'data': lambda f: f.data,
        'beta': lambda f: f.fit(method='lstsq', beta=.1)}


@obj('gst')
def _(rng):
    circs = gateset_tomography_circuits()
    res = sim.run(circs, shots=3000, rng=rng)
    return GatesetTomographyFitter, [res, circs], {
        'inversion': lambda f: f.linear_inversion(), 'probs': lambda f: f.probs,
        'labels': lambda f: list(f.gateset_basis.gate_labels)}


def rb_data(rng, prefixes):
    pattern = random_pattern(rng, 3, sizes=(1, 2), max_groups=2)
    base = c19.random_lengths(rng)
    xdata = np.array([base for _ in pattern])
    seeds = [0, 1]
    out = []
    for pre in prefixes:
        truth = [c19.random_decay(rng, len(p), x) for p, x in zip(pattern, xdata)]
        out.append(c19.table_results(rng, pre, pattern, len(base), seeds, 4096,
                                     c19.decay_probs(rng, pattern, xdata, truth, 2, .01))[0])
    return pattern, xdata, out


def rb_acc(extra):
    acc = {'raw': lambda f: f.raw_data, 'ydata': lambda f: f.ydata, 'fit': lambda f: f.fit,
           'seeds': lambda f: f.seeds, 'lengths': lambda f: f.cliff_lengths,
           'recalc': lambda f: (f.calc_data(), f.calc_statistics(), f.fit_data(), f.fit)[-1],
           'refit': lambda f: (f.fit_data(), f.fit)[-1]}
    acc.update(extra)
    return acc


@obj('rb')
def _(rng):
    pattern, xdata, (res,) = rb_data(rng, ['rb'])
    return rb.RBFitter, [res, xdata, pattern], rb_acc({
        'curve': lambda f: f.rb_fit_fun(np.array([1., 5.]), *f.fit[0]['params'])})


@obj('interleaved_rb')
def _(rng):
    pattern, xdata, res = rb_data(rng, ['rb', 'rb_interleaved'])
    return rb.InterleavedRBFitter, [res[0], res[1], xdata, pattern], rb_acc({
        'std': lambda f: f.rbfit_std.fit, 'int': lambda f: f.fit_int})


@obj('dihedral_rb')
def _(rng):
    pattern, xdata, res = rb_data(rng, ['rb_cnotdihedral_Z', 'rb_cnotdihedral_X'])
    return rb.CNOTDihedralRBFitter, [res[0], res[1], xdata, pattern], rb_acc({
        'joint': lambda f: f.fit_cnotdihedral, 'x': lambda f: f.rbfit_X.fit})


@obj('qv')
def _(rng):
    lists = c23.make_lists(rng)
    _, _, sv, exps = c23.build(rng, {}, lists, int(rng.integers(1, 6)))
    return QVFitter, [sim.result([e for _, e in exps]), sim.result(sv), lists], {
        'ydata': lambda f: f.ydata, 'heavy': lambda f: f.heavy_outputs,
        'counts': lambda f: f.heavy_output_counts, 'ideal': lambda f: f.heavy_output_prob_ideal,
        'success': lambda f: f.qv_success(), 'qv': lambda f: f.quantum_volume(),
        'depths': lambda f: f.depths,
        'stats': lambda f: (f.calc_data(), f.calc_statistics(), f.ydata)[-1]}


@obj('decoder')
def _(rng):
    d, t = int(rng.integers(2, 4)), int(rng.integers(1, 3))
    strings = [c25.random_string(rng, d, t) for _ in range(3)]
    table = {log: {c25.random_string(rng, d, t): int(rng.integers(1, 60)) for _ in range(6)}
             for log in '01'}

    def make(d, t):
        return GraphDecoder(RepetitionCode(d, t))
    acc = {'match%d' % k: (lambda f, s=s: f.matching(s)) for k, s in enumerate(strings)}
    acc['prob'] = lambda f: f.get_logical_prob(table)
    acc['edges'] = lambda f: f.S.number_of_edges() if hasattr(f.S, 'number_of_edges') \
        else len(f.S.edge_list())
    return make, [d, t], acc


@obj('accreditation_fitter')
def _(rng):
    nbits, traps = int(rng.integers(1, 4)), int(rng.integers(3, 6))
    runs = [c27.run_data(rng, nbits, traps, .15 * (k > 0))[:3] for k in range(int(rng.integers(1, 5)))]

    def make(runs):
        f = AccreditationFitter()
        for r in runs:
            f.single_protocol_run(*r)
        return f
    theta = float(rng.uniform(.05, .2))
    return make, [runs], {
        'state': lambda f: (f.num_runs, f.N_acc, list(f.outputs), f.num_traps, f.flag),
        'bound': lambda f: (f.bound_variation_distance(theta), f.bound, f.confidence)[1:]}


@obj('coherence')
def _(rng):
    exp = str(rng.choice(['t1', 't2', 't2star', 'zz']))
    base, series, expected = c29.KINDS[exp]
    num, npts, span = 2, 22, 40.0
    xdata = np.linspace(span / npts if exp in ('t1', 't2') else 0, span, npts)
    first = [float(v) for v in c29.truth(rng, exp, span)]
    exps = []
    for s in series:
        for k in range(npts):
            ps = [float(c29.curve(exp, first, xdata[k]))] * num
            ps = [p if expected == '1' else 1 - p for p in ps]
            exps.append(sim.exp_result('%scircuit_%d_%s' % (base, k, s),
                                       c29.joint(ps, 4000, rng), [['c', num]], shots=4000))
    lo = [-2] * len(first)
    hi = [10 * span + 10] * len(first)

    def make(res, xdata, qubits, p0, bounds):
        return c29.make(exp, res, xdata, qubits, p0, bounds)
    acc = {'params': lambda f: f.params, 'err': lambda f: f.params_err, 'ydata': lambda f: f.ydata,
           'refit': lambda f: (f.fit_data(), f.params)[-1], 'xdata': lambda f: f.xdata,
           'qubits': lambda f: f.measured_qubits}
    if exp == 'zz':
        acc['rate'] = lambda f: f.ZZ_rate()
    else:
        acc['time'] = lambda f: f.time(qid=1)
        acc['time_err'] = lambda f: f.time_err()
    return make, [sim.result(exps), xdata, ints(rng, 6, num), list(first), (lo, hi)], acc


@obj('gate_fitter')
def _(rng):
    exp = str(rng.choice(['amp', 'angle', 'ampcx', 'anglecx']))
    circuits, fitter, _ = c30.MAKE[exp]
    q = ints(rng, 5, 2)
    args = [5, q[:1]] + ([q[1:]] if exp.endswith('cx') else [])
    circs, xdata = circuits(*args)
    res = sim.run(circs, shots=2000, rng=rng)
    acc = {'params': lambda f: f.params, 'ydata': lambda f: f.ydata,
           'err': lambda f: f.angle_err(), 'refit': lambda f: (f.fit_data(), f.params)[-1]}
    return (lambda res, xdata, qubits, p0, bounds: fitter(res, xdata, qubits, p0, bounds)), \
        [res, xdata, q[:1], [.01, .02], ([-1, -1], [1, 1])], acc


@obj('discriminator')
def _(rng):
    dev = c32.Device(rng)
    cal = c32.make_result([('cal_' + s, dev.shots(s, 20), 1) for s in dev.states])
    kindof = str(rng.choice(['lda', 'qda', 'spy']))
    std = bool(rng.random() < .5)
    pts = np.concatenate([dev.shots(s, 3) for s in dev.states])
    new = c32.make_result([('exp', pts, 1)])

    def make(res):
        return c32.build(kindof, dev, res, std)[0]
    return make, [cal], {
        'labels': lambda f: f.discriminate(f.get_xdata(new, 1)),
        'xdata': lambda f: f.get_xdata(new, 1), 'schedules': lambda f: f.schedules,
        'states': lambda f: f.expected_states,
        'filter': lambda f: c32.DiscriminationFilter(f).apply(new),
        'ydata': lambda f: f.get_ydata(cal, 0)}


@obj('mitigator')
def _(rng):
    n = int(rng.integers(1, 4))
    mats = [sim.random_readout(rng) for _ in range(n)]
    data = rand_counts(rng, n)
    qs = ints(rng, n, n)
    if rng.random() < .5:
        make, args = TensoredExpvalMeasMitigator, [mats]
    else:
        make, args = CompleteExpvalMeasMitigator, [sim.kron_readout(mats)]
    return make, args, {
        'assign': lambda f: f.assignment_matrix(), 'mitig': lambda f: f.mitigation_matrix(),
        'sub': lambda f: f.mitigation_matrix(qs[:1]), 'subA': lambda f: f.assignment_matrix(qs[-1:]),
        'expval': lambda f: f.expectation_value(data), 'over': lambda f: f.mitigation_overhead(),
        'fid': lambda f: f.assignment_fidelity(), 'shots': lambda f: f.required_shots(.05)}


SOLVER = {'state_tomography': 1e-4}


def build_object(name, seed):
    make, args, acc = OBJECTS[name](np.random.default_rng(seed))
    return make, args, acc


def case_objects(mon, case):
    try:
        _objects(mon, case)
    except RuntimeError as err:      # scipy gives up on the sampled data
        if 'Optimal parameters not found' not in str(err):
            raise
        mon.saw('no-fit')


def _objects(mon, case):
    rng = np.random.default_rng(case['seed'])
    jobs = []
    for name in (case['name'], case['name'], case['other']):
        seed = int(rng.integers(2 ** 31))
        jobs.append((name, seed))
    # what each reading gives on an object of its own
    alone, keys = {}, {}
    for j, (name, seed) in enumerate(jobs):
        mon.saw('obj:' + name)
        make, args, acc = build_object(name, seed)
        keys[j] = sorted(acc)
        for key in keys[j]:
            make, args, acc = build_object(name, seed)
            obj_ = invoke(make, args, {})
            alone[j, key] = canon(invoke(acc[key], [obj_], {}))
    # all of them alive together, read in random order
    live = []
    for j, (name, seed) in enumerate(jobs):
        make, args, acc = build_object(name, seed)
        before = canon(args)
        live.append((invoke(make, args, {}), acc, args, before))
        diff = differ(before, canon(args), 0)
        mon.check(diff is None, 'constructor-arguments', '%s changed what it was given: %s'
                  % (name, diff))
    steps = [(j, key) for j in keys for key in keys[j]] * 2
    for k in rng.permutation(len(steps)):
        j, key = steps[int(k)]
        name = jobs[j][0]
        got = canon(invoke(live[j][1][key], [live[j][0]], {}))
        diff = differ(alone[j, key], got, SOLVER.get(name, 1e-5))
        mon.check(diff is None, 'accessor-stable' if j else 'instances-independent',
                  '%s.%s depends on what was read before: %s' % (name, key, diff),
                  state=(name, key, jobs[j][1]))
    for j, (name, _) in enumerate(jobs):
        diff = differ(live[j][3], canon(live[j][2]), 0)
        mon.check(diff is None, 'constructor-arguments',
                  '%s: reading results changed what it was given: %s' % (name, diff))
