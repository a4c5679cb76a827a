"""C30: gate calibration circuits and fitters."""
import numpy as np
from qiskit import transpile
from qiskit.ignis.characterization.gates import (
    ampcal_1Q_circuits, ampcal_cx_circuits, anglecal_1Q_circuits, anglecal_cx_circuits,
    AmpCalFitter, AmpCalCXFitter, AngleCalFitter, AngleCalCXFitter)
from vm import sim

PROP = 'C30'
LEVEL = 'exploration'
RULE = ('random qubit lists (any order, with gaps), repetitions and errors per qubit; circuits '
        'executed exactly with over-rotated gates or the artificial angle error, then fitted; a '
        'state is one distinct estimated error')
ASSUMPTIONS = ['errors are below 0.12 rad and the fit starts at zero or at the guess']

MAKE = {'amp': (ampcal_1Q_circuits, AmpCalFitter, 'ampcal1Q'),
        'angle': (anglecal_1Q_circuits, AngleCalFitter, 'anglecal1Q'),
        'ampcx': (ampcal_cx_circuits, AmpCalCXFitter, 'ampcalcx'),
        'anglecx': (anglecal_cx_circuits, AngleCalCXFitter, 'anglecalcx')}


def cases(rng, tier):
    n = 25 if tier == 'quick' else 700
    for _ in range(n):
        for exp in MAKE:
            yield 'roundtrip', {'exp': exp, 'num': rng.choice([1, 1, 2, 3]),
                                'reps': rng.choice([5, 8, 10, 13]), 'sampled': rng.random() < .3}
    for _ in range(n // 5):
        yield 'roundtrip', {'exp': 'amp', 'num': rng.choice([5, 6]), 'reps': 5, 'sampled': False}
        for exp in MAKE:
            yield 'roundtrip', {'exp': exp, 'num': 1, 'reps': rng.choice([18, 26, 35]),
                                'sampled': False}


def required_events(tier):
    return ['names', 'repetitions', 'measured', 'ideal-population', 'error-amp', 'error-angle',
            'error-ampcx', 'error-anglecx', 'population', 'mean', 'guess', 'input-unmodified', 'axis-error', 'compiled']


def rot(axis, theta):
    pauli = {'x': np.array([[0, 1], [1, 0]]), 'y': np.array([[0, -1j], [1j, 0]])}[axis]
    return np.cos(theta / 2) * np.eye(2) - 1j * np.sin(theta / 2) * pauli


def case_roundtrip(mon, case):
    rng = np.random.default_rng(case['seed'])
    exp = case['exp']
    circuits, fitter, base = MAKE[exp]
    num = case['num']
    labels = [int(q) for q in rng.choice(6 if rng.random() < .6 and num < 4 else 13, size=2 * num, replace=False)]
    qubits, control = labels[:num], labels[num:]
    reps = case['reps']
    args = [reps, list(qubits)] + ([list(control)] if exp.endswith('cx') else [])
    size = .06 * min(1, 13 / reps)
    true = {q: float(rng.uniform(-size, size)) for q in qubits}
    device = exp == 'angle' and rng.random() < .5     # axis error of the device's X90
    if device:
        mon.saw('axis-error')
        circs, xdata = circuits(*args)
    elif exp.startswith('angle'):
        common = float(rng.uniform(-size, size)) if rng.random() < .8 else 0.0
        true = {q: common for q in qubits}
        circs, xdata = circuits(*args, angleerr=common) if common or rng.random() < .5 \
            else circuits(*args)
    else:
        circs, xdata = circuits(*args)
    mon.equal(args[1], qubits, 'input-unmodified', 'qubits changed')
    mon.equal([c.name for c in circs], ['%scircuit_%d_0' % (base, i) for i in range(reps)],
              'names', 'circuit names')
    step = 1 if exp.endswith('cx') else 2
    mon.equal([int(x) for x in xdata], [step * i for i in range(reps)], 'repetitions',
              'numbers of repetitions')

    def noise(name, idx, inst):
        if exp == 'amp' and name == 'u2' and idx[0] in true:
            return [([rot('y', 2 * true[idx[0]])], idx)]
        if exp == 'ampcx' and name == 'cx':
            full = np.kron(rot('x', 2 * true[idx[1]]), np.diag([0, 1])) + \
                np.kron(np.eye(2), np.diag([1, 0]))
            return [([full], idx)]
        if device and name == 'u2' and abs(float(inst.params[0]) + np.pi / 2) < 1e-9:
            x90 = rot('x', np.pi / 2)
            turn = np.diag([1, np.exp(2j * true[idx[0]])])
            return [([turn @ x90 @ turn.conj() @ x90.conj().T], idx)]
        return None
    if exp.startswith('amp') and num != 2:
        # the repetitions survive compilation
        lev = int(rng.integers(4))
        c = circs[int(rng.integers(2, reps))]
        tr = transpile(c, basis_gates=['u1', 'u2', 'u3', 'cx'], optimization_level=lev,
                       seed_transpiler=1)
        one, two = sim.outcome_probs(*sim.compact(tr, noise)), sim.outcome_probs(*sim.compact(c, noise))
        keys = sorted(set(one) | set(two))
        mon.close([one.get(k, 0.0) for k in keys], [two.get(k, 0.0) for k in keys], 'compiled',
                  'populations of the compiled circuit', atol=1e-6, level=lev, circuit=c.name)
    exps, curves = [], {q: [] for q in qubits}
    shots = 10 ** 9
    ydata = {q: [] for q in qubits}
    for i, c in enumerate(circs):
        allowed = set(qubits) | (set(control) if exp.endswith('cx') else set())
        qi = sim.qindex(c)
        seen = {qi[q] for inst, qs, _ in c.data if inst.name != 'barrier' for q in qs}
        mon.check(seen <= allowed, 'measured', 'other qubits used', got=seen)
        mon.equal(sorted(sim.split(c)[1], key=lambda m: m[1]),
                  [(q, b) for b, q in enumerate(qubits)], 'measured', 'measured qubits and bits')
        probs = sim.outcome_probs(*sim.compact(c, noise))
        if case['sampled']:
            shots = 40000
        counts = sim.split_counts(probs, shots, rng if case['sampled'] else None)
        exps.append(sim.exp_result(c.name, counts, sim.creg_sizes(c), shots=shots))
        for b, q in enumerate(qubits):
            p1 = sum(p for k, p in probs.items() if k[len(k) - 1 - b] == '1')
            curves[q].append(p1)
            ydata[q].append(sum(v for k, v in counts.items() if k[len(k) - 1 - b] == '1') / shots)
        # ideal sequences end on the equator whatever the number of repetitions
        if device or not exp.startswith('angle') or common == 0:
            ideal = sim.outcome_probs(*sim.compact(c))
            for b in range(num):
                p1 = sum(p for k, p in ideal.items() if k[len(k) - 1 - b] == '1')
                mon.close(p1, .5, 'ideal-population', 'sequence without error', atol=1e-6)
    x = np.asarray(xdata, dtype=float)
    for q in qubits:
        eps = 2 * true[q]
        if exp == 'amp':
            want = .5 - .5 * np.cos((x + 1) * (np.pi / 2 + eps))
        elif exp == 'ampcx':
            want = .5 - .5 * np.cos((np.pi + eps) * x + np.pi / 2)
        elif exp == 'angle':
            want = .5 - .5 * np.cos((x + 1) * (np.pi / 2 + eps))
        else:
            want = .5 - .5 * np.cos((np.pi + eps) * x + np.pi / 2)
        mon.close(curves[q], want, 'population', 'amplified error', atol=1e-6)
    res = sim.result([exps[int(i)] for i in rng.permutation(len(exps))])
    p0 = [.01, .5] if rng.random() < .5 else [0.0, .5]
    fit = fitter(res, xdata, list(qubits), fit_p0=p0,
                 fit_bounds=([-.4, -1], [.4, 1]) if rng.random() < .7 else None)
    tol = 4e-3 if case['sampled'] else 2e-4
    mon.close(fit.angle_err(), [true[q] for q in qubits], 'error-' + exp, 'estimated error',
              atol=tol, state=(exp, [round(float(v), 4) for v in fit.angle_err()]))
    for b, q in enumerate(qubits):
        mon.close(fit.angle_err(b), true[q], 'error-' + exp, 'estimated error of one qubit',
                  atol=tol)
        mon.close(fit.ydata['0'][b]['mean'], ydata[q], 'mean', 'population of the data', atol=1e-9)
        if exp == 'amp':
            guess = fit.guess_params(b)
            mon.close(guess, [(ydata[q][0] - ydata[q][1]) / 2, ydata[q][0]], 'guess',
                      'guessed parameters')
