"""C28: coherence and ZZ characterization circuits."""
import numpy as np
from qiskit import transpile
from qiskit.ignis.characterization.coherence import t1_circuits, t2_circuits, t2star_circuits
from qiskit.ignis.characterization.hamiltonian import zz_circuits
from qiskit.ignis.characterization.characterization_utils import time_to_ngates
from vm import sim

PROP = 'C28'
LEVEL = 'exploration'
RULE = ('random lists of delays, gate times, qubit lists (any order, with gaps), echo numbers, '
        'oscillations and spectators; every circuit executed exactly with damping, dephasing, '
        'detuning and ZZ coupling acting during the identity gates; a state is one distinct '
        'population')
ASSUMPTIONS = ['delays are identity gates; noise acts on them only',
               'the device has an identity gate, where circuits are compiled first']


def cases(rng, tier):
    n = 24 if tier == 'quick' else 700
    for _ in range(n):
        for exp in ('t1', 't2star', 't2', 'zz'):
            yield 'run', {'exp': exp, 'num': rng.choice([1, 2, 3]), 'as_list': rng.random() < .5}
    for _ in range(max(3, n // 4)):
        for exp in ('t1', 't2star', 't2', 'zz'):
            yield 'run', {'exp': exp, 'num': rng.choice([1, 2, 3, 4, 5]), 'as_list': rng.random() < .5,
                          'wide': True}
    for _ in range(20):
        yield 'utils', {}
    for _ in range(4):
        yield 'reject', {}


def required_events(tier):
    return ['population-t1', 'population-t2', 'population-t2star', 'population-zz', 'delays',
            'frequency', 'names', 'untouched', 'echo-count', 'ngates', 'rejected',
            'input-unmodified', 'shared-spectator', 'many-echos', 'compiled', 'three-spectators']


def marginal(probs, bit):
    return sum(p for k, p in probs.items() if k[len(k) - 1 - bit] == '1')


def spread(probs):
    width = len(next(iter(probs)))
    return [probs.get(format(i, '0%db' % width), 0.0) for i in range(2 ** width)]


def setup(rng, case, top=5):
    num = case['num']
    qubits = [int(q) for q in rng.choice(top, size=num, replace=False)]
    lens = np.sort(rng.choice(np.arange(0, 14), size=int(rng.integers(2, 5)), replace=False))
    if case.get('wide') and num < 3:
        lens = np.sort(rng.choice(np.arange(0, 120 if num == 1 else 30), size=int(rng.integers(8, 14)),
                                  replace=False))
    if lens[-1] == 0:
        lens[-1] = 3
    gate_time = float(rng.choice([.1, 1.0, 2, 37.5]))
    return qubits, lens, gate_time


def rz(a):
    return np.diag([np.exp(-.5j * a), np.exp(.5j * a)])


def dephase(lam):
    """Coherence is multiplied by lam."""
    p = (1 - lam) / 2
    return [np.sqrt(1 - p) * np.eye(2), np.sqrt(p) * np.diag([1, -1])]


def damp(keep):
    return [np.array([[1, 0], [0, np.sqrt(keep)]]), np.array([[0, np.sqrt(1 - keep)], [0, 0]])]


def used(circ):
    qi = sim.qindex(circ)
    return {qi[q] for inst, qs, _ in circ.data if inst.name != 'barrier' for q in qs}


def case_run(mon, case):
    rng = np.random.default_rng(case['seed'])
    top = 14 if case.get('wide') else 4 if case['exp'] == 'zz' else 5
    qubits, lens, gate_time = setup(rng, case, top)
    exp = case['exp']
    if exp == 'zz':
        qubits = qubits[:3 if case.get('wide') else 2]
        if len(qubits) == 3:
            lens = lens[:3]
    arg = [int(x) for x in lens] if case['as_list'] else lens
    keep = list(arg)
    qarg = list(qubits)
    rate = {q: float(rng.uniform(.8, .999)) for q in range(16)}   # decay per identity
    det = {q: float(rng.uniform(-1, 1)) for q in range(16)}
    nosc = int(rng.integers(0, 4))
    freq = None
    n_echos, alt = 1, False
    spect = None
    if exp == 't1':
        circs, xdata = t1_circuits(arg, gate_time, qarg)
    elif exp == 't2star':
        circs, xdata, freq = t2star_circuits(arg, gate_time, qarg, nosc)
    elif exp == 't2':
        n_echos, alt = int(rng.integers(1, 5)), bool(rng.integers(2))
        if rng.random() < .4:
            n_echos = int(rng.integers(5, 12))
            mon.saw('many-echos', state=(n_echos, alt))
        if n_echos == 1 and not alt and rng.random() < .5:
            circs, xdata = t2_circuits(arg, gate_time, qarg)
        else:
            circs, xdata = t2_circuits(arg, gate_time, qarg, n_echos=n_echos, phase_alt_echo=alt)
    else:
        rest = [q for q in range(top) if q not in qubits]
        spect = [int(q) for q in rng.permutation(rest)[:len(qubits)]]
        if len(qubits) == 2 and rng.random() < .4:
            spect = [spect[0], spect[0]]
            mon.saw('shared-spectator')
        if len(spect) == 3:
            mon.saw('three-spectators')
        circs, xdata, freq = zz_circuits(arg, gate_time, qarg, list(spect), nosc)
    mon.equal((list(arg), qarg), (keep, qubits), 'input-unmodified', 'arguments changed')
    factor = 2 * n_echos if exp == 't2' else 1
    times = np.asarray(lens, dtype=float) * gate_time * factor
    mon.close(np.asarray(xdata, dtype=float), times, 'delays', 'delay times')
    if freq is not None:
        mon.close(freq, nosc / times[-1], 'frequency', 'induced frequency')
    series = ['0', '1'] if exp == 'zz' else ['0']
    names = ['%scircuit_%d_%s' % (exp, i, s) for s in series for i in range(len(lens))]
    if not mon.equal([c.name for c in circs], names, 'names', 'circuit names'):
        return
    zeta = {q: float(rng.uniform(-.6, .6)) for q in range(16)}

    def noise(name, idx, inst):
        if name != 'id':
            return None
        q = idx[0]
        if exp == 't1':
            return [(damp(rate[q]), [q])]
        out = [(dephase(rate[q]), [q]), ([rz(det[q])], [q])]
        if exp == 'zz':
            s = spect[qubits.index(q)] if q in qubits else None
            if s is not None:
                out.append(([np.diag([1, 1, 1, np.exp(1j * zeta[q])])], [q, s]))
        return out

    if len(qubits) < 3 and rng.random() < .5:
        # the delays are still there after compilation
        c = circs[int(rng.integers(len(circs)))]
        lev = int(rng.integers(4))
        tr = transpile(c, basis_gates=['id', 'u1', 'u2', 'u3', 'cx'], optimization_level=lev,
                       seed_transpiler=1)
        mon.close(spread(sim.outcome_probs(*sim.compact(tr, noise))), spread(sim.outcome_probs(*sim.compact(c, noise))),
                  'compiled', 'populations of the compiled circuit', atol=1e-6, level=lev,
                  circuit=c.name)
    for c, name in zip(circs, names):
        i = int(name.split('_')[1])
        flip = name.endswith('_1')
        mon.equal([(q, b) for q, b in sorted(sim.split(c)[1], key=lambda x: x[1])],
                  [(q, i2) for i2, q in enumerate(qubits)], 'untouched', 'measured qubits and bits')
        allowed = set(qubits) | (set(spect) if flip else set())
        mon.check(used(c) <= allowed, 'untouched', 'other qubits are used', got=used(c))
        ids = {}
        qi = sim.qindex(c)
        for inst, qs, _ in c.data:
            if inst.name == 'id':
                ids[qi[qs[0]]] = ids.get(qi[qs[0]], 0) + 1
        mon.equal({q: n for q, n in ids.items() if n},
                  {q: int(lens[i]) * factor for q in qubits if lens[i]}, 'echo-count',
                  'number of identity gates')
        probs = sim.outcome_probs(*sim.compact(c, noise))
        n = int(lens[i])
        for bit, q in enumerate(qubits):
            p1 = marginal(probs, bit)
            if exp == 't1':
                want = rate[q] ** n
            elif exp == 't2':
                y, x = np.array([[0, -1j], [1j, 0]]), np.array([[0, 1], [1, 0]])
                y90 = np.array([[1, -1], [1, 1]]) / np.sqrt(2)
                psi = y90[:, 0]
                psi = y @ psi
                for e in range(n_echos - 1):
                    psi = (x if alt and e % 2 == 0 else y) @ psi
                ideal = abs((y90 @ psi)[1]) ** 2
                want = .5 + (ideal - .5) * rate[q] ** (n * factor)
            else:
                phase = 2 * np.pi * nosc * times[i] / times[-1] + det[q] * n
                if exp == 'zz' and flip:
                    phase += zeta[q] * n
                want = .5 - .5 * rate[q] ** n * np.cos(phase)
            mon.close(p1, want, 'population-' + exp, 'excited population', atol=1e-6,
                      qubit=q, circuit=name)


def case_utils(mon, case):
    rng = np.random.default_rng(case['seed'])
    gate_time = float(rng.uniform(.01, 3))
    n = rng.integers(0, 2000, size=int(rng.integers(1, 9)))
    got = time_to_ngates([float(t) for t in n * gate_time], gate_time)
    mon.equal([int(g) for g in got], [int(v) for v in n], 'ngates', 'number of gates')
    off = rng.uniform(-.45, .45, size=len(n))
    got = time_to_ngates((n + off) * gate_time, gate_time)
    mon.equal([int(g) for g in got], [int(v) for v in n], 'ngates', 'rounded number of gates')
    mon.check(np.issubdtype(np.asarray(got).dtype, np.integer), 'ngates', 'integers')


def case_reject(mon, case):
    rng = np.random.default_rng(case['seed'])
    lens = [1, 2, 4]
    mon.raises(ValueError, lambda: t2_circuits(lens, .1, [0], n_echos=int(rng.integers(-2, 1))),
               'rejected', 'no echo accepted')
    mon.raises(ValueError, lambda: zz_circuits(np.array(lens), .1, [0, 1], [2]), 'rejected',
               'missing spectator accepted')
    mon.raises(ValueError, lambda: zz_circuits(np.array(lens), .1, [0, 1], [2, 0]), 'rejected',
               'qubit as spectator accepted')
