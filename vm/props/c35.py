"""C35: GHZ preparation and its coherence and parity analysis."""
import contextlib
import io
import itertools
import warnings

import numpy as np
from qiskit import QiskitError
from qiskit.ignis.verification.entanglement import linear, analysis
from qiskit.ignis.verification.entanglement.parallelize import BConfig
from vm import sim

PROP = 'C35'
LEVEL = 'exploration'
RULE = ('2 to 7 qubit GHZ circuits, linear and parallel on random connected coupling maps with random '
        'CNOT errors, directed and undirected, executed exactly; random angles; random GHZ-like '
        'density matrices through the Fourier analysis; a state is one distinct circuit or analysis')
ASSUMPTIONS = ['GHZ states have at least two qubits',
               'statistics are exact: the phase series is noiseless and covers whole periods']


def cases(rng, tier):
    n = 30 if tier == 'quick' else 300
    for _ in range(n):
        yield 'linear', {'n': rng.choice([2, 3, 4, 5, 6, 7, 8, 9])}
        yield 'tiers', {'nodes': rng.choice([2, 3, 5, 8, 16, 40])}
        yield 'parallel', {'nodes': rng.choice([2, 3, 4, 5, 6]), 'which': rng.choice(
            ['layout', 'simple', 'mqc', 'mqc_para', 'po', 'po_para'])}
        yield 'parallel', {'nodes': rng.choice([3, 4, 5, 6, 8, 10]), 'which': rng.choice(
            ['mqc', 'mqc_para', 'po', 'po_para'])}
    for _ in range(2 * n):
        yield 'expvalue', {}
        yield 'fourier', {'label': rng.choice(['mqc', 'po']), 'n': rng.choice([2, 3, 4, 5, 8, 10])}
    for _ in range(2):
        yield 'long', {}
        yield 'apart', {}


def required_events(tier):
    return ['linear-ghz', 'linear-mqc', 'linear-po', 'para-same', 'tier-cover', 'tier-disjoint',
            'tier-order', 'tier-edges', 'parallel-ghz', 'coupling', 'layout', 'expvalue', 'pauli-z',
            'fourier-mqc', 'fourier-po', 'raw-mitigated', 'rho-fidelity', 'measured-bits',
            'child-order', 'rejected', 'long-device', 'depth']


def ghz(n):
    vec = np.zeros(2 ** n, dtype=complex)
    vec[0] = vec[-1] = np.sqrt(.5)
    return vec


def kron_all(mat, n):
    out = np.eye(1)
    for _ in range(n):
        out = np.kron(out, mat)
    return out


def po_probs(n, delta):
    """Distribution of the GHZ state after U2(delta, -delta) on each qubit."""
    u2 = np.array([[1, -np.exp(-1j * delta)], [np.exp(1j * delta), 1]]) / np.sqrt(2)
    return np.abs(kron_all(u2, n) @ ghz(n)) ** 2


def mqc_probs(n, delta):
    """Distribution after the phase, the flip and the inverse preparation (last qubits to zero)."""
    out = np.zeros(2 ** n)
    out[0] = (1 + np.cos(n * delta)) / 2
    out[1] = (1 - np.cos(n * delta)) / 2
    return out


def probs_of(circ, nbits):
    """Outcome distribution as an array indexed by the classical bits."""
    out = np.zeros(2 ** nbits)
    for key, p in sim.outcome_probs(circ).items():
        out[int(str(key).replace(' ', ''), 2)] += p
    return out


def measured(circ):
    qi, ci = sim.qindex(circ), sim.cindex(circ)
    return {ci[c[0]]: qi[q[0]] for inst, q, c in circ.data if inst.name == 'measure'}


def case_linear(mon, case):
    rng = np.random.default_rng(case['seed'])
    n = case['n']
    delta = float(rng.uniform(-4, 4))
    circ = linear.get_ghz_simple(n, measure=False)
    mon.close(abs(np.vdot(ghz(n), sim.statevector(circ))), 1, 'linear-ghz', 'prepared state', state=n)
    mon.check(len(circ.clbits) == 0, 'linear-ghz', 'measured although not asked to')
    for full in (True, False):
        for name, circ, want in (
                ('simple', linear.get_ghz_simple(n, full_measurement=full), np.abs(ghz(n)) ** 2),
                ('mqc', linear.get_ghz_mqc(n, delta, full_measurement=full), mqc_probs(n, delta))):
            expect = {k: k for k in range(n)} if full else {0: 0}
            mon.equal(measured(circ), expect, 'measured-bits', 'measurements of %s' % name)
            if not full:
                want = np.array([want[0::2].sum(), want[1::2].sum()])
            mon.close(probs_of(circ, len(expect)), want, 'linear-' + ('ghz' if name == 'simple' else 'mqc'),
                      'distribution of %s' % name, state=(n, full, round(delta, 6), name))
        circ, par = linear.get_ghz_mqc_para(n, full_measurement=full)
        mon.equal(set(circ.parameters), {par}, 'para-same', 'parameters of the circuit')
        bound = circ.bind_parameters({par: delta})
        want = mqc_probs(n, delta)
        if not full:
            want = np.array([want[0::2].sum(), want[1::2].sum()])
        mon.close(probs_of(bound, n if full else 1), want, 'para-same', 'bound MQC circuit',
                  state=(n, full, round(delta, 6)))
    circ = linear.get_ghz_po(n, delta)
    mon.equal(measured(circ), {k: k for k in range(n)}, 'measured-bits', 'measurements of po')
    mon.close(probs_of(circ, n), po_probs(n, delta), 'linear-po', 'distribution of the parity circuit',
              state=(n, round(delta, 6)))
    circ, pars = linear.get_ghz_po_para(n)
    bound = circ.bind_parameters({pars[0]: delta, pars[1]: -delta})
    mon.close(probs_of(bound, n), po_probs(n, delta), 'para-same', 'bound parity circuit',
              state=('po', n, round(delta, 6)))


def random_map(rng, nodes, extra=None):
    """Random connected coupling map, each edge in one or both directions."""
    perm = [int(p) for p in rng.permutation(nodes)]
    edges = set()
    for k in range(1, nodes):
        edges.add(frozenset((perm[k], perm[int(rng.integers(max(0, k - 3), k))])))
    for _ in range(int(rng.integers(0, nodes // 2 + 1)) if extra is None else extra):
        a, b = (int(v) for v in rng.permutation(nodes)[:2]) if nodes > 2 else (0, 1)
        edges.add(frozenset((a, b)))
    cmap = []
    for e in sorted(edges, key=sorted):
        a, b = [int(v) for v in rng.permutation(sorted(e))]
        cmap.append([a, b])
        if rng.random() < .4:
            cmap.append([b, a])
    return [cmap[int(k)] for k in rng.permutation(len(cmap))], edges


class Conf:
    def __init__(self, cmap):
        self.coupling_map = cmap


class Props:
    def __init__(self, errors):
        self.errors = errors

    def to_dict(self):
        gates = [{'gate': 'u2', 'qubits': [0], 'parameters': [{'name': 'gate_error', 'value': 1e-3},
                                                              {'name': 'gate_length', 'value': 50.}]}]
        for pair, val in self.errors.items():
            gates.append({'gate': 'cx', 'qubits': list(pair),
                          'parameters': [{'name': 'gate_error', 'value': val},
                                         {'name': 'gate_length', 'value': 300.}]})
        return {'gates': gates}


class Device:
    """Minimal backend: the tier computation reads only these two."""

    def __init__(self, cmap, errors):
        self.conf = Conf(cmap)
        self.props = Props(errors)

    def configuration(self):
        return self.conf

    def properties(self):
        return self.props


def case_tiers(mon, case):
    rng = np.random.default_rng(case['seed'])
    nodes = case['nodes']
    cmap, edges = random_map(rng, nodes)
    errs = {tuple(e): float(rng.uniform(.001, .1)) for e in cmap}
    before = [list(e) for e in cmap]
    ind = bool(rng.random() < .6)
    conf = BConfig(Device(cmap, errs), indicator=ind)
    tiers = conf.get_tier_dict()
    mon.equal(cmap, before, 'input-unmodified', 'coupling map was modified')
    steps = [tiers[k] for k in sorted(tiers)]
    mon.equal(list(tiers), sorted(tiers), 'tier-order', 'steps are not in order')
    flat = [tuple(p) for s in steps for p in s]
    mon.check(all(frozenset(p) in edges for p in flat), 'tier-edges', 'pair that is not coupled', pairs=flat)
    degree = {k: sum(1 for e in edges if k in e) for k in range(nodes)}
    best = max(sorted(degree), key=lambda k: degree[k])
    mon.equal(flat[0][0], best, 'tier-root', 'first control is not the first most connected qubit')
    mon.check(sorted([best] + [p[1] for p in flat]) == list(range(nodes)), 'tier-cover',
              'qubits are not reached exactly once', pairs=flat, state=tuple(flat))
    ready = {best}
    for step in steps:
        used = [q for p in step for q in p]
        mon.check(len(used) == len(set(used)), 'tier-disjoint', 'a qubit is used twice in one step',
                  step=step)
        mon.check(all(p[0] in ready and p[1] not in ready for p in step), 'tier-order',
                  'control is not entangled yet', step=step)
        ready |= {p[1] for p in step}
    if ind:
        # children of a qubit in order of the CNOT error
        err = {}
        for (a, b), v in errs.items():
            err[(a, b)] = v
            err.setdefault((b, a), v)
        kids = {}
        for p in flat:
            kids.setdefault(p[0], []).append(p[1])
        for par, lst in kids.items():
            vals = [err[(c, par)] for c in lst]
            if all((c, par) not in errs or (par, c) not in errs for c in lst):
                mon.check(vals == sorted(vals), 'child-order', 'targets of %d not by increasing error' % par,
                          errors=vals)
    # layout of n qubits without transpilation
    n = int(rng.integers(2, min(nodes, 9) + 1))
    circ, layout = conf.get_ghz_layout(n, transpiled=False, barriered=bool(rng.random() < .5))
    mon.close(abs(np.vdot(ghz(n), sim.statevector(circ))), 1, 'parallel-ghz', 'prepared state', state=n)
    phys = {circ.qubits.index(q): p for q, p in layout.items()}
    mon.check(sorted(phys) == list(range(n)) and len(set(phys.values())) == n, 'layout',
              'layout is not one physical qubit each', layout=phys, state=tuple(sorted(phys.items())))
    ok = all(frozenset(phys[circ.qubits.index(q)] for q in qs) in edges
             for inst, qs, _ in circ.data if inst.name == 'cx')
    mon.check(ok, 'coupling', 'CNOT between qubits that are not coupled', layout=phys)


def fake(cmap, nodes, errors):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        from qiskit.test.mock.utils.configurable_backend import ConfigurableFakeBackend
        return ConfigurableFakeBackend('fake', n_qubits=nodes, coupling_map=cmap, seed=errors,
                                       basis_gates=['id', 'u1', 'u2', 'u3', 'cx'])


def case_parallel(mon, case):
    rng = np.random.default_rng(case['seed'])
    nodes = case['nodes']
    cmap, edges = random_map(rng, nodes)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        conf = BConfig(fake(cmap, nodes, int(rng.integers(1000))), indicator=bool(rng.random() < .5))
        n = int(rng.integers(2, nodes + 1))
        delta = float(rng.uniform(-4, 4))
        which = case['which']
        full = bool(rng.random() < .6) or which.startswith('po')
        if which == 'layout':
            circ, layout = conf.get_ghz_layout(n, barriered=bool(rng.random() < .5))
        elif which == 'simple':
            circ, _, layout = conf.get_ghz_simple(n, full_measurement=full)
        elif which == 'mqc':
            circ, layout = conf.get_ghz_mqc(n, delta, full_measurement=full)
        elif which == 'mqc_para':
            circ, par, layout = conf.get_ghz_mqc_para(n, full_measurement=full)
            circ = circ.bind_parameters({par: delta})
        elif which == 'po':
            circ, layout = conf.get_ghz_po(n, delta)
        else:
            circ, pars, layout = conf.get_ghz_po_para(n)
            circ = circ.bind_parameters({pars[0]: delta, pars[1]: -delta})
    place = {q.index: p for q, p in layout.items()}
    mon.check(sorted(place) == list(range(n)) and len(set(place.values())) == n, 'layout',
              'layout is not one physical qubit each', layout=place, state=tuple(sorted(place.items())))
    qi = sim.qindex(circ)
    pairs = {frozenset(qi[q] for q in qs) for inst, qs, _ in circ.data if len(qs) == 2
             and inst.name not in ('barrier', 'measure')}
    directed = {tuple(e) for e in cmap}
    mon.check(pairs <= edges and all(tuple(qi[q] for q in qs) in directed for inst, qs, _ in circ.data
                                     if inst.name == 'cx'),
              'coupling', 'gate not available on the device', pairs=pairs, state=(which, nodes))
    if which == 'layout':
        vec = np.asarray(sim.statevector(circ)).reshape([2] * nodes)
        axes = [nodes - 1 - place[k] for k in reversed(range(n))]
        rest = [a for a in range(nodes) if a not in axes]
        vec = vec.transpose(rest + axes).reshape(2 ** len(rest), 2 ** n)
        mon.close(abs(np.vdot(ghz(n), vec[0])), 1, 'parallel-ghz', 'state on the qubits of the layout',
                  state=(n, nodes))
        return
    got = measured(circ)
    mon.equal(got, {k: place[k] for k in (range(n) if full else [0])}, 'measured-bits',
              'bits do not read the qubits of the layout')
    want = {'s': np.abs(ghz(n)) ** 2, 'm': mqc_probs(n, delta), 'p': po_probs(n, delta)}[which[0]]
    if not full:
        want = np.array([want[0::2].sum(), want[1::2].sum()])
    mon.close(probs_of(circ, n if full else 1), want,
              {'s': 'parallel-ghz', 'm': 'parallel-mqc', 'p': 'parallel-po'}[which[0]],
              'distribution of %s' % which, state=(which, n, full, round(delta, 6)))
    if which == 'simple':
        two = sum(1 for inst, _, _ in circ.data if inst.name == 'cx')
        mon.equal(two, n - 1, 'depth', 'number of CNOTs', state=(n, nodes))


def case_expvalue(mon, case):
    rng = np.random.default_rng(case['seed'])
    n = int(rng.integers(1, 7)) if rng.random() < .85 else int(rng.integers(7, 11))
    keys = [format(k, '0%db' % n) for k in range(2 ** n) if rng.random() < .7]
    counts = {keys[int(k)]: int(rng.integers(1, 1000)) for k in rng.permutation(len(keys))}
    if rng.random() < .5 and counts:
        tot = sum(counts.values())
        counts = {k: v / tot for k, v in counts.items()}
    want = sum(v * (-1) ** k.count('1') for k, v in counts.items())
    before = dict(counts)
    mon.close(analysis.composite_pauli_z_expvalue(counts, n), want, 'expvalue', 'parity of the counts')
    mon.close(analysis.ordered_list_generator(counts, n),
              [counts.get(format(k, '0%db' % n), 0) for k in range(2 ** n)], 'ordered', 'ordered counts')
    mon.equal(counts, before, 'input-unmodified', 'counts were modified')
    mon.close(analysis.composite_pauli_z(n), np.diag([(-1.) ** bin(k).count('1') for k in range(2 ** n)]),
              'pauli-z', 'tensor power of Z', state=n)


def ghz_like(rng, n):
    """Density matrix with populations and a coherence between the extremes."""
    dim = 2 ** n
    pops = rng.dirichlet(np.ones(dim) * .3)
    pops = .3 * pops
    a, b = rng.uniform(.25, .35), rng.uniform(.25, .35)
    pops *= (1 - a - b) / pops.sum()
    pops[0] += a
    pops[-1] += b
    rho = np.diag(pops).astype(complex)
    c = np.sqrt(pops[0] * pops[-1]) * rng.uniform(.2, 1) * np.exp(1j * rng.uniform(-3, 3))
    rho[0, -1], rho[-1, 0] = c, np.conj(c)
    return rho


def case_fourier(mon, case):
    """Signals of known states give the fidelity of the state."""
    rng = np.random.default_rng(case['seed'])
    n = case['n']
    points = int(rng.integers(2 * n + 2, 4 * n + 6))
    x = np.linspace(0, 2 * np.pi, points, endpoint=False)
    both = []
    for _ in range(2):
        rho = ghz_like(rng, n)
        mon.close(analysis.rho_to_fidelity(rho), .5 * (rho[0, 0] + rho[-1, -1]).real + abs(rho[0, -1]),
                  'rho-fidelity', 'fidelity of a density matrix')
        c = abs(rho[0, -1])
        ph = np.angle(rho[0, -1])
        if case['label'] == 'po':
            y = 2 * c * np.cos(n * x + ph) + 0.05 * np.cos((n - 1) * x)
        else:
            y = 2 * c ** 2 * np.cos(n * x) + (rho[0, 0].real ** 2 + rho[-1, -1].real ** 2)
        both.append((rho, y, c))
    (rho, y, c), (rho_m, y_m, c_m) = both
    p = {'P0': rho[0, 0].real, 'P1': rho[-1, -1].real, 'P0_m': rho_m[0, 0].real,
         'P1_m': rho_m[-1, -1].real}
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        import matplotlib
        matplotlib.use('Agg')
        from matplotlib import pyplot as plt
        out = analysis.Plotter(case['label']).get_fourier_info(n, x, y, y_m, dict(p))
        plt.close('all')
    want = (.5 * (p['P0'] + p['P1']) + c, .5 * (p['P0_m'] + p['P1_m']) + c_m)
    mon.close([out['F'], out['F_m']], want, 'raw-mitigated', 'raw and mitigated fidelity',
              state=(case['label'], n, [round(float(v), 6) for v in want]))
    if case['label'] == 'mqc':
        i0, i0m = (p['P0'] ** 2 + p['P1'] ** 2), (p['P0_m'] ** 2 + p['P1_m'] ** 2)
        mon.close([abs(out['I0']), abs(out['In']), abs(out['I0_m']), abs(out['In_m'])],
                  [i0, c ** 2, i0m, c_m ** 2], 'fourier-mqc', 'amplitudes')
        mon.close([out['LB'], out['UB'], out['LB_m'], out['UB_m']],
                  [2 * c, c + np.sqrt(i0 / 2), 2 * c_m, c_m + np.sqrt(i0m / 2)], 'fourier-mqc', 'bounds')
    else:
        mon.close([abs(out['In']), abs(out['In_m'])], [c, c_m], 'fourier-po', 'amplitudes')


def case_long(mon, case):
    """Devices in which some qubits are far apart."""
    rng = np.random.default_rng(case['seed'])
    nodes = int(rng.integers(60, 130))
    perm = list(range(nodes)) if rng.random() < .5 else [int(p) for p in rng.permutation(nodes)]
    cmap = [[perm[k], perm[k + 1]] for k in range(nodes - 1)]
    conf = BConfig(Device(cmap, {tuple(e): .01 for e in cmap}), indicator=False)
    flat = [tuple(p) for s in conf.get_tier_dict().values() for p in s]
    mon.check(len(flat) == nodes - 1 and len({p[1] for p in flat} | {flat[0][0]}) == nodes, 'long-device',
              'qubits of a chain are not reached once', reached=len(flat), nodes=nodes, state=nodes)


def case_apart(mon, case):
    """Too few connected qubits, and maps without qubit 0."""
    rng = np.random.default_rng(case['seed'])
    a = int(rng.integers(3, 6))
    cmap = [[k, k + 1] for k in range(a - 1)] + [[a, a + 1]]
    conf = BConfig(Device(cmap, {tuple(e): .01 for e in cmap}), indicator=False)
    circ, _ = conf.get_ghz_layout(a, transpiled=False)
    mon.close(abs(np.vdot(ghz(a), sim.statevector(circ))), 1, 'parallel-ghz', 'largest part', state=('part', a))
    mon.raises(QiskitError, lambda: conf.get_ghz_layout(a + 1, transpiled=False), 'rejected',
               'GHZ state over parts that are not connected')
    off = int(rng.integers(1, 4))
    cmap = [[k + off, k + off + 1] for k in range(a - 1)]
    conf = BConfig(Device(cmap, {tuple(e): .01 for e in cmap}), indicator=False)
    circ, layout = conf.get_ghz_layout(a, transpiled=False)
    mon.close(abs(np.vdot(ghz(a), sim.statevector(circ))), 1, 'parallel-ghz', 'map without qubit 0',
              state=('off', a, off))
    mon.equal(sorted(layout.values()), list(range(off, off + a)), 'layout', 'qubits of the map')
