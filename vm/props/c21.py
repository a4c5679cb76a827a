"""C21: RB error-budget utilities."""
import numpy as np
import qiskit
from qiskit import QuantumCircuit
from qiskit.exceptions import QiskitError
import qiskit.ignis.verification.randomized_benchmarking as rb
from vm.rbtools import random_pattern

PROP = 'C21'
LEVEL = 'exploration'
RULE = ('random gate counts, error rates, coherence times and transpiled circuits; a state is one '
        'distinct output')


def cases(rng, tier):
    n = 200 if tier == 'quick' else 1500
    for _ in range(n):
        for kind in ('limit', 'epg', 'epc', 'gpc', 'identities'):
            yield kind, {}
    for _ in range(max(4, n // 15)):
        yield 'gpc_rb', {}
    yield 'invalid', {}


def required_events(tier):
    return ['coherence-limit', 'limit-default-t2', '1q-epg', '2q-epg', '1q-epc', '2q-epc',
            'twoq-clifford', 'gates-per-clifford', 'count-gates', 'rejected', 'inverse',
            'rb-gate-count']


def t1t2_kraus(t_1, t_2, t):
    """Amplitude and phase damping with decay e^-t/T1 of the population, e^-t/T2 of the
    coherence."""
    gam = 1 - np.exp(-t / t_1)
    coh = np.exp(-t / t_2)
    # coherence after damping sqrt(1-gam); remaining dephasing factor
    lam = coh / np.sqrt(1 - gam)
    ad = [np.array([[1, 0], [0, np.sqrt(1 - gam)]]), np.array([[0, np.sqrt(gam)], [0, 0]])]
    pz = max(0.0, (1 - lam) / 2)
    ph = [np.sqrt(1 - pz) * np.eye(2), np.sqrt(pz) * np.diag([1, -1])]
    return [p @ a for p in ph for a in ad]


def avg_fidelity(kraus):
    d = kraus[0].shape[0]
    f_pro = sum(abs(np.trace(k)) ** 2 for k in kraus) / d ** 2
    return (d * f_pro + 1) / (d + 1)


def case_limit(mon, case):
    rng = np.random.default_rng(case['seed'])
    for n in (1, 2):
        t_1 = rng.uniform(10, 100, n)
        t_2 = t_1 * rng.uniform(.1, 2, n)
        t = float(rng.uniform(.01, 20))
        if rng.random() < .3:
            got = rb.coherence_limit(n, list(t_1), None, t)
            t_2 = 2 * t_1
            mon.saw('limit-default-t2')
        else:
            got = rb.coherence_limit(n, list(t_1), list(t_2), t)
        ks = t1t2_kraus(t_1[0], t_2[0], t)
        if n == 2:
            k_2 = t1t2_kraus(t_1[1], t_2[1], t)
            ks = [np.kron(b, a) for a in ks for b in k_2]
        mon.close(got, 1 - avg_fidelity(ks), 'coherence-limit',
                  'not the infidelity of the relaxation channel', atol=1e-9)


def random_gpc(rng, qubits, cx=True):
    n_cx = float(rng.uniform(.5, 3)) if cx else 0
    return {q: {'u1': float(rng.uniform(0, 2)), 'u2': float(rng.uniform(0.05, 2)),
                'u3': float(rng.uniform(0.05, 2)), 'cx': n_cx} for q in qubits}


def epgs(rng):
    return {'u1': float(rng.choice([0, rng.uniform(0, .01)])), 'u2': float(rng.uniform(0, .01)),
            'u3': float(rng.uniform(0, .02))}


def case_epg(mon, case):
    rng = np.random.default_rng(case['seed'])
    qs = [int(x) for x in rng.permutation(6 if rng.random() < .7 else 15)[:3]]
    g_1 = random_gpc(rng, qs, cx=False)
    epc = float(rng.uniform(0, .05))
    got = rb.calculate_1q_epg(g_1, epc, qs[1])
    den = g_1[qs[1]]['u2'] + 2 * g_1[qs[1]]['u3']
    mon.close([got['u1'], got['u2'], got['u3']], [0, epc / den, 2 * epc / den], '1q-epg')
    g_2 = random_gpc(rng, qs)
    pair = qs[:2]
    name = 'cx'
    if rng.random() < .4:
        name = 'cz'
        for q in qs:
            g_2[q]['cz'] = g_2[q].pop('cx')
    mon.close(rb.calculate_2q_epg(g_2, epc, pair, two_qubit_name=name),
              epc / g_2[pair[0]][name], '2q-epg', 'without single-qubit errors')
    e = [epgs(rng), epgs(rng)]
    al = [np.prod([(1 - 2 * v) ** g_2[q].get(k, 0) for k, v in ee.items()])
          for q, ee in zip(pair, e)]
    a_1 = (al[0] + al[1] + 3 * al[0] * al[1]) / 5
    want = .75 * (1 - (1 - 4 / 3 * epc) / a_1) / g_2[pair[0]][name]
    mon.close(rb.calculate_2q_epg(g_2, epc, pair, e, two_qubit_name=name), want, '2q-epg',
              'with single-qubit errors')


def case_epc(mon, case):
    rng = np.random.default_rng(case['seed'])
    qs = [int(x) for x in rng.permutation(6 if rng.random() < .7 else 15)[:3]]
    g = random_gpc(rng, qs)
    e = [epgs(rng), epgs(rng)]
    q = qs[2]
    want = 1 - np.prod([(1 - v) ** g[q][k] for k, v in e[0].items()])
    mon.close(rb.calculate_1q_epc(g, e[0], q), want, '1q-epc')
    pair = qs[:2]
    e_2 = float(rng.uniform(0, .05))
    al = [np.prod([(1 - 2 * v) ** g[qq][k] for k, v in ee.items()]) for qq, ee in zip(pair, e)]
    a = (al[0] + al[1] + 3 * al[0] * al[1]) / 5 * (1 - 4 / 3 * e_2) ** g[pair[0]]['cx']
    got = rb.calculate_2q_epc(g, e_2, pair, e)
    mon.close(got, .75 * (1 - a), '2q-epc')
    # the deprecated spelling of the same quantity (sorted qubits)
    pair_s = sorted(pair)
    e_s = [e[pair.index(x)] for x in pair_s]
    g_s = {x: g[x] for x in pair}
    gate_q = [0, 0, 0, 1, 1, 1, -1]
    gate_e = [e_s[0]['u1'], e_s[0]['u2'], e_s[0]['u3'], e_s[1]['u1'], e_s[1]['u2'],
              e_s[1]['u3'], e_2]
    mon.close(rb.twoQ_clifford_error(g_s, gate_q, gate_e),
              rb.calculate_2q_epc(g, e_2, pair_s, e_s), 'twoq-clifford')


def case_identities(mon, case):
    rng = np.random.default_rng(case['seed'])
    qs = [0, 1]
    g = random_gpc(rng, qs)
    for q in qs:
        g[q]['cx'] = 1.0
    e = [epgs(rng), epgs(rng)]
    e_2 = float(rng.uniform(0, .05))
    epc = rb.calculate_2q_epc(g, e_2, qs, e)
    mon.close(rb.calculate_2q_epg(g, epc, qs, e), e_2, 'inverse',
              'epg of the predicted epc (one 2Q gate per Clifford)')
    mon.check(rb.calculate_2q_epc(g, e_2 + .01, qs, e) > epc, 'inverse', 'epc not increasing')


def case_gpc(mon, case):
    rng = np.random.default_rng(case['seed'])
    n = int(rng.integers(1, 5 if rng.random() < .8 else 13))
    names = ['u1', 'u2', 'u3', 'cx', 'x', 'h', 'ccx']
    nseed, nlen = int(rng.integers(1, 4)), int(rng.integers(1, 4 if rng.random() < .8 else 13))
    lengths = [int(x) for x in np.sort(rng.choice(np.arange(1, 50), nlen, replace=False))]
    basis = [str(b) for b in rng.permutation(names)[:int(rng.integers(1, 7))]]
    qubits = [int(q) for q in rng.permutation(n)[:int(rng.integers(1, n + 1))]]
    total = {q: {b: 0 for b in basis} for q in qubits}
    lst = []
    for _ in range(nseed):
        row = []
        for _ in range(nlen):
            c = QuantumCircuit(n, n)
            for _ in range(int(rng.integers(0, 15))):
                g = str(rng.choice(names))
                if g == 'cx':
                    if n == 1:
                        continue
                    qs = [int(x) for x in rng.choice(n, 2, replace=False)]
                    c.cx(*qs)
                elif g == 'ccx':
                    if n < 3:
                        continue
                    qs = [int(x) for x in rng.choice(n, 3, replace=False)]
                    c.ccx(*qs)
                else:
                    qs = [int(rng.integers(n))]
                    {'u1': lambda q: c.append(qiskit.circuit.library.U1Gate(.3), [q]),
                     'u2': lambda q: c.append(qiskit.circuit.library.U2Gate(.3, .2), [q]),
                     'u3': lambda q: c.append(qiskit.circuit.library.U3Gate(.3, .2, .1), [q]),
                     'x': c.x, 'h': c.h}[g](qs[0])
                for q in qs:
                    if q in total and g in total[q]:
                        total[q][g] += 1
            if rng.random() < .7:
                c.barrier()
                c.measure(range(n), range(n))
            row.append(c)
        lst.append(row)
    got = rb.gates_per_clifford(lst, lengths, basis, qubits)
    den = nseed * sum(x + 1 for x in lengths)
    mon.equal(sorted(got), sorted(qubits), 'gates-per-clifford')
    for q in qubits:
        mon.equal(sorted(got[q]), sorted(basis), 'gates-per-clifford')
        mon.close([got[q][b] for b in basis], [total[q][b] / den for b in basis],
                  'gates-per-clifford', 'gate count')
    # the same circuits assembled into one job per seed
    jobs = rb.gates_per_clifford([qiskit.assemble(row) for row in lst], lengths, basis, qubits)
    mon.close([[jobs[q][b] for b in basis] for q in qubits],
              [[got[q][b] for b in basis] for q in qubits], 'gates-per-clifford',
              'gate count of assembled jobs')
    # the same circuits through the deprecated qobj counter
    qobj = qiskit.assemble(lst[0])
    cg = rb.count_gates(qobj, basis, qubits)
    want = np.zeros((nlen, len(qubits), len(basis)), dtype=int)
    for i, c in enumerate(lst[0]):
        for inst, qs, _ in c.data:
            if inst.name in basis:
                for q in qs:
                    qi = c.qubits.index(q)
                    if qi in qubits:
                        want[i, qubits.index(qi), basis.index(inst.name)] += 1
    mon.close(np.asarray(cg), want, 'count-gates')


def case_gpc_rb(mon, case):
    """Counts of real RB circuits: per Clifford, with the inverse counted as one more."""
    rng = np.random.default_rng(case['seed'])
    pattern = random_pattern(rng, 3, sizes=(1, 2), max_groups=2)
    lengths = [1, 4]
    circs, xdata = rb.randomized_benchmarking_seq(nseeds=2, length_vector=lengths,
                                                  rb_pattern=pattern,
                                                  rand_seed=int(rng.integers(1, 10 ** 5)))
    basis = ['u1', 'u2', 'u3', 'cx']
    tr = [qiskit.transpile(c, basis_gates=basis, optimization_level=1) for c in circs]
    qubits = [q for p in pattern for q in p]
    got = rb.gates_per_clifford(tr, xdata[0], basis, qubits)
    for q in qubits:
        for b in basis:
            tot = sum(1 for row in tr for c in row for i, qs, _ in c.data
                      if i.name == b and q in [c.qubits.index(x) for x in qs])
            mon.close(got[q][b], tot / (2 * (1 + 1 + 4 + 1)), 'rb-gate-count')


def case_invalid(mon, case):
    bad = (ValueError, QiskitError)
    mon.raises(bad, lambda: rb.coherence_limit(3, [1, 1, 1], [1, 1, 1], .1), 'rejected')
    mon.raises(bad, lambda: rb.coherence_limit(2, [1], [1], .1), 'rejected')
    mon.raises(bad, lambda: rb.coherence_limit(1, [1], [1, 2], .1), 'rejected')
    g = {0: {'u1': 1, 'u2': 1, 'u3': 1, 'cx': 1.5}, 1: {'u1': 1, 'u2': 1, 'u3': 1, 'cx': 1.5}}
    mon.raises(bad, lambda: rb.calculate_1q_epg(g, .1, 0), 'rejected', '2Q gates in 1Q counts')
    few = {0: dict(g[0], cx=float(np.random.default_rng(case['seed']).uniform(.01, 1)))}
    mon.raises(bad, lambda: rb.calculate_1q_epg(few, .1, 0), 'rejected', 'few 2Q gates in 1Q counts')
    mon.raises(bad, lambda: rb.calculate_1q_epg(g, .1, 4), 'rejected')
    mon.raises(bad, lambda: rb.calculate_1q_epg({0: {'u1': 1}}, .1, 0), 'rejected')
    mon.raises(bad, lambda: rb.calculate_2q_epg(g, .1, [0, 1, 2]), 'rejected')
    mon.raises(bad, lambda: rb.calculate_2q_epg(g, .1, [0, 1], two_qubit_name='cz'), 'rejected')
    mon.raises(bad, lambda: rb.calculate_2q_epc(g, .1, [0], [{}, {}]), 'rejected')
    mon.raises(bad, lambda: rb.calculate_2q_epc(g, .1, [0, 1], [{}, {}], 'cz'), 'rejected')
    mon.raises(bad, lambda: rb.calculate_1q_epc(g, {}, 7), 'rejected')
    mon.raises(bad, lambda: rb.gates_per_clifford([['x']], [1], ['u1'], [0]), 'rejected')
