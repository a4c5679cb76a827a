"""C25: decoders of the repetition code."""
import copy
import functools

import networkx as nx
import numpy as np
from qiskit.ignis.verification.topological_codes import (
    RepetitionCode, GraphDecoder, lookuptable_decoding, postselection_decoding)
from vm import reptools as rt

PROP = 'C25'
LEVEL = 'exploration'
RULE = ('codes of 2-7 qubits and 1-3 rounds; every pattern drawn from the faults of the circuits up '
        'to half the distance, random syndromes, syndrome graphs with unit, random and measured '
        'weights, random result dictionaries; a state is one distinct decoded string')


def cases(rng, tier):
    q = tier == 'quick'
    for d, T in [(2, 1), (3, 1), (3, 2)] + ([(4, 1)] if q else [(4, 1), (4, 2), (5, 1), (5, 2), (3, 4)]):
        yield 'graph', {'d': d, 'T': T}
    for _ in range(60 if q else 1500):
        yield 'faults', {'d': rng.choice([3, 3, 4, 5, 5, 6, 7]), 'T': rng.choice([1, 1, 2, 3])}
    for _ in range(8 if q else 200):
        yield 'faults', {'d': rng.choice([3, 5, 8, 9]), 'T': rng.choice([1, 4, 6])}
        yield 'optimal', {'d': rng.choice([3, 7, 8]), 'T': rng.choice([1, 4, 5]),
                          'weights': rng.choice(['unit', 'real', 'integer'])}
    for _ in range(80 if q else 2500):
        yield 'optimal', {'d': rng.choice([2, 3, 3, 4, 5, 6]), 'T': rng.choice([1, 2, 3]),
                          'weights': rng.choice(['unit', 'real', 'real', 'integer', 'measured'])}
    for _ in range(60 if q else 1500):
        yield 'tables', {'d': rng.choice([2, 3, 4, 6, 11]), 'T': rng.choice([1, 2, 4, 9])}
    for _ in range(40 if q else 800):
        yield 'weigh', {'d': rng.choice([2, 3, 4, 6]), 'T': rng.choice([1, 2, 4])}


def required_events(tier):
    return ['syndrome-graph', 'corrected', 'logical-probability', 'consistent', 'minimum-weight',
            'postselection', 'lookup', 'weight', 'weight-scale', 'input-unmodified',
            'minimum-weight-real', 'corrected-maximal', 'many-shots',
            'unobserved-edge']


def reference_graph(d, T):
    """Syndrome graph from the faults of the circuit, executed here."""
    code = RepetitionCode(d, T)
    circ = code.circuit['0']
    S = nx.Graph()
    for fault in rt.positions(circ):
        regs = rt.run(circ, [fault])
        bits = [[regs[r[i]] for i in range(r.size)] for r in circ.cregs]
        light = rt.nodes(rt.processed(bits[-1], bits[:-1]))
        S.add_nodes_from(light)
        if len(light) == 2:
            S.add_edge(light[0], light[1], distance=1)
    return code, S


@functools.lru_cache(maxsize=64)
def _graph(d, T):
    return reference_graph(d, T)


def decoder(d, T):
    code, S = _graph(d, T)
    return code, GraphDecoder(code, S=S.copy())


def case_graph(mon, case):
    """The decoder's own graph holds exactly the pairs one fault can light."""
    d, T = case['d'], case['T']
    code, S = reference_graph(d, T)
    own = GraphDecoder(code).S
    mon.equal({frozenset(e) for e in own.edges}, {frozenset(e) for e in S.edges},
              'syndrome-graph', 'edges of the syndrome graph', state=(d, T, len(own.edges)))
    mon.equal(set(own.nodes), set(S.nodes), 'syndrome-graph', 'nodes of the syndrome graph')
    mon.check(all(own.get_edge_data(*e).get('distance') == 1 for e in own.edges),
              'syndrome-graph', 'initial distances')


def case_faults(mon, case):
    rng = np.random.default_rng(case['seed'])
    d, T = case['d'], case['T']
    code, dec = decoder(d, T)
    results = {}
    for log in ('0', '1'):
        circ = code.circuit[log]
        start = min(i for i, (inst, _, _) in enumerate(circ.data) if inst.name == 'cx')
        pos = [p for p in rt.positions(circ) if p[0] >= start]
        raw = {}
        for _ in range(8):
            k = int(rng.integers(0, (d - 1) // 2 + 1)) if rng.random() < .3 else (d - 1) // 2
            faults = [pos[int(i)] for i in rng.choice(len(pos), size=k, replace=False)]
            key = rt.raw_string(circ, rt.run(circ, faults))
            raw[key] = raw.get(key, 0) + int(rng.integers(1, 100))
            if k == (d - 1) // 2:
                mon.saw('corrected-maximal')
        results[log] = code.process_results({log: raw})[log]
        for string in results[log]:
            got = dec.matching(string)
            mon.equal(got, log + ' ' + log, 'corrected',
                      'faults below half the distance are not corrected', string=string,
                      state=(d, T, string))
    prob = dec.get_logical_prob(results)
    mon.equal(prob, {'0': 0, '1': 0}, 'logical-probability', 'error although correctable')


def random_string(rng, d, T, p=.35):
    code_bits = [int(b) for b in rng.random(d) < p]
    rounds = [[int(b) for b in rng.random(d - 1) < p] for _ in range(T)]
    if rng.random() < .5:
        code_bits = [b ^ 1 for b in code_bits]
    return rt.processed(code_bits, rounds)


def tjoin(dist, terminals):
    """Minimum total distance of a pairing of the terminals."""
    terminals = tuple(terminals)

    @functools.lru_cache(maxsize=None)
    def best(left):
        if not left:
            return 0.0
        first = left[0]
        return min(dist[first][left[i]] + best(left[1:i] + left[i + 1:])
                   for i in range(1, len(left)))
    return best(terminals)


def case_optimal(mon, case):
    rng = np.random.default_rng(case['seed'])
    d, T = case['d'], case['T']
    code, S0 = _graph(d, T)
    S = S0.copy()
    mode = case['weights']
    if mode in ('real', 'integer'):
        for u, v in S.edges:
            S[u][v]['distance'] = float(rng.uniform(.05, 3)) if mode == 'real' else int(
                rng.integers(0, 6))
    dec = GraphDecoder(code, S=S)
    if mode == 'measured':
        counts = {}
        p, num = (.5, 400) if rng.random() < .7 else (.1, 20)
        for _ in range(num):
            string = random_string(rng, d, T, p)
            counts[string] = counts.get(string, 0) + int(rng.integers(1, 9))
        dec.weight_syndrome_graph({'0': counts})
        weights = [dec.S[u][v]['distance'] for u, v in dec.S.edges]
        if not np.all(np.isfinite(weights)):
            # errors never seen have no finite weight: decoding still has to work
            for _ in range(4):
                string = random_string(rng, d, T, .25)
                got = dec.matching(string).split(' ')
                mon.check(len(got) == 2 and got[0] == got[1], 'unobserved-edge',
                          'corrected logical readouts disagree', string=string, got=got)
            return
    given = dec.S if mode == 'measured' else S
    dist = dict(nx.all_pairs_dijkstra_path_length(given, weight='distance'))
    for _ in range(4):
        string = random_string(rng, d, T, .25)
        syn = [n for n in rt.nodes(string) if n[0] == 1]
        if len(syn) > 9:
            continue
        logical = [int(b) for b in string.split('  ')[0].split(' ')]
        got = [int(b) for b in dec.matching(string).split(' ')]
        mon.check(len(got) == 2 and got[0] == got[1], 'consistent',
                  'corrected logical readouts disagree', string=string, got=got,
                  state=(d, T, string))
        cost = {}
        for value in (0, 1):
            ends = [(0, i, 0) for i in range(2) if logical[i] != value]
            cost[value] = tjoin(dist, syn + ends)
        mon.check(cost[got[0]] <= cost[1 - got[0]] + 1e-6, 'minimum-weight',
                  'correction is not of minimum weight', string=string, cost=cost, got=got)
        if mode in ('real', 'measured'):
            mon.saw('minimum-weight-real', (string, got[0]))
    # the probability counts the shots decoded to another value
    results = {}
    for log in ('0', '1'):
        results[log] = {}
        for _ in range(int(rng.integers(1, 6))):
            results[log][random_string(rng, d, T, .1)] = int(rng.integers(1, 300))
    before = copy.deepcopy(results)
    prob = dec.get_logical_prob(results)
    mon.equal(results, before, 'input-unmodified', 'results changed')
    for log in results:
        wrong = sum(n for s, n in results[log].items() if dec.matching(s)[0] != log)
        mon.close(prob[log], wrong / sum(results[log].values()), 'logical-probability',
                  'fraction of wrongly decoded shots')


def case_tables(mon, case):
    rng = np.random.default_rng(case['seed'])
    d, T = case['d'], case['T']

    def table(n, p):
        out = {}
        top = 4 if rng.random() < .4 else 400
        for log in ('0', '1'):
            out[log] = {}
            for _ in range(n):
                s = random_string(rng, d, T, p)
                out[log][s] = int(rng.integers(1, top))
        return out
    real = table(int(rng.integers(2, 30)), .2)
    for log in ('0', '1'):
        clean = rt.processed([int(log)] * d, [[0] * (d - 1)] * T)
        real[log][clean] = int(rng.integers(1, 600))
    train = table(int(rng.integers(0, 40)), .2)
    before = copy.deepcopy((real, train))
    got = postselection_decoding(real)
    for log in real:
        keep = {s: n for s, n in real[log].items()
                if not [v for v in rt.nodes(s) if v[0] == 1]}
        wrong = sum(n for s, n in keep.items() if s[0] != log)
        mon.close(got[log], wrong / sum(keep.values()), 'postselection',
                  'error among the shots with trivial syndrome')
    got = lookuptable_decoding(train, real)
    for log in real:
        other = '1' if log == '0' else '0'
        wrong = sum(n for s, n in real[log].items()
                    if train[other].get(s, 0) > train[log].get(s, 0))
        mon.close(got[log], wrong / sum(real[log].values()), 'lookup',
                  'error of the most frequent training value')
    mon.equal((real, train), before, 'input-unmodified', 'results changed')


def case_weigh(mon, case):
    rng = np.random.default_rng(case['seed'])
    d, T = case['d'], case['T']
    code, dec = decoder(d, T)
    counts = {}
    few = rng.random() < .4
    for _ in range(12 if few else 300):
        counts[random_string(rng, d, T, .5)] = 1 if few else int(rng.integers(1, 50))
    dec.weight_syndrome_graph({'0': counts})
    first = {frozenset(e): dec.S[e[0]][e[1]]['distance'] for e in dec.S.edges}
    dec2 = decoder(d, T)[1]
    items = list(counts.items())
    items = [items[int(i)] for i in rng.permutation(len(items))]
    dec2.weight_syndrome_graph({'0': {k: 7 * v for k, v in items}, '1': {}})
    second = {frozenset(e): dec2.S[e[0]][e[1]]['distance'] for e in dec2.S.edges}
    fin = [k for k in first if np.isfinite(first[k])]
    mon.close([first[k] for k in fin], [second[k] for k in fin], 'weight-scale',
              'weights depend on the number of shots or their order')
    mon.check(all(w >= -1e-12 for w in first.values()), 'weight-scale', 'negative distance')
    # one kind of error only: the distance is -log(p/(1-p))
    edge = sorted(dec.S.edges)[int(rng.integers(dec.S.number_of_edges()))]
    quiet = rt.processed([0] * d, [[0] * (d - 1)] * T)
    noisy = list(quiet)
    shape = quiet.split('  ')
    offset = {}
    pos = 0
    for kind, part in enumerate(shape):
        for t, rnd in enumerate(part.split(' ')):
            for j in range(len(rnd)):
                offset[(kind, t, j)] = pos + j
            pos += len(rnd) + 1
        pos += 1
    for node in edge:
        noisy[offset[node]] = '1'
    noisy = ''.join(noisy)
    total = int(rng.integers(100, 5000)) if rng.random() < .5 else int(10 ** rng.uniform(3, 8))
    if total > 20000:
        mon.saw('many-shots', state=(d, T, total))
    hits = int(rng.integers(1, total // 2))
    if rng.random() < .3:
        hits = int(rng.integers(1, 4))
    dec3 = decoder(d, T)[1]
    with np.errstate(divide='ignore'):
        dec3.weight_syndrome_graph({'0': {quiet: total - hits, noisy: hits}})
    p = hits / total
    mon.close(dec3.S[edge[0]][edge[1]]['distance'], -np.log(p / (1 - p)), 'weight',
              'distance of the only error')
