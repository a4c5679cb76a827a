"""C16: structure, naming, nesting and reproducibility of RB sequences."""
import copy

import numpy as np
from numpy.random import RandomState
from qiskit import QuantumCircuit
from qiskit.exceptions import QiskitError
from qiskit.quantum_info import Clifford
import qiskit.ignis.verification.randomized_benchmarking as rb
from vm import gen, sim
from vm.rbtools import (random_pattern, same_up_to_phase, is_clifford_matrix, is_dihedral_matrix)
from vm.props.c15 import options, groups_of

PROP = 'C16'
LEVEL = 'exploration'
RULE = ('random options as for C15; each circuit is parsed into the per-pattern group elements '
        'between its barriers; a state is one distinct parsed sequence')


def cases(rng, tier):
    n = 60 if tier == 'quick' else 2500
    for _ in range(n):
        yield 'structure', {'group': rng.choice([None, '0', 'Clifford', '1', 'Non-Clifford',
                                                 'CNOT-Dihedral']),
                            'inter': rng.random() < .5, 'align': rng.random() < .5,
                            'purity': False, 'offset': rng.choice([0, 0, 3, 17])}
    for _ in range(n // 4):
        yield 'structure', {'group': None, 'inter': False, 'align': rng.random() < .5,
                            'purity': True, 'offset': rng.choice([0, 5, 130])}
    for _ in range(max(6, n // 8)):
        yield 'structure', {'group': rng.choice(['0', '1']), 'inter': rng.random() < .3,
                            'align': rng.random() < .5, 'purity': False, 'offset': 0, 'long': True}
    for _ in range(max(4, n // 12)):
        yield 'structure', {'group': rng.choice(['0', '1']), 'inter': rng.random() < .3,
                            'align': rng.random() < .5, 'purity': False, 'offset': 8,
                            'manyseeds': True}
    for _ in range(max(8, n // 8)):
        yield 'structure', {'group': rng.choice(['0', '1']), 'inter': rng.random() < .4,
                            'align': rng.random() < .5, 'purity': False,
                            'offset': rng.choice([0, 11, 100]), 'wide': True}
    for i in range(3 if tier == 'quick' else 60):
        yield 'structure', {'group': rng.choice(['0', '1']), 'inter': rng.random() < .4, 'align': True,
                            'purity': False, 'offset': 0, 'flat': True}
        yield 'diverse', {'group': rng.choice(['0', '1']),
                          'source': ['int', 'state', 'none'][i % 3]}
    for _ in range(n // 3):
        yield 'repro', {'group': rng.choice(['0', '1']), 'inter': rng.random() < .4,
                        'align': False, 'purity': False}
    for _ in range(max(6, n // 12)):
        yield 'defaults', {'group': rng.choice([None, '1'])}
        yield 'invalid', {}
        yield 'aliases', {}


def required_events(tier):
    return ['names', 'xdata', 'measure-map', 'element-count', 'element-in-group', 'nested',
            'interleaved-positions', 'npurity', 'reproducible', 'seeds-differ', 'rejected', 'diverse',
            'offset-names', 'align-barriers', 'defaults', 'inputs-unmodified', 'aliases']


def tokens(circ, pattern, allq):
    """Per pattern: list of ops ('g', inst, local qubits) and barriers; asserts every operation
    stays within one pattern."""
    qi = sim.qindex(circ)
    out = [[] for _ in pattern]
    for inst, qs, _ in circ.data:
        if inst.name == 'measure':
            continue
        idx = [qi[q] for q in qs]
        if inst.name == 'barrier':
            for t, pat in zip(out, pattern):
                if set(pat) <= set(idx):
                    t.append(('A' if set(idx) == set(allq) and len(pattern) > 1 else 'B',))
                elif set(pat) & set(idx):
                    t.append(('b',))
            continue
        hit = [k for k, pat in enumerate(pattern) if set(idx) <= set(pat)]
        if len(hit) != 1:
            return None
        out[hit[0]].append(('g', inst, [pattern[hit[0]].index(q) for q in idx]))
    return out


def parse(tok, n_sets, mult, align, many, k, inter=False):
    """Cut the tokens of one pattern into n_sets*mult blocks (matrices) + the tail."""
    pos = 0
    blocks = []
    per = 2 if inter else 1

    def block():
        nonlocal pos
        circ = QuantumCircuit(k)
        while pos < len(tok) and tok[pos][0] == 'g':
            circ.append(copy.deepcopy(tok[pos][1]), tok[pos][2])
            pos += 1
        return sim.unitary(circ)
    for _ in range(n_sets):
        for _ in range(mult * per):
            blocks.append(block())
            if pos >= len(tok) or tok[pos][0] != 'B':
                return None
            pos += 1
        if align:
            if pos >= len(tok) or tok[pos][0] != ('A' if many else 'B'):
                return None
            pos += 1
    tail = block()
    if pos != len(tok):
        return None
    return blocks, tail


def case_structure(mon, case):
    rng = np.random.default_rng(case['seed'])
    opts, pattern, mults, dihedral, inter = options(rng, case)
    opts['seed_offset'] = case['offset']
    keep = copy.deepcopy({k: v for k, v in opts.items() if k != 'interleaved_elem'})
    out = rb.randomized_benchmarking_seq(**opts)
    mon.equal({k: v for k, v in opts.items() if k != 'interleaved_elem'}, keep,
              'inputs-unmodified')
    groups, xdata = groups_of(out, opts, dihedral)
    purity = bool(opts.get('is_purity'))
    arity = 3 if purity else (5 if inter and dihedral else 3 if inter or dihedral else 2)
    mon.equal(len(out), arity, 'names', 'number of returned fields')
    lengths = opts['length_vector']
    mon.close(np.asarray(xdata), [[l * m for l in lengths] for m in mults], 'xdata')
    qlist = [q for p in pattern for q in p]
    base = 'rb_cnotdihedral' if dihedral else 'rb'
    if purity:
        dim = len(pattern[0])
        mon.equal(int(out[2]), 3 ** dim, 'npurity')
        mon.equal(len(out[0]), opts['nseeds'], 'npurity', 'one list per seed')
        for s, bases in enumerate(out[0]):
            mon.equal(len(bases), 3 ** dim, 'npurity')
            labels = set()
            for lst in bases:
                mon.equal(len(lst), len(lengths), 'names')
                label = lst[0].name.split('_')[2]
                labels.add(label)
                for i, circ in enumerate(lst):
                    mon.equal(circ.name, 'rb_purity_%s_length_%d_seed_%d'
                              % (label, i, s + case['offset']), 'names')
                    _, meas = sim.split(circ)
                    mon.equal(sorted(meas), sorted((q, c) for c, q in enumerate(qlist)),
                              'measure-map')
            mon.check(len(labels) == 3 ** dim and all(len(x) == dim and set(x) <= set('XYZ')
                                                      for x in labels), 'npurity',
                      'measurement bases missing or repeated', got=sorted(labels))
        return
    prefix = {'z': base + ('_Z' if dihedral else ''), 'x': base + '_X',
              'int-z': base + '_interleaved' + ('_Z' if dihedral else ''),
              'int-x': base + '_interleaved_X'}
    parsed = {}
    for name, per_seed in groups.items():
        mon.equal(len(per_seed), opts['nseeds'], 'names', 'one list per seed')
        for s, lst in enumerate(per_seed):
            mon.equal(len(lst), len(lengths), 'names', 'one circuit per length')
            for i, circ in enumerate(lst):
                mon.equal(circ.name, '%s_length_%d_seed_%d' % (prefix[name], i, s + case['offset']),
                          'names' if not case['offset'] else 'offset-names')
                _, meas = sim.split(circ)
                mon.equal(sorted(meas), sorted((q, c) for c, q in enumerate(qlist)),
                          'measure-map', pattern=pattern)
                mon.equal(len(circ.clbits), len(qlist), 'measure-map', 'number of clbits')
                if name in ('x', 'int-x'):
                    continue
                tok = tokens(circ, pattern, qlist)
                if not mon.check(tok is not None, 'element-count',
                                 'an operation acts across patterns', pattern=pattern):
                    continue
                for k, pat in enumerate(pattern):
                    got = parse(tok[k], lengths[i], mults[k], opts['align_cliffs'],
                                len(pattern) > 1, len(pat), inter=name == 'int-z')
                    if not mon.check(got is not None, 'element-count',
                                     'number of group elements is not the sequence length',
                                     circuit=circ.name, pattern=pattern, mults=mults,
                                     state=[circ.name, lengths[i] * mults[k]]):
                        continue
                    if opts['align_cliffs']:
                        mon.saw('align-barriers')
                    parsed[name, s, i, k] = got
                    for m in got[0] + [got[1]]:
                        ok = is_dihedral_matrix(m) if dihedral else is_clifford_matrix(m)
                        mon.check(ok, 'element-in-group', 'element is outside the group',
                                  state=np.round(m, 4))
    for (name, s, i, k), (blocks, _) in parsed.items():
        nxt = parsed.get((name, s, i + 1, k))
        if nxt is not None:
            mon.check(all(same_up_to_phase(a, b) for a, b in zip(blocks, nxt[0])), 'nested',
                      'longer sequence does not extend the shorter one')
        if name == 'int-z' and ('z', s, i, k) in parsed:
            ref = parsed['z', s, i, k][0]
            ok = all(same_up_to_phase(blocks[2 * j], ref[j]) for j in range(len(ref)))
            mon.check(ok and len(blocks) == 2 * len(ref), 'interleaved-positions',
                      'interleaved sequence does not reuse the random elements')
            mon.check(all(same_up_to_phase(b, inter[k][1]) for b in blocks[1::2]),
                      'interleaved-positions', 'interleaved element differs', form=inter[k][2])


def prints(out):
    res = []

    def walk(o):
        if isinstance(o, QuantumCircuit):
            res.append(gen.fingerprint(o))
        elif isinstance(o, (list, tuple)):
            for x in o:
                walk(x)
    walk(out)
    return res


def case_repro(mon, case):
    rng = np.random.default_rng(case['seed'])
    opts, pattern, _, _, _ = options(rng, case, 4)
    opts['nseeds'] = 2
    opts['length_vector'] = [2, 8]
    base = int(rng.integers(0, 3)) if rng.random() < .5 else int(rng.integers(1, 10 ** 6))

    def seed_obj():
        return RandomState(base) if kind else base
    kind = rng.random() < .4
    np.random.seed(1)
    opts['rand_seed'] = seed_obj()
    one = prints(rb.randomized_benchmarking_seq(**opts))
    np.random.seed(2)
    opts['rand_seed'] = seed_obj()
    two = prints(rb.randomized_benchmarking_seq(**opts))
    mon.check(one == two, 'reproducible', 'same rand_seed, different circuits', state=base,
              rand_seed=base, random_state=kind)
    opts['seed_offset'] = 4
    opts['rand_seed'] = seed_obj()
    off = prints(rb.randomized_benchmarking_seq(**opts))
    mon.check([f[1:] for f in off] == [f[1:] for f in one], 'offset-names',
              'seed_offset changed the sequences')
    opts['seed_offset'] = 0
    opts['rand_seed'] = seed_obj()
    out = rb.randomized_benchmarking_seq(**opts)
    a, b = out[0][0][-1], out[0][1][-1]
    if sum(len(p) for p in pattern) * 8 >= 8:
        mon.check(gen.fingerprint(a)[3] != gen.fingerprint(b)[3], 'seeds-differ',
                  'two seeds gave the same sequence', rand_seed=base)
    # elements within a sequence are not all the same
    qlist = [q for p in pattern for q in p]
    tok = tokens(a, pattern, qlist)
    mults = np.ones(len(pattern), dtype=int) * np.array(opts.get('length_multiplier', 1))
    for k, pat in enumerate(pattern):
        got = parse(tok[k], 8, int(mults[k]), opts['align_cliffs'], len(pattern) > 1, len(pat))
        if got is None:
            continue
        mon.check(not all(same_up_to_phase(m, got[0][0]) for m in got[0]), 'seeds-differ',
                  'all random elements of a sequence are equal', rand_seed=base)
    # no seed: successive calls differ
    opts['rand_seed'] = None
    one = prints(rb.randomized_benchmarking_seq(**opts))
    two = prints(rb.randomized_benchmarking_seq(**opts))
    mon.check(one != two, 'seeds-differ', 'unseeded calls repeat')


def case_diverse(mon, case):
    """The elements of long sequences come from the whole group."""
    rng = np.random.default_rng(case['seed'])
    seed = int(rng.integers(1, 10 ** 6))
    if case['source'] != 'int':
        seed = np.random.RandomState(seed) if case['source'] == 'state' else None
    n = 700
    out = rb.randomized_benchmarking_seq(nseeds=1, length_vector=[n], rb_pattern=[[0], [2, 1]], rand_seed=seed,
                                         group_gates=case['group'])
    tok = tokens(out[0][0][0], [[0], [2, 1]], [0, 2, 1])
    one = parse(tok[0], n, 1, False, True, 1)
    two = parse(tok[1], n, 1, False, True, 2)
    if not mon.check(one is not None and two is not None, 'element-count', 'long sequence'):
        return

    def kinds(mats):
        seen = set()
        for m in mats:
            big = m.flatten()[int(np.argmax(np.abs(m.flatten()) > .3))]
            seen.add(tuple(np.round((m * abs(big) / big).flatten(), 3) + (0.0 + 0.0j)))
        return len(seen)
    # one-qubit groups have 24 or 16 elements, those of two qubits thousands
    mon.equal(kinds(one[0]), 16 if case['group'] == '1' else 24, 'diverse', 'elements of the one-qubit group',
              source=case['source'])
    got = kinds(two[0])
    mon.check(got > .8 * n, 'diverse', 'few different elements of the two-qubit group', got=got, of=n, state=got)


def case_defaults(mon, case):
    out = rb.randomized_benchmarking_seq(group_gates=case['group'])
    mon.close(np.asarray(out[1]), [[1, 10, 20]], 'defaults')
    mon.equal(len(out[0]), 1, 'defaults')
    mon.equal([c.num_qubits for c in out[0][0]], [1, 1, 1], 'defaults')
    toks = [tokens(c, [[0]], [0])[0] for c in out[0][0]]
    for t, n in zip(toks, [1, 10, 20]):
        mon.check(parse(t, n, 1, False, False, 1) is not None, 'element-count')


def case_aliases(mon, case):
    """Every accepted name of a group selects that group."""
    rng = np.random.default_rng(case['seed'])
    seed = int(rng.integers(1, 10 ** 6))
    pattern = random_pattern(rng, 4, sizes=(1, 2), max_groups=2)

    def gates(name):
        rb_circs = rb.randomized_benchmarking_seq(
            nseeds=1, length_vector=[1, 3], rb_pattern=pattern, rand_seed=seed,
            group_gates=name)
        parts = []
        for part in (x for x in rb_circs if isinstance(x, list)):
            for row in part:
                for c in row:
                    parts.append([c.name] + [(g.name, [float(p) for p in g.params],
                                              [c.qubits.index(q) for q in qs])
                                             for g, qs, _ in c.data])
        return parts
    for names in ((None, '0', 'Clifford', 'clifford'),
                  ('1', 'Non-Clifford', 'NonClifford', 'CNOTDihedral', 'CNOT-Dihedral')):
        ref = gates(names[0])
        for name in names[1:]:
            mon.check(gates(name) == ref, 'aliases', 'group name selects other circuits', state=name)


def case_invalid(mon, case):
    rng = np.random.default_rng(case['seed'])
    bad = (ValueError, QiskitError)
    f = rb.randomized_benchmarking_seq
    a, b, c = [int(x) for x in rng.permutation(5)[:3]]
    mon.raises(bad, lambda: f(rb_pattern=[[a, b], [b]]), 'rejected', 'duplicate qubit')
    mon.raises(bad, lambda: f(rb_pattern=[[a, a]]), 'rejected', 'duplicate qubit')
    mon.raises(bad, lambda: f(rb_pattern=[[a, b], [c]], is_purity=True), 'rejected',
               'purity pattern of unequal dimensions')
    mon.raises(bad, lambda: f(rb_pattern=[[a], [c]], is_purity=True, length_multiplier=[1, 2]),
               'rejected', 'purity with multipliers')
    mon.raises(bad, lambda: f(rb_pattern=[[a], [c]], length_multiplier=[1]), 'rejected',
               'wrong number of multipliers')
    mon.raises(bad, lambda: f(rb_pattern=[[a], [c]], length_multiplier=[1, 0]), 'rejected',
               'zero multiplier')
    mon.raises(bad, lambda: f(rb_pattern=[[a], [c]], length_multiplier=[1, 1.5]), 'rejected',
               'fractional multiplier')
    mon.raises(bad, lambda: f(rb_pattern=[[a, b]], group_gates='Pauli'), 'rejected',
               'unknown group')
    x = QuantumCircuit(1)
    x.x(0)
    mon.raises(bad, lambda: f(rb_pattern=[[a, b]], interleaved_elem=[x]), 'rejected',
               'interleaved dimension')
    y = QuantumCircuit(2)
    y.cx(0, 1)
    mon.raises(bad, lambda: f(rb_pattern=[[a, b], [c]], interleaved_elem=[x, y]), 'rejected',
               'interleaved elements in another order than the pattern')
    mon.raises(bad, lambda: f(rb_pattern=[[a], [b]], interleaved_elem=[x]), 'rejected',
               'missing interleaved element')
    t = QuantumCircuit(1)
    t.t(0)
    mon.raises(bad, lambda: f(rb_pattern=[[a]], interleaved_elem=[t]), 'rejected',
               'non-Clifford interleaved element')
    h = QuantumCircuit(1)
    h.h(0)
    mon.raises(bad, lambda: f(rb_pattern=[[a]], interleaved_elem=[h], group_gates='1'),
               'rejected', 'interleaved element outside the CNOT-dihedral group')
    mon.raises(bad, lambda: f(rb_pattern=[[a]], interleaved_elem=[rb.CNOTDihedral(1)]),
               'rejected', 'element of another group')
    mon.raises(bad, lambda: f(rb_pattern=[[a]], interleaved_elem=[Clifford(x)], group_gates='1'),
               'rejected', 'element of another group')
