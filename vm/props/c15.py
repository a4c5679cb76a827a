"""C15: every RB sequence composes to the identity."""
import numpy as np
import qiskit.ignis.verification.randomized_benchmarking as rb
from vm import sim
from vm.rbtools import random_pattern, same_up_to_phase, interleaved_choice

PROP = 'C15'
LEVEL = 'exploration'
RULE = ('random patterns (1-5 qubits, gaps, any order), lengths, multipliers, groups, interleaved '
        'elements and purity mode; each generated circuit is executed exactly from a random '
        'initial state; a state is one distinct circuit execution')


def cases(rng, tier):
    n = 150 if tier == 'quick' else 3000
    for _ in range(n):
        yield 'seq', {'group': rng.choice([None, '0', 'Clifford', '1', 'Non-Clifford',
                                           'CNOT-Dihedral', 'NonClifford', 'CNOTDihedral']),
                      'inter': rng.random() < .5, 'align': rng.random() < .5, 'purity': False}
    for _ in range(n // 3):
        yield 'seq', {'group': None, 'inter': False, 'align': rng.random() < .5, 'purity': True}
    for _ in range(n // 12):
        yield 'seq', {'group': rng.choice(['0', '1']), 'inter': rng.random() < .3,
                      'align': rng.random() < .5, 'purity': False, 'long': True}
        yield 'seq', {'group': rng.choice(['0', '1']), 'inter': rng.random() < .3,
                      'align': rng.random() < .5, 'purity': False, 'manyseeds': True}
    for i in range(n // 8):
        yield 'seq', {'group': rng.choice(['0', '1']), 'inter': rng.random() < .4,
                      'align': rng.random() < .5, 'purity': False, 'wide': True}
    for _ in range(n // 8):
        yield 'big', {'group': rng.choice(['0', '1'])}


def required_events(tier):
    return ['identity', 'identity-interleaved', 'identity-dihedral-x', 'purity-basis',
            'ground-state-certain']




def check_identity(mon, circ, rng, event, qlist, hadamard=False, rotations=None):
    """Unitary part of circ acts as the identity (or as the purity rotation / between the
    Hadamards) on a random state."""
    n = circ.num_qubits
    psi = rng.normal(size=2 ** n) + 1j * rng.normal(size=2 ** n)
    psi /= np.linalg.norm(psi)
    out = sim.statevector(circ, psi)
    want = psi.reshape([2] * n)
    if rotations:
        for q, mat in rotations:
            want = sim.apply_1(want, mat, [q], n)
    want = want.reshape(-1)
    mon.check(same_up_to_phase(out, want), event, 'the sequence does not compose to the identity',
              state=[circ.name, circ.size()], circuit=circ.name, qubits=qlist)
    probs = sim.outcome_probs(circ)
    if not rotations:
        mon.check(abs(probs.get('0' * len(qlist), 0) - 1) < 1e-6, 'ground-state-certain',
                  'noiseless sequence does not return to the ground state', circuit=circ.name,
                  got=probs)


RX = np.array([[1, -1j], [-1j, 1]]) / np.sqrt(2)
RY = np.array([[1, -1], [1, 1]]) / np.sqrt(2)


def options(rng, case, max_qubits=5):
    dihedral = case['group'] not in (None, '0', 'Clifford')
    if case.get('purity'):
        pattern = random_pattern(rng, 4, equal=int(rng.choice([1, 1, 2, 2, 3])))
        if rng.random() < .2:
            pattern = [[int(q)] for q in rng.permutation(7)[:int(rng.integers(4, 6))]]
    else:
        pattern = random_pattern(rng, max_qubits, sizes=(1, 1, 2, 2, 3))
    top = int(rng.integers(2, 6))
    lengths = sorted(int(x) for x in rng.choice(np.arange(1, top + 1),
                                                int(rng.integers(1, min(top, 3) + 1)),
                                                replace=False))
    nseeds = int(rng.integers(1, 3))
    if case.get('long'):
        pattern = random_pattern(rng, 2, sizes=(1, 1, 2))
        lengths = sorted({int(x) for x in rng.integers(1, 150, int(rng.integers(2, 5)))}
                         | {int(rng.integers(65, 150))})
    if case.get('manyseeds'):
        nseeds = int(rng.integers(6, 14))
    top_mult = 4
    if case.get('wide'):
        # many groups, high qubit indices, large multipliers
        pattern = random_pattern(rng, 9, sizes=(1, 1, 1, 2, 2, 3), max_groups=7,
                                 span=int(rng.integers(9, 13)))
        lengths = lengths[:2]
        nseeds = 1
        top_mult = 8
    if case.get('flat'):
        # more qubits than a state vector could hold comfortably
        num = int(rng.integers(10, 15))
        pattern = [[int(q)] for q in rng.permutation(num)]
        if rng.random() < .5:
            pattern[-2:] = [pattern[-2] + pattern[-1]]
        lengths = lengths[:2]
        nseeds, top_mult = 1, 3
    opts = {'nseeds': nseeds, 'length_vector': lengths, 'rb_pattern': pattern,
            'align_cliffs': bool(case.get('align')), 'group_gates': case['group'],
            'rand_seed': [None, 0, int(rng.integers(1, 10 ** 6))][int(rng.integers(3))]}
    mults = [1] * len(pattern)
    if case.get('purity'):
        opts['is_purity'] = True
        opts['length_multiplier'] = None if rng.random() < .5 else 1
    else:
        kind = int(rng.integers(3))
        if kind == 0:
            mults = [int(m) for m in rng.integers(1, top_mult, len(pattern))]
            opts['length_multiplier'] = mults
        elif kind == 1:
            m = int(rng.integers(1, top_mult - 1))
            mults = [m] * len(pattern)
            opts['length_multiplier'] = m
    inter = None
    if case.get('inter'):
        inter = [interleaved_choice(rng, len(p), dihedral, rb.CNOTDihedral) for p in pattern]
        opts['interleaved_elem'] = [i[0] for i in inter]
    return opts, pattern, mults, dihedral, inter


def groups_of(out, opts, dihedral):
    """name -> list over seeds of lists of circuits, and xdata."""
    if opts.get('is_purity'):
        return {'purity': out[0]}, out[1]
    if opts.get('interleaved_elem') is not None and dihedral:
        return {'z': out[0], 'x': out[2], 'int-z': out[3], 'int-x': out[4]}, out[1]
    if opts.get('interleaved_elem') is not None:
        return {'z': out[0], 'int-z': out[2]}, out[1]
    if dihedral:
        return {'z': out[0], 'x': out[2]}, out[1]
    return {'z': out[0]}, out[1]


def case_seq(mon, case):
    rng = np.random.default_rng(case['seed'])
    opts, pattern, _, dihedral, _ = options(rng, case)
    out = rb.randomized_benchmarking_seq(**opts)
    groups, _ = groups_of(out, opts, dihedral)
    qlist = [q for p in pattern for q in p]
    for name, per_seed in groups.items():
        if name == 'purity':
            for bases in per_seed:
                for lst in bases:
                    for circ in lst:
                        label = circ.name.split('_')[2]
                        rot = []
                        for i, ch in enumerate(label):
                            for pat in pattern:
                                if ch != 'Z':
                                    rot.append((pat[i], RX if ch == 'X' else RY))
                        check_identity(mon, circ, rng,
                                       'purity-basis' if rot else 'identity', qlist,
                                       rotations=rot)
            continue
        event = {'z': 'identity', 'x': 'identity-dihedral-x', 'int-z': 'identity-interleaved',
                 'int-x': 'identity-dihedral-x'}[name]
        for lst in per_seed:
            for circ in lst:
                check_identity(mon, circ, rng, event, qlist)


def case_big(mon, case):
    """Long sequences and larger registers."""
    rng = np.random.default_rng(case['seed'])
    dihedral = case['group'] == '1'
    pattern = random_pattern(rng, 6, sizes=(2, 3, 4) if dihedral else (2, 3, 4), max_groups=2)
    out = rb.randomized_benchmarking_seq(nseeds=1, length_vector=[1, 8], rb_pattern=pattern,
                                         group_gates=case['group'],
                                         rand_seed=int(rng.integers(1, 1000)))
    groups, _ = groups_of(out, {}, dihedral)
    qlist = [q for p in pattern for q in p]
    for name, per_seed in groups.items():
        for lst in per_seed:
            for circ in lst:
                check_identity(mon, circ, rng,
                               'identity' if name == 'z' else 'identity-dihedral-x', qlist)
