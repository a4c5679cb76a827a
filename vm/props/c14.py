"""C14: counts utilities conserve shots and agree with their definitions."""
import itertools

import numpy as np
from qiskit.ignis.verification.tomography import (marginal_counts, combine_counts,
                                                  expectation_counts, count_keys)
from vm import sim

PROP = 'C14'
LEVEL = 'exploration'
RULE = ('random counts dictionaries (several registers, missing keys, zero entries, 1 to 7 '
        'bits) through each utility; a state is one distinct output')


def cases(rng, tier):
    n = 300 if tier == 'quick' else 5000
    for i in range(n):
        yield 'marginal', {'n': rng.randint(1, 6) if i % 20 else rng.choice([9, 11]), 'space': rng.random() < .5,
                           'pad': rng.random() < .5}
        yield 'combine', {'n': rng.randint(1, 5)}
    for i in range(n // 2):
        yield 'expect', {'n': rng.randint(1, 5) if i % 20 else 7, 'space': rng.random() < .4}
    yield 'keys', {}


def required_events(tier):
    return ['marginal', 'combined', 'expectation', 'keys', 'inputs-unmodified']


def random_counts(rng, n, space=False):
    keys = [sim.bits(i, n) for i in rng.permutation(2 ** n)[:int(rng.integers(1, 2 ** n + 1))]]
    cut = int(rng.integers(1, n)) if space and n > 1 else None
    out = {}
    form = rng.random()
    for k in keys:
        val = int(rng.integers(0, 1000))
        if form < .2:       # counts of a readout filter: fractions and negative numbers
            val = int(rng.integers(-800, 4000)) / 8
        elif form < .3:     # very many shots
            val *= 10 ** 9
        out[k if cut is None else k[:cut] + ' ' + k[cut:]] = val
    return out


def case_marginal(mon, case):
    rng = np.random.default_rng(case['seed'])
    n = case['n']
    counts = random_counts(rng, n, case['space'])
    keep = dict(counts)
    k = int(rng.integers(1, n + 1))
    qubits = [int(q) for q in rng.permutation(n)[:k]]
    arg = True if rng.random() < .2 else (tuple(qubits) if rng.random() < .5 else list(qubits))
    if arg is True:
        qubits = list(range(n))
    got = marginal_counts(counts, arg, pad_zeros=case['pad'])
    order = sorted(qubits, reverse=True)
    want = {}
    for key, v in counts.items():
        bits = key.replace(' ', '')
        sub = ''.join(bits[n - 1 - q] for q in order)
        want[sub] = want.get(sub, 0) + v
    mon.equal({a: b for a, b in got.items() if b}, {a: b for a, b in want.items() if b},
              'marginal', 'marginal counts', qubits=qubits)
    mon.equal(sum(got.values()), sum(counts.values()), 'marginal', 'shots not conserved')
    if case['pad']:
        mon.equal(set(got), {sim.bits(i, len(qubits)) for i in range(2 ** len(qubits))},
                  'marginal', 'pad_zeros does not list every outcome')
    mon.equal(counts, keep, 'inputs-unmodified')
    # marginalising twice is marginalising once
    if arg is not True and len(order) > 1:
        asc = sorted(qubits)
        sub = [int(i) for i in rng.permutation(len(asc))[:int(rng.integers(1, len(asc)))]]
        twice = marginal_counts(marginal_counts(counts, arg, pad_zeros=True), sub, True)
        once = marginal_counts(counts, [asc[i] for i in sub], True)
        mon.equal(twice, once, 'marginal', 'marginals do not compose')


def case_combine(mon, case):
    rng = np.random.default_rng(case['seed'])
    c_1, c_2 = random_counts(rng, case['n']), random_counts(rng, case['n'])
    k_1, k_2 = dict(c_1), dict(c_2)
    got = combine_counts(c_1, c_2)
    want = {k: c_1.get(k, 0) + c_2.get(k, 0) for k in set(c_1) | set(c_2)}
    mon.equal(dict(got), want, 'combined')
    mon.check(c_1 == k_1 and c_2 == k_2, 'inputs-unmodified', 'combine_counts changed its input')
    mon.equal(dict(combine_counts(c_2, c_1)), want, 'combined', 'not commutative')
    got['zz'] = 1
    mon.check('zz' not in c_1 and 'zz' not in c_2, 'inputs-unmodified', 'result aliases an input')


def case_expect(mon, case):
    rng = np.random.default_rng(case['seed'])
    n = case['n']
    counts = random_counts(rng, n, case['space'])
    keep = dict(counts)
    got = expectation_counts(counts)
    want = {}
    for mask in itertools.product('01', repeat=n):
        val = 0
        for key, v in counts.items():
            bits = key.replace(' ', '')
            par = sum(1 for a, b in zip(mask, bits) if a == '1' and b == '1') % 2
            val += -v if par else v
        want[''.join(mask)] = val
    mon.equal({k: float(v) for k, v in got.items()}, {k: float(v) for k, v in want.items()},
              'expectation', 'expectation counts')
    mon.equal(counts, keep, 'inputs-unmodified')


def case_keys(mon, case):
    for n in range(1, 9):
        mon.equal(list(count_keys(n)), [sim.bits(i, n) for i in range(2 ** n)], 'keys')
