"""C24: repetition code circuits and the processing of their results."""
import copy

import numpy as np
from qiskit.ignis.verification.topological_codes import RepetitionCode
from vm import reptools as rt

PROP = 'C24'
LEVEL = 'exploration'
RULE = ('codes of 2-9 qubits and 0-6 rounds built by the constructor or step by step (with logical '
        'x, barriers, extra rounds), executed bit by bit with random bit flips anywhere, and random '
        'outcome strings; a state is one distinct processed string')


def cases(rng, tier):
    n = 120 if tier == 'quick' else 4000
    for _ in range(n):
        yield 'code', {'d': rng.choice([2, 3, 3, 4, 5, 6, 7, 9, 12]), 'T': rng.choice([1, 1, 2, 3, 4, 6, 11]),
                       'manual': rng.random() < .4}
    for _ in range(n // 2):
        yield 'strings', {'d': rng.choice([2, 3, 4, 5, 8, 13]), 'T': rng.choice([0, 1, 2, 3, 5, 12])}
    for d in (2, 3, 5):
        yield 'faults', {'d': d, 'T': rng.choice([1, 2, 3])}
    for _ in range(8):
        yield 'plain', {'d': rng.choice([2, 3, 4, 6])}


def required_events(tier):
    return ['circuits', 'noiseless', 'syndrome', 'processed', 'counts-conserved',
            'input-unmodified', 'single-fault', 'no-measurement', 'logical-x', 'rounds']


def build(rng, d, T, manual, mon):
    logical = {'0': 0, '1': 1}
    if not manual:
        code = RepetitionCode(d, T)
    else:
        code = RepetitionCode(d, 0)
        last = T - 1
        for t in range(T):
            if rng.random() < .3:
                logs = [('0', '1'), ['0'], ['1'], ()][int(rng.integers(4))]
                if t == 0:
                    code.x(logs, barrier=bool(rng.integers(2)))
                    for log in logs:
                        logical[log] ^= 1
                    mon.saw('logical-x')
                else:
                    code.x(('0', '1'), barrier=bool(rng.integers(2)))
                    logical = {k: v ^ 1 for k, v in logical.items()}
            code.syndrome_measurement(reset=t != last or bool(rng.integers(2)),
                                      barrier=bool(rng.integers(2)))
            mon.equal(code.T, t + 1, 'rounds', 'number of rounds')
        code.readout()
    return code, logical


def registers(mon, code, circ, d, T):
    mon.equal([r.size for r in circ.cregs], [d - 1] * T + [d], 'circuits', 'classical registers')
    mon.equal(circ.num_qubits, 2 * d - 1, 'circuits', 'number of qubits')


def bits_of(circ, c):
    regs = [[c[reg[i]] for i in range(reg.size)] for reg in circ.cregs]
    return regs[-1], regs[:-1]


def case_code(mon, case):
    rng = np.random.default_rng(case['seed'])
    d, T = case['d'], case['T']
    code, logical = build(rng, d, T, case['manual'], mon)
    lst = code.get_circuit_list()
    mon.equal([c.name for c in lst], ['0', '1'], 'circuits', 'circuit names')
    mon.check(len(lst) == 2 and lst[0] is code.circuit['0'] and lst[1] is code.circuit['1'],
              'circuits', 'circuit list')
    mon.equal(code.T, T, 'rounds', 'number of rounds')
    mon.equal(code.d, d, 'rounds', 'distance')
    raw = {}
    want = {}
    for log in ('0', '1'):
        circ = code.circuit[log]
        registers(mon, code, circ, d, T)
        code_bits, rounds = bits_of(circ, rt.run(circ))
        mon.equal(code_bits, [logical[log]] * d, 'noiseless', 'encoded value is not read out')
        mon.equal(rounds, [[0] * (d - 1)] * T, 'noiseless', 'syndrome without errors')
        pos = rt.positions(circ)
        raw[log] = {}
        want[log] = {}
        for _ in range(12):
            k = int(rng.integers(0, 7))
            faults = [pos[int(i)] for i in rng.integers(len(pos), size=k)]
            c = rt.run(circ, faults)
            key = rt.raw_string(circ, c)
            n = int(rng.integers(1, 500))
            raw[log][key] = raw[log].get(key, 0) + n
            code_bits, rounds = bits_of(circ, c)
            new = rt.processed(code_bits, rounds)
            want[log][new] = want[log].get(new, 0) + n
        # a flip of one code qubit before everything shows in its neighbouring links only
        j = int(rng.integers(d))
        first = min(i for i, (inst, _, _) in enumerate(circ.data) if inst.name == 'cx')
        c = rt.run(circ, [(first, code.code_qubit[j])])
        code_bits, rounds = bits_of(circ, c)
        mon.equal(code_bits, [logical[log] ^ (i == j) for i in range(d)], 'syndrome',
                  'code readout after one flip')
        for rnd in rounds:
            mon.equal(rnd, [int(i in (j - 1, j)) for i in range(d - 1)], 'syndrome',
                      'link readout after one flip')
        # a flip before a later round shows from that round on
        start = int(rng.integers(T))
        cxs = [i for i, (inst, _, _) in enumerate(circ.data) if inst.name == 'cx']
        if len(cxs) == 2 * (d - 1) * T:
            c = rt.run(circ, [(cxs[2 * (d - 1) * start], code.code_qubit[j])])
            code_bits, rounds = bits_of(circ, c)
            mon.equal(rounds, [[int(t >= start and i in (j - 1, j)) for i in range(d - 1)] for t in range(T)],
                      'syndrome', 'link readout after a flip before round %d' % start)
    verify(mon, code, raw, want)


def verify(mon, code, raw, want):
    before = copy.deepcopy(raw)
    got = code.process_results(raw)
    mon.equal(raw, before, 'input-unmodified', 'raw results changed')
    mon.equal({k: dict(v) for k, v in got.items()}, want, 'processed', 'processed results')
    for log in raw:
        mon.equal(sum(got.get(log, {}).values()), sum(raw[log].values()), 'counts-conserved',
                  'shots lost')


def case_strings(mon, case):
    rng = np.random.default_rng(case['seed'])
    d, T = case['d'], case['T']
    code = RepetitionCode(d, T)
    if T == 0:
        code.readout()
        for log, circ in code.circuit.items():
            mon.equal(bits_of(circ, rt.run(circ)), ([int(log)] * d, []), 'noiseless',
                      'readout without rounds')
    raw, want = {}, {}
    logs = [['0', '1'], ['1', '0'], ['0'], ['1'], []][int(rng.integers(5))]
    for log in logs:
        raw[log], want[log] = {}, {}
        for _ in range(int(rng.integers(0, 40))):
            code_bits = [int(b) for b in rng.integers(2, size=d)]
            rounds = [[int(b) for b in rng.integers(2, size=d - 1)] for _ in range(T)]
            key = ' '.join(''.join(map(str, r[::-1])) for r in [code_bits] + rounds[::-1])
            n = int(rng.integers(1, 1000))
            raw[log][key] = n
            want[log][rt.processed(code_bits, rounds)] = n
    verify(mon, code, raw, want)


def case_faults(mon, case):
    """Every single fault of the circuits lights none or two nodes of the syndrome."""
    d, T = case['d'], case['T']
    code = RepetitionCode(d, T)
    for log in ('0', '1'):
        circ = code.circuit[log]
        clean = rt.nodes(list(code.process_results(
            {log: {rt.raw_string(circ, rt.run(circ)): 1}})[log])[0])
        for fault in rt.positions(circ):
            # faults before the preparation of the same qubit are faults of the input
            key = rt.raw_string(circ, rt.run(circ, [fault]))
            new = list(code.process_results({log: {key: 1}})[log])[0]
            light = set(rt.nodes(new)) ^ set(clean)
            mon.check(len(light) in (0, 2), 'single-fault', 'one fault lights %d nodes' % len(light),
                      state=(d, T, new))
            cols = sorted(-1 if n == (0, 0, 0) else d - 1 if n == (0, 1, 0) else n[2]
                          for n in light)
            mon.check(not cols or cols[1] - cols[0] <= 1, 'single-fault',
                      'one fault crosses more than one column', nodes=light)


def case_plain(mon, case):
    d = case['d']
    for code in (RepetitionCode(d), RepetitionCode(d, 0), RepetitionCode(d=d, T=0)):
        mon.equal(code.T, 0, 'no-measurement', 'rounds without request')
        for log in ('0', '1'):
            circ = code.circuit[log]
            names = circ.count_ops()
            mon.check('measure' not in names, 'no-measurement', 'measured without rounds')
            q = {b: 0 for b in circ.qubits}
            for inst, qs, _ in circ.data:
                if inst.name == 'x':
                    q[qs[0]] ^= 1
            mon.equal([q[b] for b in code.code_qubit], [int(log)] * d, 'no-measurement',
                      'prepared value')
            mon.equal([q[b] for b in code.link_qubit], [0] * (d - 1), 'no-measurement',
                      'link qubits')
