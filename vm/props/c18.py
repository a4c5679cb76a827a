"""C18: CNOT-dihedral elements and circuits convert into each other faithfully."""
import itertools

import numpy as np
from qiskit import QuantumCircuit
from qiskit.circuit.library import (U1Gate, XGate, YGate, ZGate, IGate, CXGate, CZGate)
from qiskit.exceptions import QiskitError
from qiskit.ignis.verification.randomized_benchmarking import CNOTDihedral
from qiskit.ignis.verification.randomized_benchmarking.dihedral import (
    append_circuit, make_dict_0, make_dict_next)
from vm import sim
from vm.rbtools import (element_matrix, same_up_to_phase, random_dihedral_circuit, embed)

PROP = 'C18'
LEVEL = 'exploration'
RULE = ('all 16 one-qubit and all 6144 two-qubit elements (every '
        'element) plus random 3-6 qubit elements and '
        'circuits; a state is one distinct element')

LIN2 = [((1, 0), (0, 1)), ((1, 0), (1, 1)), ((1, 1), (0, 1)), ((0, 1), (1, 1)), ((1, 1), (1, 0)),
        ((0, 1), (1, 0))]


def cases(rng, tier):
    yield 'one', {}
    for lin in range(6):
        for shift in range(4):
            for w_2 in range(4):
                yield 'two', {'lin': lin, 'shift': shift, 'w2': w_2,
                              'every': 1}
    n = 40 if tier == 'quick' else 1500
    for _ in range(n):
        yield 'general', {'n': rng.choice([3, 3, 4, 4, 5, 6])}
        yield 'circuit', {'n': rng.choice([1, 2, 3, 4, 5, 6, 7])}
        yield 'append', {'n': rng.choice([2, 3, 4, 5, 6])}
    yield 'invalid', {}
    yield 'dicts', {}
    yield 'gates', {}


def required_events(tier):
    return ['round-trip', 'circuit-unitary', 'from-circuit', 'append', 'from-gate', 'rejected',
            'angle-rounding', 'enumeration', 'gate-set', 'two-qubit-class']


def build(n, w_1, w_2, w_3, lin, shift):
    e = CNOTDihedral(n)
    for i in range(n):
        e.poly.set_term([i], int(w_1[i]))
    for t, v in zip(itertools.combinations(range(n), 2), w_2):
        e.poly.set_term(list(t), int(v))
    for t, v in zip(itertools.combinations(range(n), 3), w_3):
        e.poly.set_term(list(t), int(v))
    e.linear = np.array(lin, dtype=np.int8)
    e.shift = np.array(shift, dtype=np.int8)
    return e


def check_elem(mon, e, event='round-trip', unitary=True):
    key = e.key
    circ = e.to_circuit()
    mon.equal(e.key, key, event, 'to_circuit changed the element')
    names = {i.name for i, _, _ in circ.data}
    mon.check(names <= {'x', 'u1', 'cx', 'cz', 'id'}, 'gate-set',
              'circuit uses other gates', got=names)
    mon.equal(circ.num_qubits, e.num_qubits, event)
    if unitary:
        mon.check(same_up_to_phase(sim.unitary(circ), element_matrix(e)), 'circuit-unitary',
                  'circuit implements another operator', state=key, element=key)
    back = CNOTDihedral(circ)
    mon.check(back == e, event, 'circuit does not read back as the element', element=key,
              got=back.key)


def case_one(mon, case):
    for t in range(8):
        for x in range(2):
            check_elem(mon, build(1, [t], [], [], [[1]], [x]))


def case_two(mon, case):
    rng = np.random.default_rng(case['seed'])
    lin = LIN2[case['lin']]
    shift = [case['shift'] & 1, case['shift'] >> 1]
    mon.saw('two-qubit-class', [case['lin'], case['shift'], case['w2']])
    pairs = list(itertools.product(range(8), repeat=2))
    if not case['every']:
        pairs = [pairs[i] for i in rng.permutation(64)[:8]]
    for w_1 in pairs:
        check_elem(mon, build(2, w_1, [2 * case['w2']], [], lin, shift))


def random_elem(rng, n):
    while True:
        lin = rng.integers(0, 2, (n, n))
        if round(np.linalg.det(lin)) % 2:
            break
    return build(n, rng.integers(0, 8, n), 2 * rng.integers(0, 4, n * (n - 1) // 2),
                 4 * rng.integers(0, 2, n * (n - 1) * (n - 2) // 6), lin, rng.integers(0, 2, n))


def case_general(mon, case):
    rng = np.random.default_rng(case['seed'])
    check_elem(mon, random_elem(rng, case['n']), unitary=case['n'] <= 5)


def case_circuit(mon, case):
    rng = np.random.default_rng(case['seed'])
    circ = random_dihedral_circuit(rng, case['n'])
    mat = sim.unitary(circ)
    e = CNOTDihedral(circ)
    mon.check(same_up_to_phase(element_matrix(e), mat), 'from-circuit',
              'element differs from the circuit', state=e.key)
    mon.check(e.is_cnotdihedral(), 'from-circuit')
    e_2 = CNOTDihedral(circ.to_instruction())
    mon.check(e_2 == e, 'from-circuit', 'from an instruction')
    check_elem(mon, e, unitary=case['n'] <= 4)
    # angles carry rounding noise of the circuit arithmetic
    k = int(rng.integers(-16, 17))
    noisy = QuantumCircuit(1)
    noisy.append(U1Gate(k * np.pi / 4 * (1 + rng.uniform(-1, 1) * 1e-14)), [0])
    ref = QuantumCircuit(1)
    for _ in range(k % 8):
        ref.append(U1Gate(np.pi / 4), [0])
    mon.check(same_up_to_phase(element_matrix(CNOTDihedral(noisy)), sim.unitary(ref)),
              'angle-rounding', 'multiple of pi/4 misread', k=k)


def case_gates(mon, case):
    for gate in ([XGate(), YGate(), ZGate(), IGate(), CXGate(), CZGate()]
                 + [U1Gate(k * np.pi / 4) for k in range(-8, 9)]):
        e = CNOTDihedral(gate)
        mon.check(same_up_to_phase(element_matrix(e), sim.gate_matrix(gate)), 'from-gate',
                  'element differs from the gate', gate=gate.name, state=e.key)
        for qs in itertools.permutations(range(3), gate.num_qubits):
            f = CNOTDihedral(3)
            append_circuit(f, gate, list(qs))
            mon.check(same_up_to_phase(element_matrix(f),
                                       embed(sim.gate_matrix(gate), list(qs), 3)), 'from-gate',
                      'gate applied to other qubits', gate=gate.name, qubits=qs)


def case_append(mon, case):
    rng = np.random.default_rng(case['seed'])
    n = case['n']
    e = random_elem(rng, n)
    before = element_matrix(e)
    k = int(rng.integers(1, n + 1))
    qargs = [int(q) for q in rng.permutation(n)[:k]]
    circ = random_dihedral_circuit(rng, k)
    out = append_circuit(e, circ, qargs)
    want = embed(sim.unitary(circ), qargs, n) @ before
    mon.check(same_up_to_phase(element_matrix(out), want), 'append',
              'appended circuit acts on other qubits or differently', state=out.key, qargs=qargs)
    mon.check(out is e, 'append', 'append_circuit is in place')


def case_invalid(mon, case):
    for name in ('h', 'sx', 'ch', 'ccx', 'rx', 'u1'):
        circ = QuantumCircuit(3)
        if name == 'ch':
            circ.ch(0, 1)
        elif name == 'ccx':
            circ.ccx(0, 1, 2)
        elif name == 'rx':
            circ.rx(0.3, 0)
        elif name == 'u1':
            circ.append(U1Gate(0.3), [1])
        else:
            getattr(circ, name)(0)
        mon.raises((QiskitError,), lambda c=circ: CNOTDihedral(c), 'rejected',
                   'gate outside the group accepted: ' + name)
    rng = np.random.default_rng(case['seed'])
    for _ in range(12):
        # close to an angle of the group, but not one
        circ = QuantumCircuit(2)
        off = float(rng.choice([-1, 1]) * rng.choice([1e-3, .01, .1, .5, .9]))
        ang = (int(rng.integers(-8, 9)) + off) * np.pi / 4
        circ.append(U1Gate(ang), [int(rng.integers(2))])
        mon.raises((QiskitError,), lambda c=circ: CNOTDihedral(c), 'rejected', 'u1(%f) accepted' % ang)
    circ = QuantumCircuit(1, 1)
    circ.measure(0, 0)
    mon.raises((QiskitError,), lambda: CNOTDihedral(circ), 'rejected', 'measurement accepted')


def case_dicts(mon, case):
    """Enumeration by CNOT count: 0-CNOT elements, then disjoint layers."""
    for n in (1, 2):
        d_0 = make_dict_0(n)
        mon.equal(len(d_0), 16 ** n, 'enumeration')
        layers = [d_0]
        for e, gates in list(d_0.values())[:64]:
            mon.check(same_up_to_phase(element_matrix(e), word(gates, n)), 'enumeration',
                      'gate list does not give the element', state=e.key)
        if n == 2:
            sizes = cnot_layers()
            for _ in range(len(sizes) - 1):
                nxt = make_dict_next(n, layers)
                mon.equal(len(nxt), sizes[len(layers)], 'enumeration',
                          'number of elements needing %d CNOT gates' % len(layers))
                mon.check(not any(set(nxt) & set(d) for d in layers), 'enumeration',
                          'layers overlap')
                for key, (e, gates) in list(nxt.items())[::37]:
                    mon.equal(e.key, key, 'enumeration')
                    mon.check(same_up_to_phase(element_matrix(e), word(gates, n)), 'enumeration',
                              'gate list does not give the element', state=e.key)
                    mon.equal(sum(1 for g in gates if g[0] == 'cx'), len(layers), 'enumeration',
                              'number of CNOT gates')
                layers.append(nxt)


def cnot_layers():
    """Sizes of the sets of two-qubit elements by minimal CNOT count (breadth-first search)."""
    def close(start):
        out, todo = set(start), list(start)
        while todo:
            perm, ph = todo.pop()
            new = []
            for q in (0, 1):
                new.append((tuple(y ^ (1 << q) for y in perm), ph))
                ph_2 = [(p + (y >> q & 1)) % 8 for p, y in zip(ph, perm)]
                new.append((perm, tuple((p - ph_2[0]) % 8 for p in ph_2)))
            for e in new:
                if e not in out:
                    out.add(e)
                    todo.append(e)
        return out
    layers = [close({((0, 1, 2, 3), (0, 0, 0, 0))})]
    seen = set(layers[0])
    while layers[-1]:
        nxt = set()
        for perm, ph in layers[-1]:
            for c in (0, 1):
                nxt.add((tuple(y ^ ((y >> c & 1) << (1 - c)) for y in perm), ph))
        nxt = close(nxt) - seen
        seen |= nxt
        layers.append(nxt)
    return [len(x) for x in layers]


def word(gates, n):
    circ = QuantumCircuit(n)
    for g in gates:
        if g[0] == 'u1':
            circ.append(U1Gate(g[1] * np.pi / 4), [g[2]])
        elif g[0] == 'x':
            circ.x(g[1])
        else:
            circ.cx(g[1], g[2])
    return sim.unitary(circ)
