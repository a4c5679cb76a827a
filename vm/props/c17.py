"""C17: CNOT-dihedral elements are the matrices they denote."""
import copy
import itertools

import numpy as np
from numpy.random import RandomState
from qiskit.exceptions import QiskitError
from qiskit.quantum_info import Operator, Pauli, ScalarOp
from qiskit.ignis.verification.randomized_benchmarking import CNOTDihedral
from qiskit.ignis.verification.randomized_benchmarking.dihedral import (
    SpecialPolynomial, random_cnotdihedral)

from vm.rbtools import element_matrix, same_up_to_phase, embed, poly_at

PROP = 'C17'
LEVEL = 'exploration'
RULE = ('random elements of 1-5 qubits (and 9-10 qubits symbolically) through every group '
        'operation, each compared with the matrix |x> -> w^p(x)|f(x)>; a state is one distinct '
        'element')


def cases(rng, tier):
    n = 45 if tier == 'quick' else 1500
    for _ in range(n):
        for k in (1, 2, 3):
            yield 'ops', {'n': k}
        yield 'mutate', {'n': rng.randint(1, 5)}
        yield 'tensor', {'n': rng.randint(1, 3), 'm': rng.randint(1, 2)}
        yield 'poly', {'n': rng.randint(1, 5)}
    for _ in range(max(4, n // 12)):
        yield 'ops', {'n': 4}
        if tier != 'quick':
            yield 'ops', {'n': 5}
            yield 'wide', {'n': rng.choice([9, 10])}
        yield 'init', {'n': rng.randint(1, 4)}
        yield 'init', {'n': rng.randint(1, 2)}
    for _ in range(n // 3):
        yield 'init', {'n': rng.randint(1, 4)}
    for k in (1, 2, 3):
        yield 'uniform', {'n': k}
    for _ in range(3):
        yield 'wide', {'n': 9}
    for _ in range(max(10, n // 3)):
        yield 'span', {'n': rng.randint(4, 12), 'm': rng.randint(1, 7)}
    for k in (5, 6, 7):
        yield 'wide', {'n': k}
    for _ in range(6):
        yield 'invalid', {}


def required_events(tier):
    return ['matrix', 'compose', 'dot', 'mul', 'adjoint', 'conjugate', 'transpose', 'equality',
            'gate-update', 'tensor', 'poly-evaluate', 'poly-algebra', 'wide', 'init', 'valid',
            'uniform', 'span', 'operands-unmodified', 'rejected', 'copy']


def snap(e):
    return (e.num_qubits, np.array(e.linear).tolist(), list(map(int, e.shift)),
            [int(e.poly.weight_0)] + [list(map(int, w)) for w in
                                      (e.poly.weight_1, e.poly.weight_2, e.poly.weight_3)])


def case_ops(mon, case):
    rng = np.random.default_rng(case['seed'])
    n = case['n']
    a, b, c = [random_cnotdihedral(n, seed=int(rng.integers(2 ** 31))) for _ in range(3)]
    before = [snap(e) for e in (a, b, c)]
    ma, mb, mc = [element_matrix(e) for e in (a, b, c)]
    mon.check(same_up_to_phase(a.to_matrix(), ma), 'matrix', 'to_matrix', state=before[0])
    mon.check(same_up_to_phase(np.asarray(a.to_operator().data), ma), 'matrix', 'to_operator')
    mon.check(same_up_to_phase(Operator(a.to_instruction()).data, ma), 'matrix', 'to_instruction')
    ab = a.compose(b)
    mon.check(same_up_to_phase(element_matrix(ab), mb @ ma), 'compose',
              'a.compose(b) is not b*a')
    mon.check(same_up_to_phase(element_matrix(a.compose(b, front=True)), ma @ mb), 'compose',
              'front=True is not a*b')
    mon.check(same_up_to_phase(element_matrix(a.dot(b)), ma @ mb), 'dot')
    mon.check(same_up_to_phase(element_matrix(a * b), ma @ mb), 'mul')
    mon.check(same_up_to_phase(element_matrix(a @ b), mb @ ma), 'compose', '@ operator')
    mon.check(same_up_to_phase(element_matrix(a.__rmul__(b)), mb @ ma), 'mul', 'other * self')
    for e, what in ((ab, 'compose'), (a.dot(b), 'dot'), (a.adjoint(), 'adjoint')):
        mon.check(e.is_cnotdihedral(), 'valid', what + ' result is not a valid element')
        mon.equal(e.num_qubits, n, 'valid')
    adj = a.adjoint()
    mon.check(same_up_to_phase(element_matrix(adj), ma.conj().T), 'adjoint')
    mon.check(same_up_to_phase(element_matrix(a.conjugate()), ma.conj()), 'conjugate')
    mon.check(same_up_to_phase(element_matrix(a.transpose()), ma.T), 'transpose')
    one = CNOTDihedral(n)
    mon.check(a.compose(adj) == one and adj.compose(a) == one, 'adjoint', 'a*adj(a) is not 1')
    mon.check(a.compose(one) == a and one.compose(a) == a, 'equality', 'identity element')
    mon.check(ab.compose(c) == a.compose(b.compose(c)), 'equality', 'not associative')
    mon.check((a == b) == same_up_to_phase(ma, mb) and a == a.copy(), 'equality',
              'equality disagrees with the matrices')
    mon.check(copy.deepcopy(a) == a, 'equality')
    mon.equal([snap(e) for e in (a, b, c)], before, 'operands-unmodified',
              'an operation changed its operands')
    cpy = a.copy()
    cpy.flip(0)
    cpy.phase(1, 0)
    if n > 1:
        cpy.cnot(0, 1)
    mon.equal(snap(a), before[0], 'copy', 'copy shares state with the original')


GATES = {'x': np.array([[0, 1], [1, 0]]), 't': np.diag([1, np.exp(1j * np.pi / 4)])}
CX = np.array([[1, 0, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0], [0, 1, 0, 0]])


def case_mutate(mon, case):
    """Sequences of cnot/phase/flip left-multiply the element."""
    rng = np.random.default_rng(case['seed'])
    n = case['n']
    e = CNOTDihedral(n) if rng.random() < .5 else \
        random_cnotdihedral(n, seed=int(rng.integers(2 ** 31)))
    mat = element_matrix(e)
    for _ in range(int(rng.integers(3, 14))):
        g = int(rng.integers(3))
        if g == 0 and n > 1:
            i, j = [int(x) for x in rng.choice(n, 2, replace=False)]
            e.cnot(i, j)
            mat = embed(CX, [i, j], n) @ mat
        elif g == 1:
            k, i = int(rng.integers(-9, 20)), int(rng.integers(n))
            e.phase(k, i)
            mat = embed(np.linalg.matrix_power(GATES['t'], k), [i], n) @ mat
        else:
            i = int(rng.integers(n))
            e.flip(i)
            mat = embed(GATES['x'], [i], n) @ mat
        mon.check(same_up_to_phase(element_matrix(e), mat), 'gate-update',
                  'element differs from the gates applied', state=snap(e))
    mon.check(e.is_cnotdihedral(), 'valid', 'gates left the group')
    mon.check(same_up_to_phase(e.to_matrix(), mat), 'matrix')


def case_tensor(mon, case):
    rng = np.random.default_rng(case['seed'])
    a = random_cnotdihedral(case['n'], seed=int(rng.integers(2 ** 31)))
    b = random_cnotdihedral(case['m'], seed=int(rng.integers(2 ** 31)))
    s = snap(a), snap(b)
    ma, mb = element_matrix(a), element_matrix(b)
    t, x = a.tensor(b), a.expand(b)
    # both factors act independently on disjoint consecutive qubits, the two methods being
    # each other's mirror image
    mon.check(same_up_to_phase(element_matrix(t), np.kron(mb, ma)), 'tensor',
              'tensor', state=snap(t))
    mon.check(same_up_to_phase(element_matrix(x), np.kron(ma, mb)), 'tensor', 'expand')
    mon.check(t.is_cnotdihedral() and x.is_cnotdihedral(), 'valid')
    mon.check(same_up_to_phase(t.to_matrix(), element_matrix(t)), 'matrix')
    mon.equal((snap(a), snap(b)), s, 'operands-unmodified')
    t.flip(0)
    t.phase(3, t.num_qubits - 1)
    mon.equal((snap(a), snap(b)), s, 'operands-unmodified', 'tensor product shares state')


def random_poly(rng, n, special=False):
    p = SpecialPolynomial(n)
    for r in range(0, 4):
        for t in itertools.combinations(range(n), r):
            if rng.random() < .5:
                p.set_term(list(t), int(rng.integers(0, 8)) * (2 ** max(0, r - 1) if special
                                                               else 1))
    return p


def case_poly(mon, case):
    rng = np.random.default_rng(case['seed'])
    n = case['n']
    p, q = random_poly(rng, n), random_poly(rng, n)
    # terms read back as written
    ref = {}
    for r in range(0, 4):
        for t in itertools.combinations(range(n), r):
            v = int(rng.integers(0, 20))
            ref[t] = v % 8
            p.set_term(list(t), v)
    mon.check(all(int(p.get_term(list(t))) == v for t, v in ref.items()), 'poly-algebra',
              'terms do not read back', state=ref)
    for x in itertools.product([0, 1], repeat=n):
        want = sum(v for t, v in ref.items() if all(x[i] for i in t)) % 8
        mon.check(int(p.evaluate(list(x))) == want, 'poly-evaluate', 'value at a point',
                  x=x, got=p.evaluate(list(x)), want=want)
    s = p + q
    k = int(rng.integers(0, 8))
    m = p * k
    for x in itertools.product([0, 1], repeat=n):
        mon.check(poly_at(s, x) == (poly_at(p, x) + poly_at(q, x)) % 8, 'poly-algebra', 'sum')
        mon.check(poly_at(m, x) == (k * poly_at(p, x)) % 8, 'poly-algebra', 'scalar multiple')
    # products whose degree stays within 3
    deg = int(rng.integers(0, 4))
    idx = sorted(int(i) for i in rng.permutation(n)[:min(deg, n)])
    low = SpecialPolynomial(n)
    for t in [()] + [(i,) for i in range(n)]:
        if len(set(t) | set(idx)) <= 3:
            low.set_term(list(t), int(rng.integers(0, 8)))
    prod = low.mul_monomial(idx)
    mono = SpecialPolynomial(n)
    mono.set_term(idx, 1)
    for x in itertools.product([0, 1], repeat=n):
        want = poly_at(low, x) * int(all(x[i] for i in idx)) % 8
        mon.check(poly_at(prod, x) == want, 'poly-algebra', 'product with a monomial', idx=idx)
        mon.check(poly_at(low * mono, x) == want, 'poly-algebra', 'product of polynomials')
    mon.check((p == q) == all(poly_at(p, x) == poly_at(q, x)
                              for x in itertools.product([0, 1], repeat=n)) or n > 3,
              'poly-algebra', 'equality')
    # p_J is the parity of the variables in J
    idx = [int(i) for i in rng.permutation(n)[:int(rng.integers(1, n + 1))]]
    if len(idx) <= 3:
        pj = SpecialPolynomial(n)
        pj.set_pj(idx)
        for x in itertools.product([0, 1], repeat=n):
            mon.check(poly_at(pj, x) == sum(x[i] for i in idx) % 2, 'poly-algebra', 'parity form')


def act(e, x):
    lin = np.array(e.linear, dtype=int)
    y = (lin @ x + np.array(e.shift, dtype=int)) % 2
    return poly_at(e.poly, x), y


def case_wide(mon, case):
    """Larger registers, checked on sampled basis states."""
    rng = np.random.default_rng(case['seed'])
    n = case['n']
    a, b = [random_cnotdihedral(n, seed=int(rng.integers(2 ** 31))) for _ in range(2)]
    ab = a.compose(b)
    off = None
    for _ in range(12):
        x = rng.integers(0, 2, n)
        p1, y1 = act(a, x)
        p2, y2 = act(b, y1)
        p, y = act(ab, x)
        d = (p - p1 - p2) % 8
        off = d if off is None else off
        mon.check(bool((y == y2).all()) and d == off, 'wide', 'composition of wide elements',
                  state=[x.tolist(), p])
    back = CNOTDihedral(a.to_circuit())
    mon.check(back == a, 'wide', 'circuit round trip')


def case_span(mon, case):
    """Gates, adjoint, circuits and tensor products of many qubits on sampled basis states."""
    rng = np.random.default_rng(case['seed'])
    n, m = case['n'], case['m']
    a, b = [random_cnotdihedral(k, seed=int(rng.integers(2 ** 31))) for k in (n, m)]
    s_a, s_b = snap(a), snap(b)
    adj, ten, exp = a.adjoint(), a.tensor(b), a.expand(b)
    con, tra = (a.conjugate(), a.transpose()) if n < 10 else (None, None)
    moved = a.copy()
    gates = []
    for _ in range(10):
        g, i, j = int(rng.integers(3)), *[int(v) for v in rng.choice(n, 2, replace=False)]
        k = int(rng.integers(-8, 17))
        gates.append((g, i, j, k))
        if g == 0:
            moved.cnot(i, j)
        elif g == 1:
            moved.phase(k, i)
        else:
            moved.flip(i)
    offs = {}
    for _ in range(10):
        x, z = rng.integers(0, 2, n), rng.integers(0, 2, m)
        p, y = act(a, x)
        q, w = act(b, z)
        back, x_2 = act(adj, y)
        mon.check(bool((x_2 == x).all()), 'span', 'adjoint does not undo the element', state=[n])
        p_t, y_t = act(ten, np.concatenate([x, z]))
        p_e, y_e = act(exp, np.concatenate([z, x]))
        mon.check(bool((y_t == np.concatenate([y, w])).all() and (y_e == np.concatenate([w, y])).all()),
                  'span', 'tensor product of many qubits', state=[n, m])
        cur, ph = y.copy(), p
        for g, i, j, k in gates:
            if g == 0:
                cur[j] ^= cur[i]
            elif g == 1:
                ph += k * int(cur[i])
            else:
                cur[i] ^= 1
        p_m, y_m = act(moved, x)
        mon.check(bool((y_m == cur).all()), 'span', 'gates on many qubits', state=[n, gates])
        phases = [('adjoint', p + back), ('tensor', p_t - p - q), ('expand', p_e - p - q),
                  ('gates', p_m - ph)]
        if con is not None:
            p_c, y_c = act(con, x)
            p_u, x_u = act(tra, y)
            mon.check(bool((y_c == y).all() and (x_u == x).all()), 'span', 'conjugate or transpose of many qubits',
                      state=[n])
            phases += [('conjugate', p_c + p), ('transpose', p_u - p)]
        for name, d in phases:
            mon.check(offs.setdefault(name, d % 8) == d % 8, 'span', 'phases of ' + name, state=[n, d % 8])
    mon.check(CNOTDihedral(a.to_circuit()) == a, 'span', 'circuit round trip')
    mon.check(CNOTDihedral(a.to_instruction()) == a, 'span', 'instruction round trip')
    mon.equal((snap(a), snap(b)), (s_a, s_b), 'operands-unmodified')


def case_init(mon, case):
    rng = np.random.default_rng(case['seed'])
    n = case['n']
    e = random_cnotdihedral(n, seed=int(rng.integers(2 ** 31)))
    mon.check(CNOTDihedral(e) == e, 'init', 'from an element')
    # an element made from another one is its own
    keep = e.key
    for twin in (CNOTDihedral(e), e.copy()):
        twin.flip(int(rng.integers(n)))
        twin.phase(int(rng.integers(1, 8)), int(rng.integers(n)))
        if n > 1:
            twin.cnot(*[int(x) for x in rng.permutation(n)[:2]])
        mon.equal(e.key, keep, 'init', 'in-place operation on a copy changed the original')
    # elements that differ in one place only
    m = n if rng.random() < .6 else int(rng.integers(5, 9))
    f = e if m == n else random_cnotdihedral(m, seed=int(rng.integers(2 ** 31)))
    for what in ('flip', 'phase', 'cnot'):
        if what == 'cnot' and m == 1:
            continue
        g = f.copy()
        q = [int(x) for x in rng.permutation(m)[:2]]
        if what == 'flip':
            g.flip(q[0])
        elif what == 'phase':
            g.phase(int(rng.integers(1, 8)), q[0])
        else:
            g.cnot(*q)
        mon.check(not g == f and g != f, 'init', 'different elements compare equal', what=what, m=m)
    mon.check(CNOTDihedral(ScalarOp(2 ** n)) == CNOTDihedral(n), 'init', 'from a scalar')
    label = ''.join(rng.choice(list('IXYZ'), n))
    mon.check(same_up_to_phase(element_matrix(CNOTDihedral(Pauli(label))),
                               Pauli(label).to_matrix()), 'init', 'from a Pauli', label=label)
    mon.close(element_matrix(CNOTDihedral(n)), np.eye(2 ** n), 'init', 'identity')
    mon.check(random_cnotdihedral(n, seed=5) == random_cnotdihedral(n, seed=5), 'init',
              'seeded random element is not reproducible')
    r_1, r_2 = RandomState(3), RandomState(3)
    mon.check([random_cnotdihedral(n, seed=r_1).key for _ in range(4)]
              == [random_cnotdihedral(n, seed=r_2).key for _ in range(4)], 'init',
              'random element from a RandomState')


def case_uniform(mon, case):
    """Random elements are valid and uniformly distributed over the group."""
    rng = np.random.default_rng(case['seed'])
    n = case['n']
    state = RandomState(int(rng.integers(2 ** 31)))
    total = 3000
    stats = {}

    def count(name, val):
        stats.setdefault(name, {}).setdefault(val, 0)
        stats[name][val] += 1
    for i in range(total):
        e = random_cnotdihedral(n, seed=state)
        mon.check(bool(e.is_cnotdihedral()), 'valid', state=snap(e) if i < 200 else None)
        for q in range(n):
            count(('t', q), int(e.poly.weight_1[q]))
            count(('x', q), int(e.shift[q]))
        for q, w in enumerate(e.poly.weight_2):
            count(('cs', q), int(w))
        for q, w in enumerate(e.poly.weight_3):
            count(('ccz', q), int(w))
        if n <= 3:
            count(('lin',), tuple(np.array(e.linear).reshape(-1).tolist()))
    sizes = {'t': 8, 'x': 2, 'cs': 4, 'ccz': 2, 'lin': {1: 1, 2: 6, 3: 168}[n]}
    for name, hist in stats.items():
        k = sizes[name[0]]
        exp = total / k
        chi = sum((v - exp) ** 2 / exp for v in hist.values()) + exp * (k - len(hist))
        bound = (k - 1) + 8 * np.sqrt(2 * (k - 1)) + 40
        mon.check(len(hist) <= k and chi < bound, 'uniform', 'not uniform over the group',
                  what=name, chi=chi, bound=bound)


def case_invalid(mon, case):
    rng = np.random.default_rng(case['seed'])
    e = CNOTDihedral(3)
    bad = (QiskitError,)
    mon.raises(bad, lambda: e.cnot(0, 3), 'rejected')
    mon.raises(bad, lambda: e.cnot(-1, 1), 'rejected')
    mon.raises(bad, lambda: e.flip(3), 'rejected')
    mon.raises(bad, lambda: e.phase(1, 3), 'rejected')
    mon.raises(bad, lambda: e.compose(CNOTDihedral(2)), 'rejected')
    mon.raises(bad, lambda: e.dot(CNOTDihedral(2)), 'rejected')
    mon.raises(bad, lambda: e * CNOTDihedral(2), 'rejected')
    mon.check(e == CNOTDihedral(3), 'rejected', 'rejected operation changed the element')
    for broken in ('linear', 'shift', 'weight_2', 'weight_3', 'weight_0'):
        f = CNOTDihedral(3)
        if broken == 'linear':
            f.linear = np.ones((3, 3), dtype=int)
        elif broken == 'shift':
            f.shift = np.array([0, 2, 0])
        elif broken == 'weight_2':
            f = CNOTDihedral(5)
            f.poly.set_term(sorted(int(x) for x in rng.permutation(5)[:2]), int(rng.choice([1, 3, 5, 7])))
        elif broken == 'weight_3':
            f = CNOTDihedral(5)
            f.poly.set_term(sorted(int(x) for x in rng.permutation(5)[:3]), int(rng.choice([1, 2, 3, 5, 6, 7])))
        else:
            f.poly.weight_0 = 1
        mon.check(not f.is_cnotdihedral(), 'valid', 'invalid element accepted', broken=broken)
