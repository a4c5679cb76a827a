"""Structural snapshots of values, tolerant comparison and scribbling (for C36)."""
import copy
import re

import numpy as np
import networkx as nx
from qiskit import QuantumCircuit, QuantumRegister, ClassicalRegister
from qiskit.circuit import Qubit, Clbit, Instruction, Parameter, ParameterExpression
from qiskit.pulse import Schedule
from qiskit.pulse.instructions import Play
from qiskit.quantum_info import Choi
from qiskit.quantum_info.operators.base_operator import BaseOperator
from qiskit.result import Result


def reg(name):
    """Register names, automatic numbering dropped."""
    return re.sub(r'\d+$', '#', name)


def canon(x, depth=0):
    """Plain nested tuples describing x; floats stay floats."""
    if depth > 40:
        return '...'
    d = depth + 1
    if x is None or isinstance(x, (str, bytes, bool, np.bool_)):
        return x if not isinstance(x, np.bool_) else bool(x)
    if isinstance(x, (int, np.integer)):
        return float(x) if abs(int(x)) < 2 ** 50 else int(x)
    if isinstance(x, (float, np.floating)):
        return float(x)
    if isinstance(x, (complex, np.complexfloating)):
        return ('c', float(x.real), float(x.imag))
    if isinstance(x, np.ndarray):
        if x.dtype.kind in 'biuf':
            return ('nd', x.shape, np.array(x, dtype=float))
        if x.dtype.kind == 'c':
            return ('nd', x.shape, np.array(x, dtype=complex))
        return ('nd', x.shape, tuple(canon(v, d) for v in x.ravel()))
    if isinstance(x, QuantumCircuit):
        qi = {q: i for i, q in enumerate(x.qubits)}
        ci = {c: i for i, c in enumerate(x.clbits)}
        name = re.sub(r'\d+', '', x.name) if re.match(r'circuit-?\d+(-\d+)?$', x.name) else x.name
        return ('circ', name, tuple((reg(r.name), r.size) for r in x.qregs),
                tuple((reg(r.name), r.size) for r in x.cregs),
                tuple((canon(i, d), tuple(qi[q] for q in qs), tuple(ci[c] for c in cs))
                      for i, qs, cs in x.data))
    if isinstance(x, ParameterExpression) or isinstance(x, Parameter):
        return ('param', str(x))
    if isinstance(x, Instruction):
        cond = x.condition
        return ('op', re.sub(r'\d+$', '', x.name) if not x.params else x.name,
                tuple(canon(p, d) for p in x.params),
                None if cond is None else (reg(cond[0].name), int(cond[1])))
    if isinstance(x, (QuantumRegister, ClassicalRegister)):
        return ('reg', reg(x.name), x.size)
    if isinstance(x, (Qubit, Clbit)):
        return ('bit', reg(x.register.name), x.index)
    if isinstance(x, Schedule):
        return ('sched', x.name, tuple((t, canon(i, d)) for t, i in x.instructions))
    if isinstance(x, Play):
        p = x.pulse
        if hasattr(p, 'get_waveform'):
            p = p.get_waveform()
        return ('play', str(x.channel), canon(np.asarray(p.samples), d))
    if type(x).__module__.startswith('qiskit.pulse'):
        return ('pulse', repr(x))
    if isinstance(x, Result):
        return ('result', canon(x.to_dict(), d))
    if isinstance(x, Choi):
        return ('choi', canon(x.data, d))
    if hasattr(x, 'assignment_matrix'):     # caches inside mitigators are their own business
        return ('mitigator', type(x).__name__, canon(x.assignment_matrix(), d))
    if hasattr(x, 'table') and hasattr(x.table, 'array'):
        return ('table', canon(np.asarray(x.table.array), d), canon(np.asarray(x.table.phase), d))
    if isinstance(x, BaseOperator) and not hasattr(x, 'poly'):
        return ('operator', type(x).__name__, canon(getattr(x, 'data', None), d))
    if hasattr(x, 'poly') and hasattr(x, 'linear'):
        p = x.poly
        return ('dihedral', canon(np.asarray(x.linear), d), canon(np.asarray(x.shift), d),
                int(p.weight_0), canon(np.asarray(p.weight_1), d),
                canon(np.asarray(p.weight_2), d), canon(np.asarray(p.weight_3), d))
    if isinstance(x, nx.Graph) or type(x).__name__ in ('PyGraph', 'PyDiGraph'):
        if isinstance(x, nx.Graph):
            return ('graph', tuple(sorted(map(str, x.nodes))),
                    tuple(sorted((str(sorted(map(str, e[:2]))), canon(e[2], d))
                                 for e in x.edges(data=True))))
        return ('graph', tuple(map(str, x.nodes())), tuple(sorted(map(str, x.weighted_edge_list()))))
    if isinstance(x, dict):
        return ('dict', tuple(sorted(((repr(canon(k, d)), canon(v, d)) for k, v in x.items()),
                                     key=lambda kv: kv[0])))
    if isinstance(x, (list, tuple)):
        return ('seq', tuple(canon(v, d) for v in x))
    if isinstance(x, (set, frozenset)):
        return ('set', tuple(sorted(repr(canon(v, d)) for v in x)))
    if hasattr(x, '__next__'):
        return ('seq', tuple(canon(v, d) for v in x))
    return ('other', type(x).__name__)


def differ(a, b, tol, path=''):
    """First difference between two canon values, or None."""
    if isinstance(a, float) and isinstance(b, float):
        if a == b or (np.isnan(a) and np.isnan(b)):
            return None
        if np.isinf(a) or np.isinf(b) or abs(a - b) > tol * (1 + max(abs(a), abs(b))):
            return '%s: %r / %r' % (path, a, b)
        return None
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape or not np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True):
            return '%s: arrays differ' % path
        return None
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return '%s: %d / %d entries' % (path, len(a), len(b))
        for k, (u, v) in enumerate(zip(a, b)):
            out = differ(u, v, tol, '%s/%s' % (path, a[0] if k and isinstance(a[0], str) and
                                               len(a[0]) < 12 else k))
            if out:
                return out
        return None
    if type(a) is not type(b) or a != b:
        return '%s: %.80r / %.80r' % (path, a, b)
    return None


def scribble(x, depth=0, seen=None):
    """Overwrite every mutable container reachable through containers of x."""
    seen = set() if seen is None else seen
    if depth > 6 or id(x) in seen:
        return 0
    seen.add(id(x))
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.size and x.dtype.kind in 'iufc':
            x[...] = 7
            return 1
        return 0
    if isinstance(x, QuantumCircuit):
        if x.qubits:
            x.x(x.qubits[0])
            x.name = 'scribbled'
        return 1
    if isinstance(x, dict):
        out = 1 + sum(scribble(v, depth + 1, seen) for v in list(x.values()))
        x.clear()
        x['scribbled'] = 7
        return out
    if isinstance(x, list):
        out = 1 + sum(scribble(v, depth + 1, seen) for v in x)
        x[:] = ['scribbled']
        return out
    if isinstance(x, tuple):
        return sum(scribble(v, depth + 1, seen) for v in x)
    if isinstance(x, set):
        x.clear()
        return 1
    return 0


def clone(x):
    return copy.deepcopy(x)
