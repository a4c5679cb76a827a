"""Classical (bit-level) execution of repetition code circuits with injected faults."""

FLIPS = ('x', 'y')
NEUTRAL = ('id', 'z', 'barrier', 'delay', 's', 't', 'sdg', 'tdg', 'cz')


def positions(circ):
    """All (index, qubit) at which a fault can be injected before an instruction."""
    out = []
    for i, (inst, qs, _) in enumerate(circ.data):
        if inst.name == 'barrier':
            continue
        out.extend((i, q) for q in qs)
    return out


def run(circ, faults=()):
    """Final classical bits (dict clbit -> int) with bit flips before given instructions."""
    q = {b: 0 for b in circ.qubits}
    c = {b: 0 for b in circ.clbits}
    todo = {}
    for i, qubit in faults:
        todo.setdefault(i, []).append(qubit)
    for i, (inst, qs, cs) in enumerate(circ.data):
        for qubit in todo.get(i, ()):
            q[qubit] ^= 1
        name = inst.name
        if name in FLIPS:
            q[qs[0]] ^= 1
        elif name == 'cx':
            q[qs[1]] ^= q[qs[0]]
        elif name == 'swap':
            q[qs[0]], q[qs[1]] = q[qs[1]], q[qs[0]]
        elif name == 'measure':
            c[cs[0]] = q[qs[0]]
        elif name == 'reset':
            q[qs[0]] = 0
        elif name not in NEUTRAL:
            raise AssertionError('unexpected instruction ' + name)
    return c


def raw_string(circ, c):
    """The key a backend reports: registers in reverse order, space separated."""
    return ' '.join(''.join(str(c[reg[i]]) for i in reversed(range(reg.size)))
                    for reg in reversed(circ.cregs))


def processed(code_bits, rounds):
    """Expected decoder string: logical readouts, then syndrome changes per round."""
    d = len(code_bits)
    last = [code_bits[j] ^ code_bits[j + 1] for j in range(d - 1)]
    prev = [0] * (d - 1)
    parts = []
    for syn in list(rounds) + [last]:
        change = [a ^ b for a, b in zip(syn, prev)]
        parts.append(''.join(str(b) for b in reversed(change)))
        prev = syn
    return '%d %d  ' % (code_bits[-1], code_bits[0]) + ' '.join(parts)


def nodes(string):
    out = []
    for kind, part in enumerate(string.split('  ')):
        for t, rnd in enumerate(part.split(' ')):
            out.extend((kind, t, j) for j, ch in enumerate(rnd) if ch == '1')
    return out
