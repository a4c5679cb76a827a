"""Monitors: online oracles that observe executions of the real code.

A property module drives the public API of qiskit-ignis and feeds every
observation to a Monitor.  The monitor counts evaluations, keeps a digest of
each distinct observed state, keeps a few samples, and records violations.
"""
import collections
import hashlib
import json
import traceback

import numpy as np


class Violation(Exception):
    """Raised to abandon a case after a monitor saw a violation."""


def _short(obj, limit=600):
    text = obj if isinstance(obj, str) else repr(obj)
    return text if len(text) <= limit else text[:limit] + '...'


def digest(obj):
    """Stable digest of an observed value (rounded, order-insensitive for dicts)."""
    h = hashlib.blake2b(digest_size=8)

    def feed(o):
        if isinstance(o, dict):
            h.update(b'd')
            for k in sorted(o, key=repr):
                feed(k)
                feed(o[k])
        elif isinstance(o, (list, tuple)):
            h.update(b'l')
            for v in o:
                feed(v)
        elif isinstance(o, np.ndarray):
            h.update(str(o.shape).encode())
            h.update(np.round(np.asarray(o, dtype=complex), 6).tobytes())
        elif isinstance(o, (float, np.floating)):
            h.update(('%.6g' % o).encode())
        elif isinstance(o, (complex, np.complexfloating)):
            h.update(('%.6g,%.6g' % (o.real, o.imag)).encode())
        else:
            h.update(repr(o).encode())
    feed(obj)
    return h.hexdigest()


class Monitor:
    """Collects observations for one property."""

    MAX_SAMPLES = 4

    def __init__(self, prop):
        self.prop = prop
        self.evaluations = 0
        self.events = collections.Counter()
        self.states = set()
        self.samples = {}
        self.violations = []
        self.known = collections.Counter()
        self.case = None
        self.known_keys = {}

    # -- case handling -------------------------------------------------
    def start_case(self, case):
        self.case = case
        self.events['case:' + case['kind']] += 1

    # -- observations --------------------------------------------------
    def saw(self, event, state=None, n=1):
        """Record that an event of interest was observed."""
        self.events[event] += n
        if state is not None:
            self.states.add(event + ':' + digest(state))

    def sample(self, event, **info):
        lst = self.samples.setdefault(event, [])
        if len(lst) < self.MAX_SAMPLES:
            lst.append({k: _short(v, 200) for k, v in info.items()})

    def check(self, cond, event, msg='', state=None, key=None, fatal=False, **info):
        """One oracle evaluation."""
        self.evaluations += 1
        self.saw(event, state)
        if cond is True or (not isinstance(cond, bool) and bool(cond)):
            if state is not None and len(self.samples.get(event, ())) < 2:
                self.sample(event, observed=state)
            return True
        self.violate(event, msg, key=key, **info)
        if fatal:
            raise Violation(event)
        return False

    def close(self, a, b, event, msg='', atol=1e-7, rtol=1e-7, state=None, key=None,
              fatal=False, **info):
        """Numeric equality oracle (NaN or shape mismatch is a violation)."""
        try:
            aa = np.asarray(a, dtype=complex)
            bb = np.asarray(b, dtype=complex)
            ok = aa.shape == bb.shape and bool(
                np.all(np.isfinite(aa))) and bool(
                    np.allclose(aa, bb, atol=atol, rtol=rtol))
        except (TypeError, ValueError) as exc:
            ok = False
            info['error'] = repr(exc)
        return self.check(ok, event, msg or 'values differ', state=a if state is None else state,
                          key=key, fatal=fatal, got=a, want=b, **info)

    def equal(self, a, b, event, msg='', state=None, key=None, fatal=False, **info):
        try:
            ok = bool(a == b)
        except Exception:  # ambiguous truth etc.
            ok = bool(np.array_equal(a, b))
        return self.check(ok, event, msg or 'values differ', state=a if state is None else state,
                          key=key, fatal=fatal, got=a, want=b, **info)

    def raises(self, exc_types, func, event, msg='', key=None):
        """The call must be rejected with one of exc_types."""
        try:
            out = func()
        except exc_types as exc:
            return self.check(True, event, state=type(exc).__name__)
        except Exception as exc:  # pylint: disable=broad-except
            return self.check(False, event, (msg or 'wrong exception') + ': ' + repr(exc), key=key)
        return self.check(False, event, msg or 'call was accepted', key=key, got=out)

    def violate(self, event, msg, key=None, **info):
        entry = {'event': event, 'message': _short(msg, 2000),
                 'info': {k: _short(v) for k, v in info.items()},
                 'case': self.case}
        if key is not None and key in self.known_keys:
            self.known[key] += 1
            return
        if len(self.violations) < 200:
            self.violations.append(entry)

    def crashed(self, exc):
        tb = traceback.format_exception(type(exc), exc, exc.__traceback__)
        self.evaluations += 1
        self.violate('unexpected-exception', repr(exc), traceback=''.join(tb)[-1500:])

    # -- merging of worker monitors -------------------------------------
    def dump(self):
        return {'evaluations': self.evaluations, 'events': dict(self.events),
                'states': list(self.states), 'samples': self.samples,
                'violations': self.violations, 'known': dict(self.known)}

    def merge(self, d):
        self.evaluations += d['evaluations']
        self.events.update(d['events'])
        self.states.update(d['states'])
        for k, lst in d['samples'].items():
            mine = self.samples.setdefault(k, [])
            mine.extend(lst[:max(0, self.MAX_SAMPLES - len(mine))])
        self.violations.extend(d['violations'])
        self.known.update(d['known'])


def jsonable(obj):
    return json.loads(json.dumps(obj, default=lambda o: o.tolist() if isinstance(o, np.ndarray)
                                 else (o.item() if isinstance(o, np.generic) else repr(o))))
