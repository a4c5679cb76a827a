"""C33: values logged to file are read back exactly once and whole."""
import datetime
import os
import re

import numpy as np
from qiskit.ignis.logging import IgnisLogging, IgnisLogReader
from vm import logtools

PROP = 'C33'
LEVEL = 'exploration'
RULE = ('random configuration files, log paths, loggers and records with hostile values (spaces, '
        'quotes, colons, lists, arrays of several lines, unicode) logged by the real code into a '
        'scratch home; the files and the reader are compared with the recorded calls; random key, '
        'date and file filters; decoy files; a state is one distinct set of rows')
ASSUMPTIONS = ["a value does not contain the separator of two pairs, \"' 'key':'\"",
               'the log is read under the locale it was written in']


def cases(rng, tier):
    n = 16 if tier == 'quick' else 500
    for _ in range(n):
        yield 'roundtrip', {'loggers': rng.choice([1, 1, 2, 3]), 'again': rng.random() < .4}
        yield 'filters', {}
        yield 'config', {}
    for _ in range(n // 2):
        yield 'files', {}
        yield 'fault', {}


def required_events(tier):
    return ['rows', 'keys', 'one-entry-per-call', 'console-once', 'console-not-in-file',
            'file-not-on-console', 'time-filter', 'key-filter', 'file-filter', 'log-path',
            'disabled', 'disabled-warning', 'override', 'log-files', 'after-fault', 'entry-time',
            'multi-line', 'spaces', 'default-path', 'invalid-date']


ALNUM = 'abcXYZ019_'


def word(rng, lo=1, hi=6):
    return ''.join(rng.choice(list(ALNUM)) for _ in range(int(rng.integers(lo, hi + 1))))


def value(rng):
    pick = int(rng.integers(0, 18))
    if pick == 0:
        return int(rng.integers(-1000, 1000))
    if pick == 1:
        return float(rng.normal())
    if pick == 2:
        return [int(v) for v in rng.integers(0, 9, size=int(rng.integers(0, 5)))]
    if pick == 3:
        return {'a': 1, 'b c': [1, 2]}
    if pick == 4:
        return np.arange(int(rng.integers(1, 7)))
    if pick == 5:
        return np.round(rng.normal(size=(2, 2)), 3)
    if pick == 6:
        return "it's " + word(rng)
    if pick == 7:
        return 'a:b:%s' % word(rng)
    if pick == 8:
        return ''
    if pick == 9:
        return 'ignis_logging %s %%s %%(name)s {}' % word(rng)
    if pick == 10:
        return '\u03b8=%s\u00b5s' % word(rng)
    if pick == 11:
        return "'%s'" % word(rng)
    if pick == 12:
        return ('qubit 0', 0.02)
    if pick == 13:
        # long values: a counts dictionary, a text of many characters
        return {format(k, '08b'): int(v) for k, v in
                enumerate(rng.integers(0, 1000, size=int(rng.integers(20, 256))))}
    if pick == 14:
        return word(rng) * int(rng.choice([20, 100, 500, 1500, 15000]))
    if pick == 15:
        return [None, True, False, 1 + 2j, -0.0, 1e300, float('inf'), 10**25][int(rng.integers(8))]
    if pick == 16:
        # several lines, one of them starting like a date
        return '%s\n2020/01/02 %s\n12:30:00 %s' % (word(rng), word(rng), word(rng))
    return word(rng)


def record(rng, keys=None):
    keys = keys or ['t1', 't2', 'qubits', 'fidelity', 'K_1', 'a', 't', 't11', 'k12', 'T1', 'key_10',
                    'x' * 40]
    picks = rng.permutation(len(keys))[:int(rng.integers(1, 5 if rng.random() < .8 else 13))]
    return {keys[int(k)]: value(rng) for k in picks}


def pairs(rec):
    return ["'{}':'{}'".format(k, v) for k, v in rec.items()]


def path_for(rng, box):
    sub = ['', 'Sub Dir', 'Data[1]', 'a+b (c)', 'v1.2', 'time:12'][int(rng.integers(6))]
    name = ['Test_Log.LOG', 'ignis.log', 'x[0].log', 'run+1.log', 'log', 'My Log:1.txt'][int(rng.integers(6))]
    if sub:
        os.makedirs(os.path.join(box.work, sub), exist_ok=True)
    rel = os.path.join(sub, name) if sub else name
    if rng.random() < .5:
        rel = os.path.join(box.work, rel)
    return rel


def lines_of(cfg, rng):
    """A configuration file saying cfg, with noise."""
    def key(k):
        return ''.join(c.upper() if rng.random() < .2 else c for c in k)
    out = ['%s%s:%s%s%s' % ([' ', ''][int(rng.random() < .7)], key(k), ['', ' ', '  '][int(rng.integers(3))],
                            v, ['', '  ', ' # comment: x', ' # one # two'][int(rng.integers(4))])
           for k, v in cfg.items()]
    out = [out[int(k)] for k in rng.permutation(len(out))]
    for extra in ('# file_logging: false', '', 'unknown: 3', '---', '#log_file: no.log'):
        if rng.random() < .4:
            out.insert(int(rng.integers(len(out) + 1)), extra)
    return '\n'.join(out) + ['', '\n'][int(rng.random() < .5)]


def write(names, script, again, config):
    """Child: perform the script and read everything back."""
    ign = IgnisLogging(config) if config else IgnisLogging()
    loggers = {n: ign.get_logger(n) for n in names}
    times = []
    for name, what, arg in script:
        log = loggers[name]
        if again and what == 'again':
            loggers[name] = ign.get_logger(name)
        elif what == 'enable':
            log.enable_file_logging()
        elif what == 'disable':
            log.disable_file_logging()
        elif what == 'file':
            t0 = datetime.datetime.now().replace(microsecond=0)
            log.log_to_file(**arg)
            times.append((t0, datetime.datetime.now()))
        elif what == 'console':
            log.warning(arg)
        elif what == 'bad':
            try:
                log.log_to_file(**arg)
            except ZeroDivisionError:
                pass
    reader = IgnisLogReader()
    return times, reader.read_values(), reader.get_log_files(), ign.get_log_file()


def read(kwargs, config=None):
    """Child: read with filters."""
    if config:
        IgnisLogging(config)
    try:
        return 'rows', IgnisLogReader().read_values(**kwargs)
    except ValueError as exc:
        return 'ValueError', str(exc)


def entries(text):
    return re.split(r'(?m)^(?=\d{4}/\d\d/\d\d \d\d:\d\d:\d\d ignis_logging )', text)[1:]


def judge(mon, kind, val):
    if kind != 'ok':
        mon.check(False, 'completed', 'workload failed: %s' % (val if val else kind), fatal=True)


def check_console(mon, console, names, msgs, recs):
    for name, text in msgs:
        mon.equal(console.count(text), 1, 'console-once', 'message %r printed' % text,
                  state=len(msgs))
        mon.check('WARNING: %s - %s' % (name, text) in console, 'console-format',
                  'message %r is not in the documented form' % text, console=console)
    mon.check('ignis_logging' not in console.replace('qiskit.ignis.logging.ignis_logging', ''),
              'file-not-on-console', 'file data on the console', console=console, state=len(recs))


def case_roundtrip(mon, case):
    rng = np.random.default_rng(case['seed'])
    with logtools.Sandbox() as box:
        path = path_for(rng, box)
        text = lines_of({'file_logging': ['true', 'True', 'TRUE'][int(rng.integers(3))],
                         'log_file': path}, rng)
        config = None
        if rng.random() < .25:      # a configuration file named by the user wins over the default
            config = os.path.join(box.work, ['other.yaml', 'My Config'][int(rng.integers(2))])
            with open(config, 'w') as fd:
                fd.write(text)
            if rng.random() < .5:
                box.write_config('file_logging: false\nlog_file: wrong.log\n')
            mon.saw('named-config')
        else:
            box.write_config(text)
        names = ['mod%d.%s' % (k, word(rng)) for k in range(case['loggers'])]
        script, recs, msgs = [], [], []
        for k in range(int(rng.integers(3, 16 if rng.random() < .8 else 60))):
            name = names[int(rng.integers(len(names)))]
            if rng.random() < .3:
                text = 'msg-%d-%s' % (k, word(rng))
                script.append((name, 'console', text))
                msgs.append((name, text))
            elif case['again'] and rng.random() < .3:
                script.append((name, 'again', None))
            else:
                rec = record(rng)
                script.append((name, 'file', rec))
                recs.append(rec)
        kind, val, console = box.run(write, names, script, True, config)
        judge(mon, kind, val)
        times, rows, files, name = val
        full = path if os.path.isabs(path) else os.path.join(box.work, path)
        mon.equal(name, path, 'log-path', 'path of the configuration file')
        if not recs:
            return
        if not mon.check(os.path.exists(full), 'log-path', 'nothing at the configured path %r' % path):
            return
        mon.equal(files, [full], 'log-files', 'files of the log')
        with open(full) as fd:
            text = fd.read()
        ents = entries(text)
        mon.equal(len(ents), len(recs), 'one-entry-per-call', 'entries in the file')
        for ent, rec, (t0, t1) in zip(ents, recs, times):
            mon.equal(ent[34:].strip(), ' '.join(pairs(rec)).strip(), 'entry', 'entry in the file')
            stamp = datetime.datetime.strptime(ent[:19], '%Y/%m/%d %H:%M:%S')
            mon.check(t0 <= stamp <= t1, 'entry-time', 'time of the entry', state=str(stamp))
        want = [pairs(r) for r in recs]
        mon.equal([list(r[2:]) for r in rows], want, 'rows', 'rows of the reader',
                  state=repr(want))
        mon.equal([' '.join(r[:2]) for r in rows], [e[:19] for e in ents], 'row-times', 'times of rows')
        check_console(mon, console, names, msgs, recs)
        for _, msg in msgs:
            mon.check(msg not in text, 'console-not-in-file', 'message %r in the log file' % msg)
        flat = [v for r in recs for v in r.values()]
        if any('\n' in str(v) for v in flat):
            mon.saw('multi-line')
        if any(' ' in str(v) for v in flat):
            mon.saw('spaces')
        allkeys = sorted({k for r in recs for k in r})
        for _ in range(3):
            keys = [k for k in allkeys if rng.random() < .5] + (['none'] if rng.random() < .3 else [])
            kind, got, _ = box.run(read, {'keys': keys}, config)
            judge(mon, kind, got)
            want = [["'{}':'{}'".format(k, v) for k, v in r.items() if k in keys] for r in recs]
            mon.equal([list(r[2:]) for r in got[1]], [w for w in want if w], 'keys',
                      'rows of the keys %r' % keys)


def case_filters(mon, case):
    """Files written by the code, entries spread over dates."""
    rng = np.random.default_rng(case['seed'])
    with logtools.Sandbox() as box:
        box.write_config('file_logging: true\nlog_file: spread.log\n')
        recs = [record(rng, ['t1', 't2', 'k', 'kk']) for _ in range(int(rng.integers(3, 12)))]
        kind, val, _ = box.run(write, ['m'], [('m', 'file', r) for r in recs], False, None)
        judge(mon, kind, val)
        full = os.path.join(box.work, 'spread.log')
        with open(full) as fd:
            ents = entries(fd.read())
        if not mon.equal(len(ents), len(recs), 'one-entry-per-call', 'entries in the file'):
            return
        start = datetime.datetime(2019, 8, 4, 13, 27, 4)
        stamps = []
        cur = start
        for _ in recs:
            stamps.append(cur)
            cur += datetime.timedelta(seconds=int(rng.choice([0, 1, 1, 59, 3600, 86400, 40 * 86400])))
        ents = [s.strftime('%Y/%m/%d %H:%M:%S') + e[19:] for s, e in zip(stamps, ents)]
        cut = int(rng.integers(0, len(ents) + 1))
        parts = {'old.log': list(range(cut)), 'spread.log': list(range(cut, len(ents)))}
        for name, idx in parts.items():
            with open(os.path.join(box.work, name), 'w') as fd:
                fd.write(''.join(ents[k] for k in idx))
        for _ in range(6):
            kw = {}
            use = parts['spread.log']
            pick = rng.random()
            if pick < .3:
                kw['log_files'] = ['old.log', 'spread.log']
                use = parts['old.log'] + parts['spread.log']
            elif pick < .4:
                kw['log_files'] = ['spread.log', 'old.log']
                use = parts['spread.log'] + parts['old.log']
            elif pick < .6:
                kw['log_files'] = 'old.log'
                use = parts['old.log']
            if kw:
                mon.saw('file-filter', state=(cut, pick < .3))
            lo, hi = datetime.datetime.min, datetime.datetime.max
            for side in ('from', 'to'):
                if rng.random() < .6:
                    base = stamps[int(rng.integers(len(stamps)))]
                    base += datetime.timedelta(seconds=int(rng.choice([0, 0, -1, 1, -3600])))
                    style = int(rng.integers(3))
                    if style == 0:
                        kw[side + '_datetime'] = base
                    elif style == 1:
                        kw[side + '_datetime'] = base.strftime('%Y/%m/%d %H:%M:%S')
                    else:
                        fmt = ['%d.%m.%Y %H-%M-%S', '%Y-%m-%dT%H:%M:%S', '%H:%M:%S %m/%d/%y'][
                            int(rng.integers(3))]
                        kw[side + '_datetime'] = base.strftime(fmt)
                        kw[side + '_datetime_format'] = fmt
                    if side == 'from':
                        lo = base
                    else:
                        hi = base
            keys = None
            if rng.random() < .4:
                keys = [k for k in ['t1', 't2', 'k', 'kk', 't'] if rng.random() < .5]
                kw['keys'] = keys
            want = []
            for k in use:
                if not lo <= stamps[k] <= hi:
                    continue
                row = ["'{}':'{}'".format(a, b) for a, b in recs[k].items() if keys is None or a in keys]
                if row:
                    want.append(ents[k][:19].split() + row)
            kind, got, _ = box.run(read, kw)
            judge(mon, kind, got)
            mon.equal([list(r) for r in got[1]], want,
                      'key-filter' if keys is not None else 'time-filter',
                      'rows for %r' % (kw,), state=repr((kw, want)))
        kind, got, _ = box.run(read, {'log_files': ['old.log', 'spread.log'],
                                      'from_datetime': '4 August'})
        judge(mon, kind, got)
        mon.equal(got[0], 'ValueError', 'invalid-date', 'a date that is not in the format')


def case_config(mon, case):
    rng = np.random.default_rng(case['seed'])
    with logtools.Sandbox() as box:
        cfg = {}
        enabled = False
        if rng.random() < .75:
            flag = ['true', 'True', 'false', 'tru', 'yes', '1', ''][int(rng.choice([0, 0, 0, 1, 2, 3, 4, 5, 6]))]
            key = 'file_logging' if rng.random() < .85 else 'file_logging1'
            cfg[key] = flag
            enabled = key == 'file_logging' and flag.lower() == 'true'
        path = 'ignis.log'
        if rng.random() < .6:
            path = path_for(rng, box)
            cfg['log_file'] = path
        else:
            mon.saw('default-path')
        if rng.random() < .4:
            cfg['max_size'] = ['0', 'abc', '-5', '1000000', '1e3'][int(rng.integers(5))]
        if rng.random() < .4:
            cfg['max_rotations'] = ['0', '3', 'x'][int(rng.integers(3))]
        exists = bool(cfg) or rng.random() < .3
        if exists:
            box.write_config(lines_of(cfg, rng) if cfg else '\n')
        else:
            path = 'ignis.log'
        script, recs = [], []
        state = {'a': enabled, 'b': enabled}
        off = {'a': 0, 'b': 0}
        for k in range(int(rng.integers(2, 9))):
            name = ['a', 'b'][int(rng.random() < .3)]
            r = rng.random()
            if r < .15:
                script.append((name, 'enable', None))
                state[name] = True
                mon.saw('override', state=(enabled, True))
            elif r < .3:
                script.append((name, 'disable', None))
                state[name] = False
                mon.saw('override', state=(enabled, False))
            else:
                rec = {'r%d' % k: word(rng)}
                script.append((name, 'file', rec))
                if state[name]:
                    recs.append(rec)
                else:
                    off[name] += 1
        kind, val, console = box.run(write, ['a', 'b'], script, False, None)
        judge(mon, kind, val)
        full = path if os.path.isabs(path) else os.path.join(box.work, path)
        if not recs:
            left = [f for _, _, fs in os.walk(box.work) for f in fs]
            mon.equal(left, [], 'disabled', 'files written with file logging disabled',
                      state=(exists, repr(cfg)))
        elif mon.check(os.path.exists(full), 'log-path', 'nothing at %r' % full,
                       left=[f for _, _, fs in os.walk(box.work) for f in fs]):
            with open(full) as fd:
                ents = entries(fd.read())
            mon.equal([e[34:].strip() for e in ents], [pairs(r)[0] for r in recs], 'enabled',
                      'entries while enabled', state=repr(script))
        mon.equal(val[3], path, 'log-path', 'configured path')
        want = sum(1 for v in off.values() if v)
        mon.equal(console.count('File logging is disabled'), want, 'disabled-warning',
                  'warnings that file logging is disabled', console=console)
        if want and not exists:
            mon.equal(console.count('no config file'), want, 'disabled-warning', 'reason given')


def case_files(mon, case):
    """Which files belong to the log."""
    rng = np.random.default_rng(case['seed'])
    with logtools.Sandbox() as box:
        path = path_for(rng, box)
        box.write_config('log_file: %s\n' % path)
        full = path if os.path.isabs(path) else os.path.join(box.work, path)
        nrot = int(rng.integers(0, 13))
        mine = ['%s.%d' % (full, k) for k in range(nrot, 0, -1)] + [full]
        rows = []
        for k, f in enumerate(mine):
            with open(f, 'w') as fd:
                fd.write("2020/01/01 00:00:%02d ignis_logging 'k':'%d' \n" % (k, k))
            rows.append(['2020/01/01', '00:00:%02d' % k, "'k':'%d'" % k])
        base = 1.6e9
        # files rotated within one tick of the clock share their time
        for f in mine:
            base += float(rng.choice([0, 0, 1]))
            os.utime(f, (base, base))
        for decoy in ('.bak', '.1.gz', 'x1', '.1x', '-1', '.', '.one', '2'):
            if rng.random() < .6:
                with open(full + decoy, 'w') as fd:
                    fd.write("2020/01/01 00:00:00 ignis_logging 'decoy':'1' \n")
        kind, got, _ = box.run(lambda: (IgnisLogReader().get_log_files(), IgnisLogReader().read_values()))
        judge(mon, kind, got)
        mon.equal(got[0], mine, 'log-files', 'files of the log, oldest first', state=nrot)
        mon.equal([list(r) for r in got[1]], rows, 'rows', 'rows of all files')


class Bad:
    def __str__(self):
        raise ZeroDivisionError

    __repr__ = __str__

    def __format__(self, spec):
        raise ZeroDivisionError


def case_fault(mon, case):
    """A value that cannot be printed does not derail the logger."""
    rng = np.random.default_rng(case['seed'])
    with logtools.Sandbox() as box:
        box.write_config('file_logging: true\nlog_file: f.log\n')
        script, recs, msgs = [], [], []
        for k in range(int(rng.integers(3, 10))):
            r = rng.random()
            if r < .35:
                script.append(('m', 'bad', {'a': 1, 'b': Bad()}))
            elif r < .65:
                text = 'msg-%d-%s' % (k, word(rng))
                script.append(('m', 'console', text))
                msgs.append(('m', text))
            else:
                rec = record(rng)
                script.append(('m', 'file', rec))
                recs.append(rec)
        kind, val, console = box.run(write, ['m'], script, False, None)
        judge(mon, kind, val)
        rows = [list(r[2:]) for r in val[1]]
        mon.equal(rows, [pairs(r) for r in recs], 'after-fault', 'rows after failed calls',
                  state=repr([s[1] for s in script]))
        for name, text in msgs:
            mon.equal(console.count(text), 1, 'console-once', 'message %r printed' % text)
