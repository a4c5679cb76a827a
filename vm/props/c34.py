"""C34: file logging under threads, rotation, several processes and kills."""
import os
import re
import signal
import threading
import time

import numpy as np
from qiskit.ignis.logging import IgnisLogging, IgnisLogReader
from vm import logtools

PROP = 'C34'
LEVEL = 'exploration'
RULE = ('threads, several loggers and processes log to one file of the real code with random delays '
        'injected at every step of the logging machinery, file rotation at random sizes, and kills at '
        'random times; every call is recorded with its begin and end and an offline checker compares '
        'the history with the files; a state is one distinct interleaving of the entries')
ASSUMPTIONS = ['processes that share a log file do not rotate it (the standard handler of Python '
               'does not support that)', 'a kill ends the process, not the machine']


def cases(rng, tier):
    n = 12 if tier == 'quick' else 400
    for _ in range(n):
        yield 'threads', {'threads': rng.choice([2, 3, 4, 8, 16]), 'loggers': rng.choice([1, 1, 2, 3]),
                          'rotate': rng.random() < .5, 'console': rng.random() < .6}
        yield 'rotation', {'loggers': rng.choice([1, 2, 3])}
    for _ in range(n // 2):
        yield 'first', {'threads': rng.choice([2, 4, 8])}
        yield 'kill', {'rotate': rng.random() < .4}
        yield 'processes', {'procs': rng.choice([2, 3, 4])}


def required_events(tier):
    return ['exactly-once', 'program-order', 'real-time-order', 'console-once', 'console-not-in-file',
            'retained-suffix', 'rotation-count', 'file-size', 'nothing-lost', 'reader-rows',
            'first-use', 'acknowledged', 'whole-entries', 'processes-once', 'overlapping-calls']


ENTRY = re.compile(r"^(\d{4}/\d\d/\d\d \d\d:\d\d:\d\d) ignis_logging '(id)':'([\w-]+)' 'pad':'(x*)' ?$")


def config(box, path, size=None, rot=None):
    text = 'file_logging: true\nlog_file: %s\n' % path
    if size is not None:
        text += 'max_size: %d\n' % size
    if rot is not None:
        text += 'max_rotations: %d\n' % rot
    box.write_config(text)


def entries(mon, path, event='whole-entries'):
    """Identifiers of the entries of the log, oldest first, per file."""
    out = []
    for name in logtools.rotation_files(path):
        ids = []
        with open(name) as fd:
            for line in fd.read().split('\n'):
                if not line:
                    continue
                m = ENTRY.match(line)
                if mon.check(m is not None, event, 'line of the log is not an entry: %r' % line):
                    ids.append(m.group(3))
        out.append((name, ids))
    return out


def child_threads(seed, nthreads, nlog, per, console, scale, size):
    ign = IgnisLogging()
    loggers = [ign.get_logger('mod%d' % k) for k in range(nlog)]
    logtools.jitter(seed, scale)
    hist = [[] for _ in range(nthreads)]
    gate = threading.Barrier(nthreads)
    rngs = [np.random.default_rng([seed, t]) for t in range(nthreads)]

    def work(t):
        rng = rngs[t]
        gate.wait()
        for k in range(per):
            log = loggers[int(rng.integers(nlog))]
            if console and rng.random() < .4:
                text = 'con-%d-%d-' % (t, k)
                log.warning(text)
                hist[t].append(('console', text, 0, 0, 0))
                continue
            name = 'f-%d-%d' % (t, k)
            t0 = time.monotonic()
            pad = int(rng.integers(0, size))
            log.log_to_file(id=name, pad='x' * pad)
            hist[t].append(('file', name, t0, time.monotonic(), pad))
    threads = [threading.Thread(target=work, args=(t,)) for t in range(nthreads)]
    for th in threads:
        th.start()
    for th in threads:
        th.join()
    return hist, IgnisLogReader().read_values()


def judge(mon, kind, val):
    if kind != 'ok':
        mon.check(False, 'completed', 'workload failed: %s' % (val if val else kind), fatal=True)


def case_threads(mon, case):
    rng = np.random.default_rng(case['seed'])
    with logtools.Sandbox() as box:
        path = os.path.join(box.work, 'run.log')
        size = rot = None
        if case['rotate']:
            size, rot = int(rng.integers(80, 700)), 400
        config(box, path, size, rot)
        per = int(rng.integers(4, 13))
        kind, val, console = box.run(child_threads, int(rng.integers(2 ** 31)), case['threads'],
                                     case['loggers'], per, case['console'],
                                     float(rng.choice([0, 2e-4, 2e-3])),
                                     int(rng.choice([30, 30, 300, 20000])))
        judge(mon, kind, val)
        hist, rows = val
        files = entries(mon, path)
        got = [i for _, ids in files for i in ids]
        calls = [ev for h in hist for ev in h if ev[0] == 'file']
        want = [ev[1] for ev in calls]
        mon.check(sorted(got) == sorted(want), 'exactly-once', 'entries are not one per call',
                  missing=sorted(set(want) - set(got)), extra=sorted(set(got) - set(want)),
                  repeated=sorted({g for g in got if got.count(g) > 1}), state=tuple(got))
        pos = {g: k for k, g in enumerate(got)}
        if len(pos) == len(want) == len(got):
            for h in hist:
                mine = [pos[ev[1]] for ev in h if ev[0] == 'file']
                mon.check(mine == sorted(mine), 'program-order', 'entries of a thread out of order')
            bad = [(a[1], b[1]) for a in calls for b in calls if a[3] < b[2] and pos[a[1]] > pos[b[1]]]
            mon.check(not bad, 'real-time-order', 'entry after one logged later', pairs=bad[:3])
            if any(a is not b and a[2] < b[3] and b[2] < a[3] and a[1][:4] != b[1][:4]
                   for a in calls for b in calls):
                mon.saw('overlapping-calls', state=tuple(got))
            order = [re.search(r"'id':'([\w-]+)'", ' '.join(r)).group(1) for r in rows]
            mon.equal(order, got, 'reader-rows', 'rows of the reader')
        mon.check('ignis_logging' not in console, 'file-not-on-console', 'file data on the console',
                  console=console)
        text = ''
        for name, _ in files:
            with open(name) as fd:
                text += fd.read()
        lens = {m.group(3): len(m.group(4)) for m in map(ENTRY.match, text.split('\n')) if m}
        for ev in calls:
            mon.equal(lens.get(ev[1]), ev[4], 'whole-values', 'length of the value of %s' % ev[1])
        for h in hist:
            for ev in h:
                if ev[0] == 'console':
                    mon.equal(console.count(ev[1]), 1, 'console-once', 'message %r printed' % ev[1])
                    mon.check(ev[1] not in text, 'console-not-in-file', 'message %r in the file' % ev[1])


def child_rotation(nlog, script):
    ign = IgnisLogging()
    loggers = [ign.get_logger('mod%d' % k) for k in range(nlog)]
    for k, name, pad in script:
        loggers[k].log_to_file(id=name, pad='x' * pad)
    return IgnisLogReader().read_values()


def case_rotation(mon, case):
    """Retention under rotation, a history over several runs of the program."""
    rng = np.random.default_rng(case['seed'])
    with logtools.Sandbox() as box:
        path = os.path.join(box.work, 'run.log')
        size, rot = int(rng.integers(60, 500)), int(rng.integers(0, 12))
        if rng.random() < .15:
            size = 0
        config(box, path, size, rot)
        logged = []
        for run in range(int(rng.integers(1, 4))):
            script = [(int(rng.integers(case['loggers'])), 'r-%d-%d' % (run, k), int(rng.integers(0, 120 if rng.random() < .95 else 6000)))
                      for k in range(int(rng.integers(1, 25)))]
            kind, rows, _ = box.run(child_rotation, case['loggers'], script)
            judge(mon, kind, rows)
            logged += script
            files = entries(mon, path)
            got = [i for _, ids in files for i in ids]
            want = [s[1] for s in logged]
            mon.check(bool(got) and want[-len(got):] == got, 'retained-suffix',
                      'files do not hold the latest entries', got=got, want=want, state=tuple(got))
            mon.check(len(files) <= rot + 1 or not size, 'rotation-count', 'more files than configured',
                      files=len(files), rot=rot, state=(len(files), rot))
            if not size or not rot or len(files) < rot + 1:
                mon.equal(got, want, 'nothing-lost', 'entries lost before the rotations are used up')
            elif got != want:
                # what is dropped did not fit: the kept files together are nearly full
                sizes = [os.path.getsize(f) for f, _ in files]
                mon.check(all(a + b >= size for a, b in zip(sizes, [len_of(logged, ids[0]) for _, ids in
                                                                     files[1:] if ids])),
                          'file-size', 'rotated a file that had room', sizes=sizes, size=size)
            for name, ids in files:
                if size and rot:
                    mon.check(os.path.getsize(name) <= size or len(ids) == 1, 'file-size',
                              'file larger than configured', bytes=os.path.getsize(name), size=size)
            order = [re.search(r"'id':'([\w-]+)'", ' '.join(r)).group(1) for r in rows]
            mon.equal(order, got, 'reader-rows', 'rows of the reader')


def len_of(logged, name):
    for _, ident, pad in logged:
        if ident == name:
            return len("2026/01/01 00:00:00 ignis_logging 'id':'%s' 'pad':'%s' \n" % (ident, 'x' * pad))
    return 0


def child_first(seed, nthreads):
    """Threads race for the first use of the singleton."""
    logtools.jitter(seed, 5e-4)
    real = os.path.exists

    def slow(path):
        out = real(path)
        if str(path).endswith('logging.yaml'):
            time.sleep(.003)
        return out
    os.path.exists = slow
    gate = threading.Barrier(nthreads)
    done = [[] for _ in range(nthreads)]

    def work(t):
        gate.wait()
        log = IgnisLogging().get_logger('first%d' % t)
        for k in range(3):
            name = 'f-%d-%d' % (t, k)
            log.log_to_file(id=name, pad='x')
            done[t].append(name)
    threads = [threading.Thread(target=work, args=(t,)) for t in range(nthreads)]
    for th in threads:
        th.start()
    for th in threads:
        th.join()
    return done


def case_first(mon, case):
    rng = np.random.default_rng(case['seed'])
    with logtools.Sandbox() as box:
        path = os.path.join(box.work, 'run.log')
        size, rot = (None, None) if rng.random() < .5 else (int(rng.integers(100, 400)), 100)
        config(box, path, size, rot)
        kind, val, _ = box.run(child_first, int(rng.integers(2 ** 31)), case['threads'])
        judge(mon, kind, val)
        got = [i for _, ids in entries(mon, path) for i in ids]
        want = [n for d in val for n in d]
        mon.check(sorted(got) == sorted(want), 'first-use', 'entries of the first use are lost',
                  missing=sorted(set(want) - set(got)), extra=[g for g in got if got.count(g) > 1],
                  state=tuple(got))


def child_kill(wfd, pads):
    ign = IgnisLogging()
    log = ign.get_logger('k')
    for k, pad in enumerate(pads):
        log.log_to_file(id='k-%d' % k, pad='x' * pad)
        os.write(wfd, b'%d\n' % k)
        if k % 7 == 3:
            time.sleep(.0005)
    time.sleep(30)


def case_kill(mon, case):
    """Entries of calls that returned survive the death of the process."""
    rng = np.random.default_rng(case['seed'])
    with logtools.Sandbox() as box:
        path = os.path.join(box.work, 'run.log')
        size, rot = (int(rng.integers(200, 900)), 900) if case['rotate'] else (None, None)
        config(box, path, size, rot)
        rfd, wfd = os.pipe()
        pads = [int(p) for p in rng.integers(0, 60, size=500)]
        handle = box.start(child_kill, wfd, pads)
        os.close(wfd)
        buf = b''
        stop = int(rng.integers(1, 400))
        while buf.count(b'\n') < stop:
            part = os.read(rfd, 64)
            if not part:
                break
            buf += part
        time.sleep(float(rng.uniform(0, 5e-4)))
        os.kill(handle[0], signal.SIGKILL)
        while True:
            part = os.read(rfd, 4096)
            if not part:
                break
            buf += part
        os.close(rfd)
        box.finish(handle)
        acked = buf.count(b'\n')
        mon.check(acked >= 1, 'completed', 'child logged nothing')
        lines = ''
        for name in logtools.rotation_files(path):
            with open(name) as fd:
                lines += fd.read()
        got = re.findall(r"'id':'k-(\d+)' 'pad':'(x*)' ?\n", lines)
        want = [(str(k), 'x' * p) for k, p in enumerate(pads)]
        mon.check(acked <= len(got) <= acked + 1 and got == want[:len(got)], 'acknowledged',
                  'entries after a kill are not those of the calls that returned', acked=acked,
                  found=len(got), state=(acked, len(got)))


def child_proc(proc, per, seed):
    rng = np.random.default_rng([seed, proc])
    log = IgnisLogging().get_logger('p')
    for k in range(per):
        log.log_to_file(id='p-%d-%d' % (proc, k), pad='x' * int(rng.integers(0, 300)))
        if rng.random() < .3:
            time.sleep(float(rng.uniform(0, 4e-4)))
    return per


def case_processes(mon, case):
    rng = np.random.default_rng(case['seed'])
    with logtools.Sandbox() as box:
        path = os.path.join(box.work, 'run.log')
        config(box, path)
        per = int(rng.integers(5, 60))
        hs = [box.start(child_proc, p, per, int(rng.integers(2 ** 31))) for p in range(case['procs'])]
        for h in hs:
            kind, val, _ = box.finish(h)
            judge(mon, kind, val)
        got = [i for _, ids in entries(mon, path) for i in ids]
        want = ['p-%d-%d' % (p, k) for p in range(case['procs']) for k in range(per)]
        mon.check(sorted(got) == sorted(want), 'processes-once', 'entries of the processes',
                  missing=sorted(set(want) - set(got))[:5], state=tuple(got))
        for p in range(case['procs']):
            mine = [g for g in got if g.startswith('p-%d-' % p)]
            mon.equal(mine, ['p-%d-%d' % (p, k) for k in range(per)], 'program-order',
                      'entries of a process')
