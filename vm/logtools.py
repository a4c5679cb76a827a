"""Run a logging workload in a forked child with its own home, and record events."""
import logging
import logging.handlers
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback


class Hang(Exception):
    """The child did not end in time."""


class Sandbox:
    """Scratch home and working directory of a case."""

    def __init__(self):
        self.root = tempfile.mkdtemp(prefix='vmlog_')
        self.home = os.path.join(self.root, 'home')
        self.work = os.path.join(self.root, 'work')
        os.makedirs(os.path.join(self.home, '.qiskit'))
        os.makedirs(self.work)
        self.config_path = os.path.join(self.home, '.qiskit', 'logging.yaml')
        self.count = 0

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        shutil.rmtree(self.root, ignore_errors=True)

    def write_config(self, text):
        with open(self.config_path, 'w') as fd:
            fd.write(text)

    def start(self, func, *args):
        """Fork a child that runs func(*args); the value is read by finish()."""
        self.count += 1
        out = os.path.join(self.root, 'out%d' % self.count)
        err = os.path.join(self.root, 'err%d' % self.count)
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.environ['HOME'] = self.home
                os.chdir(self.work)
                fd = os.open(err, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o600)
                os.dup2(fd, 2)
                sys.stderr = os.fdopen(os.dup(2), 'w', buffering=1)
                logging.disable(logging.NOTSET)
                logging.lastResort = getattr(logging, '_defaultLastResort', logging.lastResort)
                try:
                    val = ('ok', func(*args))
                except BaseException:  # pylint: disable=broad-except
                    val = ('error', traceback.format_exc())
                sys.stderr.flush()
                with open(out + '.tmp', 'wb') as fdo:
                    pickle.dump(val, fdo)
                os.rename(out + '.tmp', out)
            finally:
                os._exit(0)
        return pid, out, err

    def finish(self, handle, timeout=60):
        pid, out, err = handle
        end = time.time() + timeout
        while True:
            got, _ = os.waitpid(pid, os.WNOHANG)
            if got:
                break
            if time.time() > end:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                raise Hang('child still running after %ds' % timeout)
            time.sleep(.001)
        console = ''
        if os.path.exists(err):
            with open(err, errors='replace') as fd:
                console = fd.read()
        if not os.path.exists(out):
            return 'killed', None, console
        with open(out, 'rb') as fd:
            kind, val = pickle.load(fd)
        return kind, val, console

    def run(self, func, *args, timeout=60):
        return self.finish(self.start(func, *args), timeout)


def rotation_files(path):
    """Existing files of the log, oldest first."""
    folder, base = os.path.split(path)
    nums = []
    for name in os.listdir(folder):
        tail = name[len(base) + 1:]
        if name == base:
            nums.append(0)
        elif name.startswith(base + '.') and tail.isdigit():
            nums.append(int(tail))
    return ['%s.%d' % (path, k) if k else path for k in sorted(nums, reverse=True)]


def jitter(seed, scale):
    """Random tiny delays inside the logging machinery of this (child) process."""
    import random
    rnd = random.Random(seed)

    def slow(cls, name):
        real = cls.__dict__.get(name)
        if real is None:
            return

        def wrapped(*args, **kwargs):
            r = rnd.random()
            if r < .3:
                time.sleep(r * scale)
            try:
                return real(*args, **kwargs)
            finally:
                r = rnd.random()
                if r < .3:
                    time.sleep(r * scale)
        setattr(cls, name, wrapped)

    for cls, names in ((logging.Logger, ['addHandler', 'removeHandler', 'callHandlers', 'handle',
                                         'makeRecord']),
                       (logging.Handler, ['handle', 'format']),
                       (logging.FileHandler, ['emit', '_open']),
                       (logging.handlers.RotatingFileHandler, ['shouldRollover', 'doRollover'])):
        for name in names:
            slow(cls, name)
    sys.setswitchinterval(1e-5)
