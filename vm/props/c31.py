"""C31: pulse calibration schedules, IQ fitters and gate updates."""
import contextlib
import copy
import functools
import warnings

import numpy as np
from qiskit import QiskitError
from qiskit.pulse import Play, Acquire, ShiftPhase, Schedule, DriveChannel, ControlChannel, InstructionScheduleMap
from qiskit.pulse.schedule import ParameterizedSchedule
from qiskit.pulse import library as plib
from qiskit.qobj import QobjExperimentHeader
from qiskit.result.models import ExperimentResult, ExperimentResultData
from qiskit.ignis.characterization.calibrations import (
    rabi_schedules, drag_schedules, RabiFitter, DragFitter, get_single_q_pulse, update_u_gates)
from vm import sim

PROP = 'C31'
LEVEL = 'exploration'
RULE = ('random qubit lists, amplitudes, widths and sigmas; every schedule read instruction by '
        'instruction; IQ data along random lines of the plane, averaged or single shot, split over '
        'runs with unequal shots; random u2/u3 angles; a state is one distinct schedule or fit')
ASSUMPTIONS = ['IQ responses lie on a line; the fit starts near the true parameters',
               'the phase of a frame change -a stands for a rotation about Z by a']


def cases(rng, tier):
    n = 12 if tier == 'quick' else 400
    for _ in range(n):
        yield 'schedules', {'exp': 'rabi'}
        yield 'schedules', {'exp': 'drag'}
        yield 'gates', {}
        yield 'frames', {}
    for _ in range(3 * n):
        yield 'iq', {'exp': rng.choice(['rabi', 'drag']), 'ret': rng.choice(['avg', 'single']),
                     'num': rng.choice([1, 2, 3, 5]), 'runs': rng.choice([1, 2, 3])}
    for _ in range(n // 2):
        yield 'pulse', {}
        yield 'endtoend', {'exp': rng.choice(['rabi', 'drag'])}
    for _ in range(3):
        yield 'reject', {}


def required_events(tier):
    return ['drive-pulses', 'measurement', 'xdata', 'names', 'iq-signal', 'rabi-amplitude',
            'drag-amplitude', 'u2', 'u3', 'drag-parameters', 'rejected', 'map-unmodified',
            'end-to-end', 'single-shot', 'guess', 'other-qubits-unmodified', 'negative-slope',
            'frames', 'limits']


@functools.lru_cache(maxsize=1)
def backend():
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        from qiskit.test.mock import FakeOpenPulse3Q
        dev = FakeOpenPulse3Q()
        return (dev.defaults().instruction_schedule_map, dev.configuration().meas_map,
                [dev.configuration().drive(i) for i in range(3)])


def gauss(width, amp, sigma, beta=0.0):
    """Zero-ended gaussian with a derivative part, sampled at the midpoints."""
    t = np.arange(width) + .5
    c = width / 2
    g = np.exp(-(t - c) ** 2 / 2 / sigma ** 2)
    edge = np.exp(-(-1 - c) ** 2 / 2 / sigma ** 2)
    out = amp * (g - edge) / (1 - edge)
    deriv = -(t - c) / sigma ** 2 * out
    return out + 1j * beta * deriv


def case_schedules(mon, case):
    rng = np.random.default_rng(case['seed'])
    imap, mmap, drives = backend()
    qubits = [int(q) for q in rng.permutation(3)[:int(rng.integers(1, 4))]]
    width = int(rng.integers(4, 30)) * 4
    sigma = None
    ratio = 4
    kw = {}
    if rng.random() < .5:
        sigma = width / float(rng.uniform(3, 8))
        kw['pulse_sigma'] = sigma
    elif rng.random() < .5:
        ratio = int(rng.integers(3, 7))
        kw['width_sigma_ratio'] = ratio
    use = sigma if sigma is not None else width / ratio
    vals = [float(v) for v in rng.uniform(-.9, .9, size=int(rng.integers(1, 6 if rng.random() < .8 else 14)))]
    before = sorted(map(str, imap.instructions))
    amps = [float(v) for v in rng.uniform(.05, .5, size=len(qubits))]
    if rng.random() < .3:
        amps = [a * float(rng.choice([-1, 1])) for a in amps]
    if case['exp'] == 'rabi':
        scheds, xdata = rabi_schedules(vals, qubits, width, drives=drives, inst_map=imap,
                                       meas_map=mmap, **kw)
    else:
        scheds, xdata = drag_schedules(vals, qubits, amps, width, drives=drives, inst_map=imap,
                                       meas_map=mmap, **kw)
    mon.close(xdata, vals, 'xdata', 'values of the scan')
    mon.equal([s.name for s in scheds], ['%ssched_%d_0' % (case['exp'], i)
                                         for i in range(len(vals))], 'names', 'schedule names')
    reps = 1 if case['exp'] == 'rabi' else 2
    for val, sched in zip(vals, scheds):
        plays, acq, meas = {}, {}, {}
        for t, inst in sched.instructions:
            if isinstance(inst, Play) and isinstance(inst.channel, DriveChannel):
                plays.setdefault(inst.channel.index, []).append((t, samples(inst.pulse)))
            elif isinstance(inst, Acquire):
                acq[inst.channel.index] = (t, inst.mem_slot.index)
            elif isinstance(inst, Play):
                meas[inst.channel.index] = t
        mon.equal(sorted(plays), sorted(qubits), 'drive-pulses', 'driven qubits')
        for q in plays:
            a = val if reps == 1 else amps[qubits.index(q)]
            b = 0.0 if reps == 1 else val
            want = [(k * width, s * gauss(width, a, use, b))
                    for k, s in zip(range(reps), (1, -1))]
            mon.equal([t for t, _ in plays[q]], [t for t, _ in want], 'drive-pulses',
                      'times of the pulses')
            for (_, got), (_, w) in zip(plays[q], want):
                mon.close(got, w, 'drive-pulses', 'samples of the pulse', atol=1e-6)
        mon.equal({q: s for q, (_, s) in acq.items()}, {q: i for i, q in enumerate(qubits)},
                  'measurement', 'memory slots of the qubits')
        mon.check(all(t == reps * width for t, _ in acq.values()) and
                  all(t == reps * width for t in meas.values()), 'measurement',
                  'measurement does not start after the pulses', got=(acq, meas))
        mon.equal(sorted(meas), sorted(qubits), 'measurement', 'measured qubits')
    mon.equal(sorted(map(str, imap.instructions)), before, 'map-unmodified', 'map changed')


def samples(pulse):
    if hasattr(pulse, 'get_waveform'):
        pulse = pulse.get_waveform()
    return np.asarray(pulse.samples)


def iq_exp(name, mem, ret, shots):
    """mem: complex array [slots] or [shots, slots]."""
    mem = np.asarray(mem)
    header = QobjExperimentHeader(name=name, memory_slots=mem.shape[-1])
    data = np.stack([mem.real, mem.imag], axis=-1).tolist()
    return ExperimentResult(shots=shots, success=True, meas_level=1, meas_return=ret,
                            data=ExperimentResultData(memory=data), header=header)


def case_iq(mon, case):
    rng = np.random.default_rng(case['seed'])
    num, ret, exp = case['num'], case['ret'], case['exp']
    qubits = [int(q) for q in rng.choice(15, size=num, replace=False)]
    npts = int(rng.integers(21, 40))
    if exp == 'rabi':
        xdata = np.linspace(-.8, .8, npts)
        first = [1.0, float(rng.uniform(1.5, 3)), float(rng.uniform(-.2, .2)), 0.0]
    else:
        xdata = np.linspace(-4, 4, npts)
        first = [float(rng.uniform(.1, .3)), float(rng.uniform(-1.5, 1.5)), 0.0]
    lines = []
    small = 1e-2 if rng.random() < .2 else 1.0
    for i in range(num):
        ang = float(rng.uniform(-np.pi, np.pi))
        u = np.exp(1j * ang)
        if np.sin(ang) * np.cos(ang) < -.05:
            mon.saw('negative-slope')
        lines.append((complex(rng.normal(), rng.normal()) * 3, u * small * float(rng.uniform(.5, 5))))
    pars = [[v * (1 + .03 * rng.uniform(-1, 1)) for v in first] for _ in range(num)]

    def signal(i, x):
        p = pars[i]
        if exp == 'rabi':
            return p[0] * np.cos(2 * np.pi * p[1] * x + p[2])
        return p[0] * (x - p[1]) ** 2
    runs = []
    for _ in range(case['runs']):
        shots = int(rng.integers(4, 60))
        exps = []
        for k in range(npts):
            point = np.array([lines[i][0] + lines[i][1] * signal(i, xdata[k])
                              for i in range(num)])
            if ret == 'single':
                noise = np.array([[lines[i][1] * rng.normal() * .01 for i in range(num)]
                                  for _ in range(shots)])
                mem = point + noise - noise.mean(axis=0)
                mon.saw('single-shot')
            else:
                mem = point
            exps.append((k, mem, shots))
        runs.append(exps)
    results = []
    pooled = np.zeros((npts, num), dtype=complex)
    weight = np.zeros(npts)
    for exps in runs:
        chunk = []
        for k, mem, shots in exps:
            chunk.append(iq_exp('%ssched_%d_0' % (exp, k), mem, ret, shots))
            pooled[k] += mem.sum(axis=0) if ret == 'single' else mem * shots
            weight[k] += shots
        results.append(sim.result([chunk[int(i)] for i in rng.permutation(len(chunk))]))
    pooled /= weight[:, None]
    cls = RabiFitter if exp == 'rabi' else DragFitter
    scale = max(abs(u) for _, u in lines)
    p0 = [first[0] * scale] + first[1:]
    if rng.random() < .5 or len(results) == 1:
        fit = cls(results if len(results) > 1 else results[0], xdata, qubits, p0)
    else:
        fit = cls(results[0], xdata, qubits, p0)
        fit.add_data(results[1:])
    for i in range(num):
        got = np.asarray(fit.ydata['0'][i]['mean'])
        want = pooled[:, i] - pooled[:, i].mean()
        size = np.abs(want)
        mon.check(got.shape == want.shape and bool(np.all(np.isreal(got))), 'iq-signal',
                  'signal is not a list of reals')
        mon.close(np.abs(got), size, 'iq-signal', 'projection loses signal',
                  atol=1e-6 * size.max() + 1e-9)
        # relative signs follow the line
        ref = int(np.argmax(size))
        rel = np.real(want * np.conj(want[ref])) / size[ref]
        mon.close(got * np.sign(got[ref]), rel, 'iq-signal', 'signal along the line',
                  atol=1e-6 * size.max() + 1e-9)
        start = [p0[0] * abs(lines[i][1]) / scale * (1 if got[ref] * (want[ref] / lines[i][1]).real
                                                     >= 0 else -1)] + p0[1:]
        start[-1] = float(got.mean())
        if exp == 'drag':
            start[-1] = float(got[np.argmin(np.abs(xdata - start[1]))])
        fit.fit_data(qid=i, p0=start)
        guess = fit.guess_params(i)
        mon.equal(len(guess), len(first), 'guess', 'number of guessed parameters')
    low, high = [-1e3] * len(first), [1e3] * len(first)
    high[1] = float(min(p[1] for p in pars)) - .2
    with contextlib.suppress(RuntimeError):
        tight = cls(results, xdata, qubits, [p0[0], high[1] - .1] + p0[2:], fit_bounds=(low, high))
        for i in range(num):
            got = np.asarray(tight.params['0'][i])
            mon.check(np.all(got >= np.array(low) - 1e-9) and np.all(got <= np.array(high) + 1e-9), 'limits',
                      'fitted parameter outside the requested bounds', got=got, high=high, state=exp)
    if exp == 'rabi':
        true = np.array([1 / (2 * p[1]) for p in pars])
        got = np.abs(fit.pi_amplitude())
        mon.close(got, true, 'rabi-amplitude', 'pi amplitudes', rtol=2e-2, atol=0)
        mon.close(fit.pi2_amplitude(), np.asarray(fit.pi_amplitude()) / 2, 'rabi-amplitude',
                  'pi/2 amplitude')
        mon.close([fit.pi_amplitude(i) for i in range(num)], fit.pi_amplitude(), 'rabi-amplitude',
                  'pi amplitude of one qubit')
        mon.close([fit.pi2_amplitude(i) for i in range(num)], fit.pi2_amplitude(), 'rabi-amplitude',
                  'pi/2 amplitude of one qubit')
    else:
        true = np.array([p[1] for p in pars])
        mon.close(fit.drag_amplitude(), true, 'drag-amplitude', 'drag amplitudes', atol=2e-2)
        mon.close([fit.drag_amplitude(i) for i in range(num)], fit.drag_amplitude(), 'drag-amplitude',
                  'drag amplitude of one qubit')
        mon.close([fit.drag_amplitude(i) for i in range(num)], fit.drag_amplitude(),
                  'drag-amplitude', 'drag amplitude of one qubit')


def case_endtoend(mon, case):
    """Data recorded as the schedules say, fitted for the listed qubits."""
    rng = np.random.default_rng(case['seed'])
    imap, mmap, drives = backend()
    qubits = [int(q) for q in rng.permutation(3)[:int(rng.integers(1, 3))]]
    exp = case['exp']
    npts = 25
    if exp == 'rabi':
        vals = np.linspace(-.8, .8, npts)
        scheds, xdata = rabi_schedules(list(vals), qubits, 16, drives=drives, inst_map=imap,
                                       meas_map=mmap)
        par = {q: 1.5 + .5 * q for q in range(3)}
    else:
        vals = np.linspace(-4, 4, npts)
        scheds, xdata = drag_schedules(list(vals), qubits, [.2] * len(qubits), 16, drives=drives,
                                       inst_map=imap, meas_map=mmap)
        par = {q: -1 + q for q in range(3)}
    exps = []
    for x, sched in zip(vals, scheds):
        mem = np.zeros(3, dtype=complex)
        for _, inst in sched.instructions:
            if isinstance(inst, Acquire):
                q = inst.channel.index
                mem[inst.mem_slot.index] = (2 + 1j) * (
                    np.cos(2 * np.pi * par[q] * x) if exp == 'rabi' else .2 * (x - par[q]) ** 2)
        exps.append(iq_exp(sched.name, mem, 'avg', 100))
    res = sim.result(exps)
    if exp == 'rabi':
        fit = RabiFitter(res, np.asarray(xdata), qubits, [2.2, par[qubits[0]], 0, 0])
        for i, q in enumerate(qubits):
            fit.fit_data(qid=i, p0=[2.2, par[q] * 1.01, 0, 0])
        mon.close(np.abs(fit.pi_amplitude()), [1 / (2 * par[q]) for q in qubits], 'end-to-end',
                  'pi amplitudes of the listed qubits', rtol=2e-2)
    else:
        fit = DragFitter(res, np.asarray(xdata), qubits, [.4, 0.1, -1])
        mon.close(fit.drag_amplitude(), [par[q] for q in qubits], 'end-to-end',
                  'drag amplitudes of the listed qubits', atol=2e-2)


def zrot(a):
    return np.diag([np.exp(-.5j * a), np.exp(.5j * a)])


def unitary(sched, chan, x90):
    """Ideal action of frame changes and X90 pulses on one drive channel."""
    out = np.eye(2)
    events = sorted(((t, 0 if isinstance(i, ShiftPhase) else 1, n, i)
                     for n, (t, i) in enumerate(sched.instructions)), key=lambda e: e[:3])
    for _, _, _, inst in events:
        if chan not in inst.channels:
            continue
        if isinstance(inst, ShiftPhase):
            out = zrot(-float(inst.phase)) @ out
        elif isinstance(inst, Play):
            if not np.allclose(samples(inst.pulse), x90, atol=1e-9):
                return None
            out = np.array([[1, -1j], [-1j, 1]]) / np.sqrt(2) @ out
    return out


def same(a, b):
    return a is not None and abs(abs(np.trace(a.conj().T @ b)) - 2) < 1e-6


def case_gates(mon, case):
    rng = np.random.default_rng(case['seed'])
    imap, _, drives = backend()
    imap = copy.deepcopy(imap)
    qubits = [int(q) for q in rng.permutation(3)[:int(rng.integers(1, 3))]]
    params = [{'amp': float(rng.uniform(.05, .4)), 'duration': int(rng.integers(2, 12)) * 4,
               'sigma': float(rng.uniform(3, 9)), 'beta': float(rng.uniform(-1, 1))}
              for _ in range(3)]
    other = [q for q in range(3) if q not in qubits][0]
    angle = {'P0': .3, 'P1': .4}
    old = imap.get('u2', other, **angle)
    own = rng.random() < .5
    keep = copy.deepcopy(params)
    kw = {}
    if own:
        kw['pi2_pulse_schedules'] = []
        for q in range(3):
            s = Schedule()
            s += Play(plib.drag(**params[q]), drives[q])
            kw['pi2_pulse_schedules'].append(s)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        update_u_gates(params if not own or rng.random() < .5 else None, qubits=qubits,
                       inst_map=imap, drives=drives, **kw)
        mon.equal(params, keep, 'map-unmodified', 'parameters changed')
        for q in qubits:
            x90 = gauss(params[q]['duration'], params[q]['amp'], params[q]['sigma'],
                        params[q]['beta'])
            for _ in range(3):
                th, ph, la = [float(v) for v in rng.uniform(-np.pi, np.pi, size=3)]
                u2 = np.array([[1, -np.exp(1j * la)],
                               [np.exp(1j * ph), np.exp(1j * (ph + la))]]) / np.sqrt(2)
                got = unitary(imap.get('u2', q, P0=ph, P1=la), drives[q], x90)
                mon.check(same(got, u2), 'u2', 'u2 of the updated schedule', got=got, want=u2,
                          state=(q, ph, la))
                u3 = np.array([[np.cos(th / 2), -np.exp(1j * la) * np.sin(th / 2)],
                               [np.exp(1j * ph) * np.sin(th / 2),
                                np.exp(1j * (ph + la)) * np.cos(th / 2)]])
                s3 = imap.get('u3', q, P0=th, P1=ph, P2=la)
                got = unitary(s3, drives[q], x90)
                mon.check(same(got, u3), 'u3', 'u3 of the updated schedule', got=got, want=u3,
                          state=(q, th, ph, la))
                mon.equal(s3.duration, 2 * params[q]['duration'], 'u3', 'duration of u3')
    mon.equal(imap.get('u2', other, **angle), old, 'other-qubits-unmodified',
              'gates of another qubit changed')


def framed(drive, wave, groups, phases):
    """Gate with phase shifts phases (parameter, offset) around pulses, on grouped channels."""
    def build(**kw):
        s = Schedule()
        t = 0
        for k, (par, off) in enumerate(phases):
            for ch in groups:
                s |= ShiftPhase(-kw[par] + off, ch).shift(t)
            if k + 1 < len(phases):
                s |= Play(plib.Waveform(wave), drive).shift(t)
                t += len(wave)
        return s
    return build


def case_frames(mon, case):
    """Channels that shared the frame of the drive channel still do after the update."""
    rng = np.random.default_rng(case['seed'])
    imap = InstructionScheduleMap()
    drives = [DriveChannel(q) for q in range(3)]
    wave = gauss(16, .1, 4)
    groups = {}
    for q in range(3):
        for gate, par in (('u2', ['P1', 'P0']), ('u3', ['P2', 'P0', 'P1'])):
            extra = [ControlChannel(int(c)) for c in
                     rng.choice(5, size=int(rng.integers(0, 3)), replace=False)]
            chans = [drives[q]] + extra
            chans = [chans[int(i)] for i in rng.permutation(len(chans))]
            groups[gate, q] = chans
            offs = [.5 * np.pi, -.5 * np.pi] if gate == 'u2' else [0, -np.pi, np.pi]
            fun = framed(drives[q], wave, chans, list(zip(par, offs)))
            imap.add(gate, q, ParameterizedSchedule(
                fun, parameters=['P0', 'P1'] if gate == 'u2' else ['P0', 'P1', 'P2']))
    qubits = [int(q) for q in rng.permutation(3)[:int(rng.integers(1, 4))]]
    params = [{'amp': float(rng.uniform(.05, .4)), 'duration': int(rng.integers(2, 12)) * 4,
               'sigma': float(rng.uniform(3, 9)), 'beta': float(rng.uniform(-1, 1))}
              for _ in range(3)]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        update_u_gates(params, qubits=qubits, inst_map=imap, drives=drives)
        for q in qubits:
            for gate in ('u2', 'u3'):
                kw = {p: float(rng.uniform(-3, 3)) for p in ('P0', 'P1', 'P2')[:int(gate[1])]}
                seen = {}
                for t, inst in imap.get(gate, q, **kw).instructions:
                    if isinstance(inst, ShiftPhase):
                        seen.setdefault(inst.channel, []).append((t, round(float(inst.phase), 9)))
                mon.equal(set(seen), set(groups[gate, q]), 'frames', 'channels of the frame', gate=gate)
                mon.check(all(sorted(v) == sorted(seen.get(drives[q], [])) for v in seen.values()),
                          'frames', 'channels of one frame are shifted differently', gate=gate,
                          got=seen, state=(gate, q, len(seen)))


def u2_builder(wave, q):
    def build(P0, P1):
        s = Schedule()
        s += ShiftPhase(-P1, DriveChannel(q))
        s += Play(plib.Waveform(wave), DriveChannel(q))
        s += ShiftPhase(-P0, DriveChannel(q))
        return s
    return build


def case_pulse(mon, case):
    rng = np.random.default_rng(case['seed'])
    imap = InstructionScheduleMap()
    true = {}
    for q in range(3):
        p = {'amp': float(rng.uniform(.05, .4)), 'duration': int(rng.integers(5, 14)) * 8,
             'beta': float(rng.uniform(-1, 1))}
        p['sigma'] = p['duration'] / float(rng.uniform(3.5, 5))
        true[q] = p
        wave = gauss(p['duration'], p['amp'], p['sigma'], p['beta']) * np.exp(-.5j * np.pi)
        imap.add('u2', q, u2_builder(wave, q))
    qubits = [int(q) for q in rng.permutation(3)[:int(rng.integers(1, 4))]]
    got = get_single_q_pulse(imap, qubits)
    mon.equal(len(got), len(qubits), 'drag-parameters', 'number of pulses')
    for g, q in zip(got, qubits):
        p = true[q]
        mon.equal(int(g['duration']), p['duration'], 'drag-parameters', 'duration')
        mon.close([g['amp'], g['sigma'] / p['sigma'], g['beta']], [p['amp'], 1, p['beta']],
                  'drag-parameters', 'parameters of the pulse', atol=1e-3, rtol=1e-3)


def case_reject(mon, case):
    imap, mmap, drives = backend()
    mon.raises(QiskitError, lambda: rabi_schedules([.1], [0], 16, drives=drives, meas_map=mmap),
               'rejected', 'missing instruction map accepted')
    mon.raises(QiskitError, lambda: rabi_schedules([.1], [0], 16, drives=drives, inst_map=imap),
               'rejected', 'missing measurement map accepted')
    mon.raises(QiskitError, lambda: drag_schedules([.1], [0], [.1], 16, drives=drives,
                                                   meas_map=mmap), 'rejected',
               'missing instruction map accepted')
    mon.raises(QiskitError, lambda: drag_schedules([.1], [0], [.1], 16, drives=drives,
                                                   inst_map=imap), 'rejected',
               'missing measurement map accepted')
    xdata = np.linspace(-1, 1, 5)
    level2 = sim.result([sim.exp_result('rabisched_%d_0' % i, {'0': 5}, [['c', 1]])
                         for i in range(5)])
    for entry in level2.results:
        entry.meas_return = 'avg'
    mon.raises(QiskitError, lambda: RabiFitter(level2, xdata, [0], [1, 1, 0, 0]), 'rejected',
               'counts accepted as IQ data')
    mixed = sim.result([iq_exp('rabisched_%d_0' % i, [1 + i * 1j] if i else [[1 + 1j]] * 5,
                               'avg' if i else 'single', 5) for i in range(5)])
    mon.raises(QiskitError, lambda: RabiFitter(mixed, xdata, [0], [1, 1, 0, 0]), 'rejected',
               'mixed data accepted')
    # the same kinds of data mixed over several results
    apart = [sim.result([e]) for e in mixed.results]
    for order in (apart, apart[::-1], [sim.result(mixed.results[1:]), sim.result(mixed.results[:1])]):
        mon.raises(QiskitError, lambda: RabiFitter(order, xdata, [0], [1, 1, 0, 0]), 'rejected',
                   'data mixed over results accepted')
