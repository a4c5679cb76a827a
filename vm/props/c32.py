"""C32: measurement level 1 discriminators and the discrimination filter."""
import copy
import itertools

import numpy as np
from qiskit import QiskitError
from qiskit.pulse import Schedule
from qiskit.result import Result
from qiskit.ignis.measurement.discriminator.filters import DiscriminationFilter
from qiskit.ignis.measurement.discriminator.iq_discriminators import (
    LinearIQDiscriminator, QuadraticIQDiscriminator, SklearnIQDiscriminator)

PROP = 'C32'
LEVEL = 'exploration'
RULE = ('random IQ clusters of 1 to 3 measured qubits with 2 or 3 levels, random masks, shot numbers '
        'that differ between experiments, single-shot and averaged data, one or several results, '
        'schedules by name or object, random histories of add_data; a recording classifier logs '
        'every training set and every point it is asked to classify')
ASSUMPTIONS = ['experiments of one calibration result have distinct names',
               'clusters of different states are separated by many standard deviations where a label '
               'is compared with the true state']


def cases(rng, tier):
    n = 40 if tier == 'quick' else 600
    for _ in range(n):
        yield 'train', {'how': rng.choice(['default', 'names', 'objects']),
                        'results': rng.choice([1, 1, 2, 3]), 'avg': rng.random() < .2}
        yield 'history', {'steps': rng.choice([1, 2, 3, 4])}
        yield 'filter', {'ret': rng.choice(['single', 'single', 'avg']),
                         'std': rng.random() < .5, 'kindof': rng.choice(['spy', 'lda', 'qda'])}
        yield 'filter', {'ret': 'single', 'std': rng.random() < .5, 'kindof': 'spy'}
    for _ in range(n // 2):
        yield 'count', {}
        yield 'types', {}
        yield 'clusters', {'kindof': rng.choice(['lda', 'qda', 'svc']), 'std': rng.random() < .5}
    for _ in range(3):
        yield 'reject', {}


def required_events(tier):
    return ['training-set', 'training-labels', 'features', 'labels-align', 'added-data-kept',
            'caller-list', 'filter-memory', 'filter-counts', 'filter-input', 'filter-points',
            'filter-level', 'filter-list', 'base', 'count', 'schedule-types', 'clusters', 'rejected',
            'mask-ignored', 'expected-states', 'first-result', 'repeated-names', 'averaged', 'level-once']


class Spy:
    """Nearest-centroid classifier that logs what it is given."""

    def __init__(self):
        self.fits = []
        self.asked = []

    def fit(self, x, y):
        x = np.array(x, dtype=float)
        y = np.array(y)
        self.fits.append((x, y))
        self.labels = sorted(set(y))
        self.cents = np.array([x[y == lab].mean(axis=0) for lab in self.labels])
        return self

    def predict(self, x):
        x = np.array(x, dtype=float)
        self.asked.append(x)
        return self.nearest(x)

    def nearest(self, x):
        dist = ((x[:, None, :] - self.cents[None]) ** 2).sum(axis=2)
        return np.array([self.labels[k] for k in dist.argmin(axis=1)])


def make_result(exps, ret='single'):
    """exps: list of (name, complex array (shots, slots) or (slots,))."""
    out = []
    for name, arr, level in exps:
        if level == 1:
            mem = np.stack([arr.real, arr.imag], axis=-1).tolist()
            dat = {'memory': mem}
        else:
            dat = {'counts': {'0x0': 3, '0x1': 4}}
        out.append({'header': {'name': name, 'memory_slots': int(arr.shape[-1])},
                    'shots': int(arr.shape[0]) if ret == 'single' else 1000,
                    'status': 'DONE', 'success': True, 'meas_level': level,
                    'meas_return': ret, 'data': dat})
    return Result.from_dict({'job_id': 'j', 'backend_version': '1', 'backend_name': 'b',
                             'qobj_id': 'q', 'success': True, 'results': out})


class Device:
    """Random IQ response of some memory slots."""

    def __init__(self, rng):
        self.rng = rng
        self.slots = int(rng.integers(1, 4))
        self.levels = int(rng.choice([2, 2, 3]))
        if rng.random() < .15:      # high slots, few levels
            self.slots = int(rng.integers(4, 13))
            self.levels = 2
        size = int(rng.integers(1, min(self.slots, 5) + 1))
        self.mask = [int(q) for q in rng.permutation(self.slots)[:size]]
        if rng.random() < .5:
            self.mask = sorted(self.mask)
        self.cent = np.zeros((self.slots, self.levels), dtype=complex)
        for q in range(self.slots):
            base = rng.normal() + 1j * rng.normal()
            ang = rng.uniform(0, 2 * np.pi)
            for lev in range(self.levels):
                self.cent[q, lev] = base + 6 * np.exp(1j * (ang + lev * 2 * np.pi / self.levels))
        self.states = [''.join(s) for s in
                       itertools.product('012'[:self.levels], repeat=len(self.mask))]

    def shots(self, state, num):
        """IQ points: masked slots hold the state, the others anything."""
        rng = self.rng
        out = 30 * (rng.normal(size=(num, self.slots)) + 1j * rng.normal(size=(num, self.slots)))
        for q, lev in zip(self.mask, state):
            out[:, q] = self.cent[q, int(lev)] + .3 * (rng.normal(size=num) + 1j * rng.normal(size=num))
        return out

    def feats(self, arr):
        """What the classifier has to see for this array."""
        arr = np.atleast_2d(arr)[:, self.mask]
        return np.concatenate([arr.real, arr.imag], axis=1)


def feats_of(dev, blocks):
    return np.concatenate([dev.feats(b) for b in blocks]) if blocks else np.zeros((0, 0))


def standard(x, ref):
    """Zero mean, unit variance with respect to ref."""
    dev = ref.std(axis=0)
    dev[dev == 0] = 1
    return (x - ref.mean(axis=0)) / dev


def case_train(mon, case):
    rng = np.random.default_rng(case['seed'])
    dev = Device(rng)
    avg = case['avg']
    names = [dev.states[int(k)] for k in rng.permutation(len(dev.states))]
    names = names[:max(2, int(rng.integers(2, 8)))]
    custom = case['how'] != 'default' and rng.random() < .6
    labels = {s: s for s in names}
    if custom:
        extra = ['s%d' % k for k in range(len(names))]
        calname = dict(zip(names, extra))
        if rng.random() < .3 and len(names) > 2:
            labels[names[1]] = labels[names[0]]
    else:
        calname = {s: 'cal_' + s for s in names}
    data = {s: dev.shots(s, int(rng.integers(3, 9))) for s in names}
    if avg:
        data = {s: a.mean(axis=0) for s, a in data.items()}
    slots = dev.slots
    groups = [[] for _ in range(case['results'])]
    for s in names:
        groups[int(rng.integers(len(groups)))].append(s)
    groups = [g for g in groups if g]
    results = []
    for g in groups:
        exps = [(calname[s], data[s], 1) for s in g]
        for k in range(int(rng.integers(0, 3))):
            arr = dev.shots(names[0], 4)
            exps.insert(int(rng.integers(len(exps) + 1)),
                        ('job_%d' % k, arr.mean(axis=0) if avg else arr, 1))
        results.append(make_result(exps, 'avg' if avg else 'single'))
    order = [s for g in groups for s in g]
    kw = {}
    passed = None
    if case['how'] != 'default':
        order = [order[int(k)] for k in rng.permutation(len(order))]
        order = order[:int(rng.integers(2, len(order) + 1))]
        passed = [Schedule(name=calname[s]) if case['how'] == 'objects' else calname[s]
                  for s in order]
        kw['schedules'] = passed
    if custom:
        kw['expected_states'] = [labels[s] for s in order]
    overlap = False
    if len(results) > 1 and passed is not None and rng.random() < .5:
        # an experiment of the same name in a later result: the first one counts
        dup = make_result([(calname[order[0]],
                            dev.shots(order[-1], 5) if not avg
                            else dev.shots(order[-1], 5).mean(axis=0), 1)],
                          'avg' if avg else 'single')
        results.append(dup)
        overlap = True
    std = bool(rng.random() < .4)
    if len({labels[s] for s in order}) < 2:
        return
    spy = Spy()
    disc = SklearnIQDiscriminator(spy, results if len(results) > 1 or rng.random() < .5 else results[0],
                                  dev.mask, standardize=std, **kw)
    raw = feats_of(dev, [data[s] for s in order])
    want = standard(raw, raw) if std else raw
    ylab = [labels[s] for s in order for _ in range(len(np.atleast_2d(data[s])))]
    if not mon.check(len(spy.fits) >= 1, 'trained', 'the classifier was never trained', fatal=True):
        return
    x, y = spy.fits[-1]
    mon.check(len(x) == len(y), 'labels-align', 'training set has %d points, %d labels' % (len(x), len(y)))
    mon.close(x, want, 'training-set', 'points the classifier is trained with', rtol=1e-6, atol=1e-6,
              slots=slots, mask=dev.mask)
    mon.equal(list(y), ylab, 'training-labels', 'labels of the training points')
    mon.equal({k: str(v) for k, v in disc.expected_states.items()},
              {calname[s]: labels[s] for s in order}, 'expected-states', 'states expected per schedule')
    mon.check(disc.fitted is True, 'fitted', 'discriminator says it is not fitted')
    if passed is not None:
        mon.equal([getattr(p, 'name', p) for p in disc.schedules], [calname[s] for s in order],
                  'schedules', 'schedules of the discriminator')
        mon.equal([getattr(p, 'name', p) for p in passed], [calname[s] for s in order], 'caller-list',
                  'list of schedules was modified')
    if overlap:
        mon.saw('first-result', state=(len(results), case['how']))
    if avg:
        mon.saw('averaged', state=(dev.slots, len(dev.mask)))
    if dev.slots > len(dev.mask):
        mon.saw('mask-ignored', state=(dev.slots, tuple(dev.mask)))
    # reading single schedules
    pick = order[int(rng.integers(len(order)))]
    key = Schedule(name=calname[pick]) if rng.random() < .5 else calname[pick]
    src = results if rng.random() < .5 else [r for r, g in zip(results, groups) if pick in g][0]
    got = np.array(disc.get_xdata(src, 0, [key]), dtype=float)
    ref = dev.feats(data[pick])
    mon.close(got, standard(ref, raw) if std else ref, 'features', 'features of one schedule',
              rtol=1e-6, atol=1e-6)
    got = list(disc.get_ydata(src, 0, [key]))
    mon.equal(got, [labels[pick]] * len(ref), 'labels-align', 'labels of one schedule')


def case_history(mon, case):
    """Training sets after a history of add_data."""
    rng = np.random.default_rng(case['seed'])
    dev = Device(rng)
    std = bool(rng.random() < .3)
    states = [dev.states[int(k)] for k in rng.permutation(len(dev.states))]
    first = states[:max(2, int(rng.integers(2, 6)))]
    blocks = [(s, dev.shots(s, int(rng.integers(3, 8)))) for s in first]
    res = make_result([('cal_' + s, a, 1) for s, a in blocks])
    given = None
    kw = {}
    if rng.random() < .5:
        given = ['cal_' + s for s in first]
        kw['schedules'] = given
    spy = Spy()
    empty = (not std) and rng.random() < .25
    if empty:
        blocks = []
        disc = SklearnIQDiscriminator(spy, [], dev.mask)
        mon.check(not spy.fits and not disc.fitted, 'unfitted', 'fitted without data')
    else:
        disc = SklearnIQDiscriminator(spy, res, dev.mask, standardize=std, **kw)
    raw = feats_of(dev, [a for _, a in blocks])
    scale = raw.copy()
    seen = [(s, a) for s, a in blocks]
    for step in range(case['steps']):
        num = int(rng.integers(1, 4))
        if empty and step == 0:
            num = max(2, num)
        same = rng.random() < .5
        pool = first if same else states
        if len(pool) < num:
            pool = states
        picks = [pool[int(k)] for k in rng.permutation(len(pool))[:num]]
        new = [(s, dev.shots(s, int(rng.integers(2, 7)))) for s in picks]
        fmt = 'cal_%s' if same or rng.random() < .5 else 'extra%d_%%s' % step
        again = step and rng.random() < .3
        if again:       # the very same data once more
            picks, new, fmt = last
            mon.saw('same-data-again')
        last = picks, new, fmt
        exps = [(fmt % s, a, 1) for s, a in new]
        exps.append(('other', dev.shots(states[0], 3), 1))
        add = old if again and rng.random() < .7 else make_result(exps)
        old = add
        keys = [fmt % s for s in picks]
        kws = {}
        mine = list(keys)
        if not fmt.startswith('cal_') or rng.random() < .5:
            kws['schedules'] = mine
        refit = bool(rng.random() < .75)
        before = len(spy.fits)
        disc.add_data(add, list(picks), refit=refit, **kws)
        seen += new
        mon.equal(mine, keys, 'caller-list', 'list of schedules given to add_data was modified')
        mon.equal(len(spy.fits), before + (1 if refit else 0), 'refit', 'trainings after add_data')
        if not refit:
            disc.fit()
        x, y = spy.fits[-1]
        want = feats_of(dev, [a for _, a in seen])
        if std:
            want = standard(want, scale)
            # a scaler trained again on all data is fine too
            again = standard(feats_of(dev, [a for _, a in seen]), feats_of(dev, [a for _, a in seen]))
            if x.shape == again.shape and np.allclose(x, again, rtol=1e-6, atol=1e-6):
                want = again
        lab = [s for s, a in seen for _ in range(len(a))]
        mon.check(x.shape == want.shape and np.allclose(x, want, rtol=1e-6, atol=1e-6),
                  'added-data-kept', 'training set after %d additions is not all the data' % (step + 1),
                  got=x.shape, want=want.shape, state=(x.shape, step, refit, same))
        mon.equal(list(y), lab, 'training-labels', 'labels after %d additions' % (step + 1))
    if given is not None:
        mon.equal(given, ['cal_' + s for s in first], 'caller-list',
                  'list of schedules given at construction was modified')


def build(kindof, dev, res, std):
    spy = Spy()
    if kindof == 'lda':
        return LinearIQDiscriminator(res, dev.mask, standardize=std), None
    if kindof == 'qda':
        return QuadraticIQDiscriminator(res, dev.mask, standardize=std), None
    if kindof == 'svc':
        from sklearn.svm import SVC
        return SklearnIQDiscriminator(SVC(C=10., kernel='rbf', gamma='scale'), res, dev.mask,
                                      standardize=std), None
    return SklearnIQDiscriminator(spy, res, dev.mask, standardize=std), spy


def case_filter(mon, case):
    rng = np.random.default_rng(case['seed'])
    dev = Device(rng)
    cal = make_result([('cal_' + s, dev.shots(s, 40), 1) for s in dev.states])
    disc, spy = build(case['kindof'], dev, cal, case['std'])
    base = None if rng.random() < .5 else dev.levels + int(rng.integers(0, 3))
    filt = DiscriminationFilter(disc, base) if base else DiscriminationFilter(disc)
    radix = base or dev.levels
    mon.equal(filt.base, radix, 'base', 'base of the filter')
    avg = case['ret'] == 'avg'
    outs = []
    for _ in range(int(rng.choice([1, 1, 2]))):
        exps, truth = [], []
        for k in range(int(rng.integers(1, 6))):
            if rng.random() < .15:
                exps.append(('lvl2_%d' % k, dev.shots(dev.states[0], 2), 2))
                continue
            num = int(rng.integers(1, 9)) if rng.random() < .95 else int(rng.integers(500, 1200))
            mix = [dev.states[int(j)] for j in rng.integers(len(dev.states), size=num)]
            if avg:
                mix = mix[:1]
                arr = dev.shots(mix[0], 6).mean(axis=0)
                for q in range(dev.slots):
                    if q in dev.mask:
                        continue
                    arr[q] = 3 * rng.normal()
            else:
                arr = np.concatenate([dev.shots(s, 1) for s in mix])
            name = ['exp_%d' % k, 'cal_%s' % dev.states[k % len(dev.states)]][int(rng.random() < .3)]
            exps.append((name, arr, 1))
            truth.append((name, arr, mix))
        if len(truth) > 1 and rng.random() < .3:
            i = [j for j, e in enumerate(exps) if e[2] == 1][0]
            j = [j for j, e in enumerate(exps) if e[2] == 1][-1]
            exps[j] = (exps[i][0], exps[j][1], 1)
            truth[-1] = (truth[0][0],) + truth[-1][1:]
            mon.saw('repeated-names', state=len(truth))
        if truth:
            outs.append((make_result(exps, case['ret']), truth))
    if not outs:
        return
    raw = [r for r, _ in outs]
    before = copy.deepcopy([r.to_dict() for r in raw])
    if len(raw) > 1:
        news = filt.apply(raw)
        mon.check(isinstance(news, list) and len(news) == len(raw), 'filter-list',
                  'filter of a list is not a list of as many results', state=len(raw))
    else:
        news = [filt.apply(raw[0])]
    mon.check(repr([r.to_dict() for r in raw]) == repr(before), 'filter-input',
              'filter changed the raw result', state=len(raw))
    # what the classifier says about the right points
    refer = reference(case['kindof'], dev, cal, dev.states, case['std'])
    outs = [(r, [(name, arr, refer(arr)) for name, arr, _ in truth]) for r, truth in outs]
    for new, (_, truth) in zip(news, outs):
        level1 = [e for e in new.results if not e.header.name.startswith('lvl2_')]
        if not mon.equal([e.header.name for e in level1], [t[0] for t in truth], 'filter-names',
                         'experiments of the filtered result'):
            continue
        for exp, (name, arr, mix) in zip(level1, truth):
            mon.equal(int(exp.meas_level), 2, 'filter-level', 'level of a filtered experiment')
            mem = [str(m) for m in exp.data.memory]
            mon.equal(mem, mix, 'filter-memory', 'label of each shot of %s' % name,
                      state=(tuple(mem), case['kindof']))
            want = {}
            for s in mix:
                val = 0
                for ch in s:
                    val = val * radix + int(ch)
                want[hex(val)] = want.get(hex(val), 0) + 1
            mon.equal({k: int(v) for k, v in dict(exp.data.counts).items()}, want, 'filter-counts',
                      'counts of %s' % name)
            if avg:
                mon.saw('averaged', state=(dev.slots, len(dev.mask)))
    if spy is not None:
        asked = np.concatenate(spy.asked)
        want = np.concatenate([dev.feats(arr) for _, t in outs for _, arr, _ in t])
        if case['std']:
            ref = spy_raw(dev, cal)
            want = standard(want, ref)
        mon.close(asked, want, 'filter-points', 'points the classifier is asked about', rtol=1e-6,
                  atol=1e-6)


def reference(kindof, dev, cal, states, std):
    """Labels of the same kind of classifier, trained here on the labelled points."""
    from sklearn.discriminant_analysis import LinearDiscriminantAnalysis
    from sklearn.discriminant_analysis import QuadraticDiscriminantAnalysis
    from sklearn.svm import SVC
    clf = {'spy': Spy, 'lda': LinearDiscriminantAnalysis, 'qda': QuadraticDiscriminantAnalysis,
           'svc': lambda: SVC(C=10., kernel='rbf', gamma='scale')}[kindof]()
    raw = spy_raw(dev, cal)
    labels = [s for k, s in enumerate(states) for _ in range(len(cal.get_memory(k)))]
    clf.fit(standard(raw, raw) if std else raw, labels)

    def label(arr):
        x = dev.feats(arr)
        return [str(v) for v in clf.predict(standard(x, raw) if std else x)]
    return label


def spy_raw(dev, cal):
    return np.concatenate([dev.feats(cal.get_memory(k)) for k in range(len(cal.results))])


def case_count(mon, case):
    rng = np.random.default_rng(case['seed'])
    top = int(rng.integers(2, 11))
    width = int(rng.integers(1, 6))
    pool = [''.join(str(int(v)) for v in rng.integers(0, top, size=width)) for _ in range(4)]
    if rng.random() < .5:
        pool.append(str(top - 1) * width)
    else:
        # the highest level on one qubit of one state only
        low = max(top - 1, 1)
        pool = [''.join(str(int(v)) for v in rng.integers(0, low, size=width)) for _ in range(4)]
        spot = int(rng.integers(width))
        one = [str(int(v)) for v in rng.integers(0, low, size=width)]
        one[spot] = str(top - 1)
        pool.insert(int(rng.integers(5)), ''.join(one))
        mon.saw('level-once', state=(top, width, spot))
    data = [pool[int(k)] for k in rng.integers(len(pool), size=int(rng.integers(0, 30)))]
    exp = {'e%d' % k: s for k, s in enumerate(pool)}
    mon.equal(DiscriminationFilter.get_base(exp), top, 'base', 'base of %r' % (pool,))
    fitter = LinearIQDiscriminator([], [], [])
    filt = DiscriminationFilter(fitter, top)
    want = {}
    for s in data:
        val = sum(int(ch) * top ** p for p, ch in enumerate(reversed(s)))
        want[val] = want.get(val, 0) + 1
    got = {int(k, 16): v for k, v in filt.count(data).items()}
    mon.equal(got, want, 'count', 'counts of discriminated labels')
    mon.equal({int(k, 16): v for k, v in filt.count(np.array(data, dtype=str)).items()}, want, 'count',
              'counts of an array of labels')


def case_types(mon, case):
    """Calibration data, other data, both."""
    rng = np.random.default_rng(case['seed'])
    dev = Device(rng)
    cal = make_result([('cal_' + s, dev.shots(s, 4), 1) for s in dev.states])
    disc, _ = build('spy', dev, cal, False)
    names = ['cal_0', 'cal_21', 'cal_01b', 'xcal_01', 'cal', 'cal_', 'job', 'cal_0110', 'cal_1 ',
             'Cal_0', 'cal_-1']
    iscal = {'cal_0', 'cal_21', 'cal_0110'}
    names = [names[int(k)] for k in rng.permutation(len(names))[:int(rng.integers(2, 8))]]
    data = {n: dev.shots(dev.states[0], int(rng.integers(1, 4))) for n in names}
    cut = int(rng.integers(0, len(names)))
    res = [make_result([(n, data[n], 1) for n in part]) for part in (names[:cut], names[cut:]) if part]
    for n in names:
        mon.equal(bool(disc.is_calibration(n)), n in iscal, 'is-calibration', 'name %r' % n)
    for typ in (0, 1, 2):
        keep = [n for n in names if typ == 2 or (n in iscal) == (typ == 0)]
        got = np.array(disc.get_xdata(res if len(res) > 1 or rng.random() < .5 else res[0], typ),
                       dtype=float)
        want = feats_of(dev, [data[n] for n in keep])
        mon.check((len(got) == 0 and not keep) or
                  (bool(keep) and got.shape == want.shape and np.allclose(got, want)),
                  'schedule-types', 'data of type %d' % typ, got=got.shape, want=want.shape,
                  state=(typ, tuple(keep)))
    mon.raises(QiskitError, lambda: disc.get_xdata(res, 3), 'rejected', 'type 3')


def case_clusters(mon, case):
    """Fresh points of separated clusters get the label of their state."""
    rng = np.random.default_rng(case['seed'])
    dev = Device(rng)
    cal = make_result([('cal_' + s, dev.shots(s, 40), 1) for s in dev.states])
    disc, _ = build(case['kindof'], dev, cal, case['std'])
    fresh = [(s, dev.shots(s, 3)) for s in dev.states]
    res = make_result([('f%d' % k, a, 1) for k, (_, a) in enumerate(fresh)])
    lab = [str(v) for v in disc.discriminate(disc.get_xdata(res, 1))]
    refer = reference(case['kindof'], dev, cal, dev.states, case['std'])
    want = refer(np.concatenate([a for _, a in fresh]))
    mon.equal(lab, want, 'clusters', 'labels of fresh points')
    if not case['std']:
        mon.equal(lab, [s for s, a in fresh for _ in range(3)], 'clusters', 'states of fresh points')
    lab = [str(v) for v in disc.discriminate(disc.get_xdata(cal, 0))]
    want = refer(np.concatenate([cal.get_memory(k) for k in range(len(dev.states))]))
    mon.equal(lab, want, 'clusters', 'labels of training points')


class NoFit:
    def predict(self, x):
        return x


class NoPredict:
    def fit(self, x, y):
        return self


def case_reject(mon, case):
    rng = np.random.default_rng(case['seed'])
    dev = Device(rng)
    cal = make_result([('cal_' + s, dev.shots(s, 4), 1) for s in dev.states])
    mon.raises(QiskitError, lambda: LinearIQDiscriminator(cal, dev.mask, ['0'] * (len(dev.states) + 1)),
               'rejected', 'more states than schedules')
    mon.raises(QiskitError, lambda: SklearnIQDiscriminator(NoFit(), cal, dev.mask), 'rejected', 'no fit')
    mon.raises(QiskitError, lambda: SklearnIQDiscriminator(NoPredict(), cal, dev.mask), 'rejected',
               'no predict')
    mon.raises(QiskitError, lambda: LinearIQDiscriminator([cal], dev.mask, ['0', '1'],
                                                          schedules=['cal_' + dev.states[0], 'nope']),
               'rejected', 'schedule without data')
    mon.raises(QiskitError, lambda: DiscriminationFilter.get_base({'a': '0x'}), 'rejected',
               'label that is not a number')
