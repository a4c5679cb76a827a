"""C37: plots show the data and the fits that the objects report."""
import re
import warnings

import numpy as np
import matplotlib
matplotlib.use('Agg')
from matplotlib import pyplot as plt  # noqa: E402
import qiskit.ignis.verification.randomized_benchmarking as rb  # noqa: E402
from qiskit import QiskitError  # noqa: E402
from qiskit.ignis.mitigation.measurement import CompleteMeasFitter, TensoredMeasFitter  # noqa: E402
from qiskit.ignis.mitigation.expval import (  # noqa: E402
    CompleteExpvalMeasMitigator, TensoredExpvalMeasMitigator, CTMPExpvalMeasMitigator)
from qiskit.ignis.verification.quantum_volume import QVFitter  # noqa: E402
from qiskit.ignis.verification.entanglement import analysis  # noqa: E402
from qiskit.ignis.characterization.calibrations import RabiFitter, DragFitter  # noqa: E402
from vm import sim  # noqa: E402
from vm.props import c19, c20, c23, c29, c30, c31, c32  # noqa: E402
from vm.purity import canon  # noqa: E402

if not hasattr(matplotlib.axis.Tick, 'label'):      # plot_histogram of terra 0.17 needs an older matplotlib
    matplotlib.axis.Tick.label = property(lambda self: self.label1)

PROP = 'C37'
LEVEL = 'exploration'
RULE = ('objects fitted to random data, plotted for random indices on own or given axes; a state is '
        'one distinct set of drawn artists')


def cases(rng, tier):
    n = 12 if tier == 'quick' else 400
    for _ in range(n):
        for exp in ('rb', 'interleaved', 'dihedral'):
            yield 'rb', {'exp': exp, 'spread': rng.choice([0.01, 0.02]), 'max_q': rng.choice([3, 4, 6])}
        yield 'purity', {'nq': rng.choice([1, 1, 2]), 'groups': rng.choice([1, 2])}
        yield 'calibration', {}
        yield 'matrix', {'method': rng.choice(['complete', 'tensored', 'ctmp'])}
        yield 'qv', {'trials': rng.choice([1, 2, 5, 11])}
        for exp in ('t1', 't2', 't2star', 'zz', 'cpmg'):
            yield 'times', {'exp': exp, 'num': rng.choice([1, 2, 3])}
        for exp in c30.MAKE:
            yield 'gates', {'exp': exp, 'num': rng.choice([1, 2, 3])}
        for exp in ('rabi', 'drag'):
            yield 'iq', {'exp': exp, 'num': rng.choice([1, 2, 3])}
        yield 'discriminator', {'how': rng.choice(['lda', 'qda', 'spy'])}
        yield 'parity', {'label': rng.choice(['mqc', 'po'])}


def required_events(tier):
    return ['rb-seeds', 'rb-mean', 'rb-fit', 'rb-label', 'purity-plot', 'calibration-matrix',
            'calibration-labels', 'mitigator-matrix', 'qv-probabilities', 'qv-trial', 'qv-cumulative',
            'data-points', 'error-bars', 'fit-curve', 'titles', 'characteristic-time', 'zz-plot',
            'amplitude-line', 'discriminator-points', 'discriminator-errors', 'discriminator-region',
            'discriminator-extra', 'parity-series', 'given-axes', 'own-figure', 'show', 'not-modified', 'rejected']


# -- what was drawn -----------------------------------------------------
def bar_lines(ax):
    out = set()
    for cont in ax.containers:
        if isinstance(cont, matplotlib.container.ErrorbarContainer):
            data, caps, _ = cont.lines
            out |= {id(x) for x in caps}
            if data is not None:
                out.add(id(data))
    return out


def xy(line):
    return np.asarray(line.get_xdata(orig=True), dtype=float), np.asarray(line.get_ydata(orig=True), dtype=float)


def is_points(line):
    return line.get_linestyle() in ('None', 'none', '', ' ') and line.get_marker() not in ('None', None, '', ' ')


def points(ax):
    """All points drawn one by one, outside of error bars."""
    skip = bar_lines(ax)
    pts = []
    for line in ax.lines:
        if id(line) not in skip and is_points(line):
            x, y = xy(line)
            pts.extend(zip(x, y))
    for coll in ax.collections:
        if isinstance(coll, matplotlib.collections.PathCollection):
            pts.extend((float(a), float(b)) for a, b in coll.get_offsets())
    return pts


def bars(ax):
    """(x, middle, half height) of all vertical error bars."""
    out = []
    for cont in ax.containers:
        if isinstance(cont, matplotlib.container.ErrorbarContainer):
            for coll in cont.lines[2]:
                for seg in coll.get_segments():
                    if len(seg) == 2:
                        (x0, y0), (_, y1) = seg
                        out.append((x0, (y0 + y1) / 2, abs(y1 - y0) / 2))
    return out


def has_line(ax, x, y, tol=1e-7):
    """Some line passes through exactly these points."""
    x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
    for line in ax.lines:
        a, b = xy(line)
        if a.shape == x.shape == b.shape and np.allclose(a, x, atol=tol) and np.allclose(b, y, atol=tol):
            return line
    return None


def has_curve(ax, fun, lo, hi, tol=1e-6):
    """Some connected line follows the function over the data."""
    for line in ax.lines:
        if line.get_linestyle() in ('None', 'none', '', ' '):
            continue
        a, b = xy(line)
        if len(a) >= 3 and np.allclose(b, fun(a), atol=tol, rtol=1e-6) and \
                a.min() <= lo + 1e-9 * abs(lo) and a.max() >= hi - 1e-9 * abs(hi):
            return line
    return None


def same_points(a, b, tol=1e-7):
    a = np.array(sorted((round(float(x), 9), float(y)) for x, y in a)).reshape(-1, 2)
    b = np.array(sorted((round(float(x), 9), float(y)) for x, y in b)).reshape(-1, 2)
    return a.shape == b.shape and np.allclose(a, b, atol=tol)


def same_rows(a, b, tol=1e-7):
    """Equal sets of rows up to rounding."""
    a, b = [np.array(sorted(map(tuple, np.round(np.asarray(v, dtype=float), 9).tolist()))) for v in (a, b)]
    return a.shape == b.shape and np.allclose(a, b, atol=tol)


NUM = r'[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf)'


def numbers(text):
    """Numbers of a label as (value, least printed digit)."""
    out = []
    for tok in re.findall(NUM, text):
        mant, _, ex = tok.lower().partition('e')
        digits = len(mant.partition('.')[2])
        out.append((float(tok), 10.0 ** (int(ex or 0) - digits)))
    return out


def shows(text, after, value):
    """The number printed after a word is the value to its printed digits."""
    m = re.search(re.escape(after) + r'\s*:?\s*(' + NUM + r')(?:\((' + NUM + r')\))?', text)
    if not m:
        return False
    for tok, val in zip(m.groups(), value):
        if tok is None:
            continue
        (got, step), = numbers(tok)
        if not (np.isnan(got) and np.isnan(val)) and got != val and abs(got - val) > .51 * step + 1e-12:
            return False
    return True


class Shown:
    """Counts calls of plt.show."""

    def __enter__(self):
        self.old, self.n = plt.show, 0

        def show(*args, **kwargs):
            self.n += 1
        plt.show = show
        return self

    def __exit__(self, *exc):
        plt.show = self.old


def draw(mon, rng, func, showable='show_plot', default=False, snap=None, given=True):
    """Call a plot function on fresh or given axes; return the axes drawn on."""
    plt.close('all')
    kw = {}
    before = repr(canon(snap())) if snap is not None else None
    ask = None
    if showable and rng.random() < .7:
        ask = bool(rng.random() < .5)
        kw[showable] = ask
    own = None
    if given and rng.random() < .6:
        if rng.random() < .5:
            _, (own, other) = plt.subplots(1, 2)
        else:
            _, own = plt.subplots()
            other = plt.figure().gca()      # the current axes are others
        kw['ax'] = own
    with Shown() as shown, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        out = func(**kw)
    if showable:
        mon.equal(shown.n, int(default if ask is None else ask), 'show', 'number of times the plot was shown',
                  state=(ask, shown.n))
    if own is not None:
        mon.check(not (other.lines or other.images or other.collections or other.texts), 'given-axes',
                  'drawn on axes that were not given')
        ax = own
        if out is not None and isinstance(out, matplotlib.axes.Axes):
            mon.check(out is own, 'given-axes', 'other axes returned')
    else:
        ax = plt.gcf().axes[0]
        mon.check(len(plt.get_fignums()) == 1, 'own-figure', 'figures opened', got=plt.get_fignums())
        if out is not None and isinstance(out, matplotlib.axes.Axes):
            mon.check(out is ax, 'own-figure', 'other axes returned')
    if snap is not None:
        mon.check(repr(canon(snap())) == before, 'not-modified', 'plotting changed the object')
    return ax


def legend_texts(ax):
    leg = ax.get_legend()
    return [] if leg is None else [t.get_text() for t in leg.get_texts()]


# -- randomized benchmarking ---------------------------------------------
def decay(params):
    a, alpha, b = params
    return lambda x: a * alpha ** x + b


def case_rb(mon, case):
    rng = np.random.default_rng(case['seed'])
    exp = case['exp']
    pattern, xdata, seeds, tabs = c20.make(rng, case['spread'], case['max_q'])
    n = len(xdata[0])
    names = {'rb': ['rb'], 'interleaved': ['rb', 'rb_interleaved'],
             'dihedral': ['rb_cnotdihedral_Z', 'rb_cnotdihedral_X']}[exp]
    data = [c19.table_results(rng, name, pattern, n, seeds, 4096, tab[1]) for name, tab in zip(names, tabs)]
    cls = {'rb': rb.RBFitter, 'interleaved': rb.InterleavedRBFitter, 'dihedral': rb.CNOTDihedralRBFitter}[exp]
    try:
        fit = cls(*[d[0] for d in data], xdata, pattern)
    except RuntimeError:
        mon.saw('optimiser-gave-up')
        return
    k = int(rng.integers(len(pattern)))
    label = bool(rng.random() < .7)
    ax = draw(mon, rng, lambda **kw: fit.plot_rb_data(k, add_label=label, **kw), 'show_plt', True,
              snap=lambda: (fit.raw_data, fit.fit, fit.cliff_lengths))
    raw = [c19.expected_raw(d[1], pattern, n, seeds)[k] for d in data]
    want = [(x, y) for tab in raw for row in tab for x, y in zip(xdata[k], row)]
    mon.check(same_points(points(ax), want), 'rb-seeds', 'points drawn are not the data of every seed',
              got=sorted(points(ax)), want=sorted(want), state=want)
    subs = [fit.fit] if exp == 'rb' else fit.fit
    for sub in subs:
        mon.check(has_curve(ax, decay(sub[k]['params']), min(xdata[k]), max(xdata[k])) is not None, 'rb-fit',
                  'fit is not drawn', params=sub[k]['params'], state=list(sub[k]['params']))
    if exp == 'rb':
        mean, std = np.mean(raw[0], 0), np.std(raw[0], 0)
        mon.check(has_line(ax, xdata[k], mean) is not None, 'rb-mean', 'mean is not drawn', want=mean, state=mean)
        if len(seeds) > 1:
            mon.check(same_rows(bars(ax), list(zip(xdata[k], mean, std))), 'rb-mean', 'error bars', got=bars(ax))
    text = ' '.join(t.get_text() for t in ax.texts)
    if not label:
        mon.equal(text, '', 'rb-label', 'label drawn although not wanted')
    elif exp == 'rb':
        f = fit.fit[k]
        mon.check(shows(text, 'alpha', (f['params'][1], f['params_err'][1])) and
                  shows(text, 'EPC', (f['epc'], f['epc_err'])), 'rb-label', 'label', got=text, state=text)
    elif exp == 'interleaved':
        f = fit.fit_int[k]
        mon.check(shows(text, 'alpha', (f['alpha'], f['alpha_err'])) and
                  shows(text, 'alpha_c', (f['alpha_c'], f['alpha_c_err'])) and
                  shows(text, 'EPC_est', (f['epc_est'], f['epc_est_err'])), 'rb-label', 'label', got=text, state=text)
    else:
        f = fit.fit_cnotdihedral[k]
        mon.check(shows(text, 'alpha', (f['alpha'], f['alpha_err'])) and
                  shows(text, 'EPG_est', (f['epg_est'], f['epg_est_err'])), 'rb-label', 'label', got=text, state=text)
    if exp != 'rb':
        # the two curves are told apart by the legend
        hints = ['standard', 'interleaved'] if exp == 'interleaved' else ['0', '+']
        for sub, hint, ot in zip(subs, hints, hints[::-1]):
            line = has_curve(ax, decay(sub[k]['params']), min(xdata[k]), max(xdata[k]))
            if line is not None and not np.allclose(subs[0][k]['params'], subs[1][k]['params'], atol=1e-4):
                lab = line.get_label().lower()
                mon.check(hint in lab and ot not in lab and line.get_label() in legend_texts(ax), 'rb-label',
                          'curve carries the label of the other', got=lab)
    plt.close('all')


def case_purity(mon, case):
    rng = np.random.default_rng(case['seed'])
    nq = case['nq']
    pattern = [list(range(g * nq, (g + 1) * nq)) for g in range(case['groups'])]
    lengths = c19.random_lengths(rng, 6, 9)
    xdata = np.array([lengths for _ in pattern])
    d = 2 ** nq
    alphas = [float(np.exp(-rng.uniform(.5, 1.2) / (lengths[-1] - lengths[0]))) for _ in pattern]
    labels = sorted((''.join(x) for x in np.array(np.meshgrid(*[list('ZXY')] * nq)).T.reshape(-1, nq)),
                    key=lambda s: ['ZXY'.index(c) for c in reversed(s)])
    results = []
    nseeds = int(rng.integers(1, 4))
    for s in range(nseeds):
        amp = float(rng.uniform(.9, .98))
        for lab in labels:
            exps = []
            for i, m in enumerate(lengths):
                joint = np.ones(1)
                for al in alphas:
                    p = np.ones(1)
                    for c in lab:
                        p = np.kron([1, 0] if c == 'Z' else [.5, .5], p)
                    r = amp * al ** m
                    joint = np.kron(r * p + (1 - r) / d, joint)
                nb = nq * len(pattern)
                exps.append(sim.exp_result('rb_purity_%s_length_%d_seed_%d' % (lab, i, s),
                                           {sim.bits(j, nb): v * 2048 for j, v in enumerate(joint)},
                                           [['cr', nb]], shots=2048))
            results.append(sim.result(exps))
    try:
        fit = rb.PurityRBFitter(results, 3 ** nq, xdata, pattern)
    except RuntimeError:
        mon.saw('optimiser-gave-up')
        return
    k = int(rng.integers(len(pattern)))
    label = bool(rng.random() < .7)
    ax = draw(mon, rng, lambda **kw: fit.plot_rb_data(k, add_label=label, **kw), 'show_plt', True)
    raw = np.array(fit.raw_data[k])
    mon.check(same_points(points(ax), [(x, y) for row in raw for x, y in zip(lengths, row)]), 'purity-plot',
              'points drawn are not the purity of every seed', state=raw)
    mean = raw.mean(axis=0)
    mon.check(has_line(ax, lengths, mean) is not None, 'purity-plot', 'mean is not drawn')
    if nseeds > 1:
        mon.check(same_rows(bars(ax), list(zip(lengths, mean, raw.std(axis=0)))), 'purity-plot', 'error bars')
    f = fit.fit[k]
    a, alpha, b = f['params']
    mon.check(has_curve(ax, lambda x: a * alpha ** (2 * x) + b, min(lengths), max(lengths)) is not None,
              'purity-plot', 'fit is not drawn', params=f['params'])
    text = ' '.join(t.get_text() for t in ax.texts)
    if label:
        mon.check(shows(text, 'alpha', (alpha, f['params_err'][1])) and
                  shows(text, 'PEPC', (f['pepc'], f['pepc_err'])), 'rb-label', 'label', got=text, state=text)
    plt.close('all')


# -- calibration matrices --------------------------------------------------
def ticks(axis):
    return [int(round(v)) for v in axis.get_ticklocs()], [t.get_text() for t in axis.get_ticklabels()]


def check_matrix(mon, ax, mat, labels, event):
    mon.equal(len(ax.images), 1, event, 'number of images', fatal=True)
    mon.close(np.asarray(ax.images[0].get_array()), mat, event, 'drawn matrix')
    top, left, = 'prepared', 'measured'
    mon.check(top in ax.get_xlabel().lower() and left in ax.get_ylabel().lower(), 'calibration-labels',
              'axis labels', got=(ax.get_xlabel(), ax.get_ylabel()))
    # column j of the image is the state prepared
    for axis in (ax.xaxis, ax.yaxis):
        pos, names = ticks(axis)
        mon.equal(dict(zip(pos, names)), dict(enumerate(labels)), 'calibration-labels', 'tick labels')
    mon.check(ax.images[0].origin == 'upper', event, 'matrix drawn upside down')


def case_calibration(mon, case):
    rng = np.random.default_rng(case['seed'])
    groups = int(rng.integers(1, 4))
    pattern, pos = [], 0
    perm = [int(q) for q in rng.permutation(6)]
    for _ in range(groups):
        size = int(rng.integers(1, 3))
        pattern.append(perm[pos:pos + size])
        pos += size
    labels = [[sim.bits(i, len(g)) for i in range(2 ** len(g))] for g in pattern]
    if rng.random() < .5:
        labels = [[lst[int(i)] for i in rng.permutation(len(lst))] for lst in labels]
    mats = [sim.random_stochastic(rng, len(lst)) for lst in labels]
    if rng.random() < .5:
        fit = TensoredMeasFitter(None, pattern, substate_labels_list=labels)
        mon.raises(QiskitError, lambda: fit.plot_calibration(0, show_plot=False), 'rejected',
                   'plot of a matrix that was not set')
        fit.cal_matrices = [np.array(m) for m in mats]
        k = int(rng.integers(groups))
        ax = draw(mon, rng, lambda **kw: fit.plot_calibration(k, **kw), default=True)
    else:
        k = 0
        fit = CompleteMeasFitter(None, labels[0], qubit_list=pattern[0])
        fit.cal_matrix = np.array(mats[0])
        ax = draw(mon, rng, fit.plot_calibration, default=True, snap=lambda: fit.cal_matrix)
    check_matrix(mon, ax, mats[k], labels[k], 'calibration-matrix')
    plt.close('all')


def case_matrix(mon, case):
    rng = np.random.default_rng(case['seed'])
    n = int(rng.integers(1, 4))
    if case['method'] == 'complete':
        mit = CompleteExpvalMeasMitigator(sim.random_stochastic(rng, 2 ** n))
    elif case['method'] == 'tensored':
        mit = TensoredExpvalMeasMitigator([sim.random_readout(rng) for _ in range(n)])
    else:
        from qiskit.ignis.mitigation.expval.ctmp_generator_set import standard_generator_set
        n = max(n, 2)
        gens = standard_generator_set(n)
        mit = CTMPExpvalMeasMitigator(gens, [float(v) for v in rng.uniform(0, .05, len(gens))])
    qubits = None
    if rng.random() < .5:
        qubits = [int(q) for q in rng.permutation(n)[:int(rng.integers(1, n + 1))]]
    arg = {} if qubits is None else {'qubits': list(qubits)}
    mat = np.array(mit.assignment_matrix(**arg))
    inv = np.array(mit.mitigation_matrix(**arg))
    dim = len(mat)
    names = [sim.bits(i, int(np.log2(dim))) for i in range(dim)]
    for func, want in ((mit.plot_assignment_matrix, mat), (mit.plot_mitigation_matrix, inv)):
        ax = draw(mon, rng, lambda f=func, **kw: f(**arg, **kw), showable=None)
        check_matrix(mon, ax, want, names, 'mitigator-matrix')
    plt.close('all')


# -- quantum volume ----------------------------------------------------------
def case_qv(mon, case):
    rng = np.random.default_rng(case['seed'])
    lists = c23.make_lists(rng)
    lists = [q for q in lists if len(q) <= 4] or [[0, 1]]
    trials = case['trials']
    _, counts, sv, exps = c23.build(rng, {'psi': 'haar'}, lists, trials)
    fit = QVFitter(sim.result([e for _, e in exps]), sim.result(sv), lists)
    y = np.asarray(fit.ydata)
    ax = draw(mon, rng, fit.plot_qv_data, 'show_plt', True, snap=lambda: (fit.ydata, fit.heavy_outputs))
    at = range(len(lists))
    for i, name in ((0, 'measured'), (2, 'ideal')):
        mon.check(has_line(ax, at, y[i]) is not None, 'qv-probabilities', '%s values are not drawn' % name,
                  want=y[i], state=y[i])
    mon.check(same_rows(bars(ax), [(x, y[i][x], 2 * y[i + 1][x]) for i in (0, 2) for x in at]), 'qv-probabilities',
              'bars are not two standard deviations', got=bars(ax))
    pos, names = ticks(ax.xaxis)
    mon.equal(dict(zip(pos, names)), {i: str(q) for i, q in enumerate(lists)}, 'qv-probabilities', 'tick labels')
    mon.check(any(len(xy(ln)[1]) == 2 and np.allclose(xy(ln)[1], 2 / 3) for ln in ax.lines), 'qv-probabilities',
              'threshold is not drawn')
    lab = {tuple(np.round(xy(c.lines[0])[1], 9)): str(c.get_label()).lower() for c in ax.containers
           if isinstance(c, matplotlib.container.ErrorbarContainer) and c.lines[0] is not None}
    if not np.allclose(y[0], y[2]):
        mon.check('exp' in lab.get(tuple(np.round(y[0], 9)), '') and 'ideal' in lab.get(tuple(np.round(y[2], 9)), ''),
                  'qv-probabilities', 'measured and ideal labels', got=lab)
    title = ax.get_title()
    mon.check(str(len(lists[-1])) in title and str(trials) in title, 'titles', 'title', got=title)
    q = lists[int(rng.integers(len(lists)))]
    d = len(q)
    heavy = []
    for t in range(trials):
        hv = set(fit.heavy_outputs['qv_depth_%d_trial_%d' % (d, t)])
        heavy.append(sum(v for k, v in counts[d, t].items() if k in hv) / sum(counts[d, t].values()))
    ax = draw(mon, rng, lambda **kw: fit.plot_hop_accumulative(d, **kw), showable=None)
    cum = np.cumsum(heavy) / np.arange(1, trials + 1)
    xs = np.arange(trials)
    mon.check(same_points(points(ax), list(zip(xs, heavy))), 'qv-cumulative', 'single trials', got=points(ax), state=heavy)
    mon.check(has_line(ax, xs, cum) is not None, 'qv-cumulative', 'cumulative value is not drawn', want=cum)
    two = 2 * np.sqrt(cum * (1 - cum) / np.arange(1, trials + 1))
    mon.check(same_rows(bars(ax), list(zip(xs, cum, two))), 'qv-cumulative', 'two sigma', got=bars(ax))
    mon.check(any(len(xy(ln)[1]) == 2 and np.allclose(xy(ln)[1], 2 / 3) for ln in ax.lines), 'qv-cumulative',
              'threshold is not drawn')
    mon.check(re.search(r'\b%d\b' % 2 ** d, ax.get_title()), 'titles', 'title', got=ax.get_title())
    # one trial
    t = int(rng.integers(trials))
    ax = draw(mon, rng, lambda **kw: fit.plot_qv_trial(d, t, **kw), showable=None)
    rects = [r for r in ax.patches if isinstance(r, matplotlib.patches.Rectangle)]
    c = counts[d, t]
    tot = sum(c.values())
    amp = [e for e in sv if e.header.name == 'qv_depth_%d_trial_%d' % (d, t)][0].data.statevector
    ideal = np.abs(np.asarray(amp)) ** 2
    ideal = [round(v, 9) for v in ideal]
    got = [float(r.get_height()) for r in rects]
    want = [v / tot for v in c.values()] + ideal
    # plot_histogram prints three digits
    mon.check(len([g for g in got if g > 1e-6]) == len([w for w in want if w > 1e-6]) and
              np.allclose(sorted(g for g in got if g > 1e-6), sorted(w for w in want if w > 1e-6), atol=2e-3),
              'qv-trial', 'bars are not the probabilities', got=sorted(got), want=sorted(want), state=sorted(got))
    med = np.median(ideal)
    mon.check(any(len(xy(ln)[1]) == 2 and np.allclose(np.ravel(xy(ln)[1]).astype(float), med, atol=1e-7)
                  for ln in ax.lines), 'qv-trial', 'median is not drawn', want=med,
              got=[xy(ln)[1] for ln in ax.lines])
    text = ' '.join(legend_texts(ax))
    mon.check(shows(text, 'HOP~', (heavy[t],)), 'qv-trial', 'legend', got=text)
    mon.check(re.search(r'\b%d\b.*\b%d\b' % (2 ** d, t), ax.get_title()), 'titles', 'title', got=ax.get_title())
    plt.close('all')


# -- characterization ---------------------------------------------------------
def check_curve(mon, ax, fit, qind, series, fun, only=True):
    x = np.asarray(fit.xdata, dtype=float)
    mean = np.asarray(fit.ydata[series][qind]['mean'], dtype=float)
    std = np.asarray(fit.ydata[series][qind]['std'], dtype=float)
    mon.check(has_line(ax, x, mean) is not None, 'data-points', 'data is not drawn', want=mean, state=mean)
    rows = list(zip(x, mean, std))
    if only:
        mon.check(same_rows(bars(ax), rows), 'error-bars', 'error bars', got=bars(ax), want=rows)
    else:
        got = {tuple(np.round(r, 7)) for r in bars(ax)}
        mon.check(all(any(np.allclose(r, g, atol=1e-6) for g in got) for r in rows[::5]), 'error-bars', 'error bars')
    line = has_curve(ax, lambda v: fun(fit.params[series][qind], v), x.min(), x.max())
    mon.check(line is not None, 'fit-curve', 'fit is not drawn', params=fit.params[series][qind],
              state=list(fit.params[series][qind]))
    return line


def check_title(mon, ax, qubit):
    nums = re.findall(r'(?<![_\d.])\d+(?!\w)', ax.get_title())
    mon.check(nums and int(nums[-1]) == qubit, 'titles', 'title names another qubit', got=ax.get_title(), want=qubit)


def case_times(mon, case):
    rng = np.random.default_rng(case['seed'])
    exp, num = case['exp'], case['num']
    base, series, expected = c29.KINDS[exp]
    qubits = [int(q) for q in rng.choice(20, size=num, replace=False)]
    npts = int(rng.integers(22, 30))
    span = float(rng.choice([1.0, 40.0, 5e3]))
    xdata = np.linspace(span / npts, span, npts)
    first = [float(v) for v in c29.truth(rng, exp, span)]
    exps = []
    pars = {(s, i): [v * (1 + .05 * rng.uniform(-1, 1)) for v in first] for s in series for i in range(num)}
    shots = int(rng.integers(3000, 20000))
    for s in series:
        for k in range(npts):
            ps = [float(c29.curve(exp, pars[s, i], xdata[k])) for i in range(num)]
            ps = ps if expected == '1' else [1 - p for p in ps]
            exps.append(sim.exp_result('%scircuit_%d_%s' % (base, k, s), c29.joint(ps, shots, rng), [['c', num]],
                                       shots=shots))
    try:
        fit = c29.make(exp, sim.result(exps), xdata, qubits, first, ([-np.inf] * len(first), [np.inf] * len(first)))
    except RuntimeError:
        mon.saw('optimiser-gave-up')
        return
    qind = int(rng.integers(num))
    s = series[int(rng.integers(len(series)))]

    def fun(p, x):
        return c29.curve(exp, p, x)
    given = {} if s == '0' and exp != 'zz' and rng.random() < .5 else {'series': s}
    ax = draw(mon, rng, lambda **kw: fit.plot(qind, **given, **kw), default=exp == 'zz',
              snap=lambda: (fit.xdata, fit.ydata, fit.params))
    line = check_curve(mon, ax, fit, qind, s, fun)
    check_title(mon, ax, qubits[qind])
    if line is not None:
        text = ' '.join(legend_texts(ax))
        want = float(fit.time(qid=qind, series=s))
        mon.check(line.get_label() in legend_texts(ax) and
                  any(abs(v - want) <= .051 for v, _ in numbers(re.sub(r'\$.*?\$', '', text))),
                  'characteristic-time', 'time in the legend', got=text, want=want, state=text)
    mon.check('micro-seconds' in ax.get_xlabel(), 'titles', 'unit of the time axis')
    if exp == 'zz':
        ax = draw(mon, rng, lambda **kw: fit.plot_ZZ(qind, **kw))
        for s in series:
            line = check_curve(mon, ax, fit, qind, s, fun, only=False)
            if line is not None:
                mon.check(re.search(r'\b(?:Q)?%d\b.*\b%s\b' % (qubits[qind] + 10, s), line.get_label()), 'zz-plot',
                          'label of the trace', got=line.get_label())
        mon.equal(len(bars(ax)), 2 * npts, 'error-bars', 'number of error bars')
        check_title(mon, ax, qubits[qind])
    plt.close('all')


def case_gates(mon, case):
    rng = np.random.default_rng(case['seed'])
    exp, num = case['exp'], case['num']
    circuits, cls, base = c30.MAKE[exp]
    labels = [int(q) for q in rng.choice(12, size=2 * num, replace=False)]
    qubits, control = labels[:num], labels[num:]
    reps = int(rng.integers(6, 14))
    _, xdata = circuits(*([reps, qubits] + ([control] if exp.endswith('cx') else [])))
    shots = int(rng.integers(2000, 8000))
    exps = []
    for k in range(reps):
        ps = [float(np.clip(.5 + .4 * np.sin(.05 * k * (i + 1)) + .02 * rng.normal(), 0, 1)) for i in range(num)]
        exps.append(sim.exp_result('%scircuit_%d_0' % (base, k), c29.joint(ps, shots, rng), [['c', num]],
                                   shots=shots))
    try:
        fit = cls(sim.result(exps), xdata, qubits, [.02, .5], ([-.3, 0], [.3, 1]))
    except RuntimeError:
        mon.saw('optimiser-gave-up')
        return
    qind = int(rng.integers(num))
    ax = draw(mon, rng, lambda **kw: fit.plot(qind, **kw),
              snap=lambda: (fit.xdata, fit.ydata, fit.params))
    line = check_curve(mon, ax, fit, qind, '0', lambda p, x: fit.fit_fun(np.asarray(x), *p))
    check_title(mon, ax, qubits[qind])
    if line is not None:
        mon.check(re.search(r'\bQ?%d\b' % qubits[qind], line.get_label()), 'titles', 'label', got=line.get_label())
    plt.close('all')


def case_iq(mon, case):
    rng = np.random.default_rng(case['seed'])
    exp, num = case['exp'], case['num']
    qubits = [int(q) for q in rng.choice(15, size=num, replace=False)]
    npts = int(rng.integers(21, 40))
    xdata = np.linspace(-.8, .8, npts) if exp == 'rabi' else np.linspace(-4, 4, npts)
    freq = [float(rng.uniform(1.5, 3)) * (1 + .05 * rng.uniform(-1, 1)) for _ in range(num)]
    mid = [float(rng.uniform(-1.5, 1.5)) for _ in range(num)]
    exps = []
    lines = [np.exp(1j * rng.uniform(.3, 1.2)) * rng.uniform(1, 4) for _ in range(num)]
    for k, x in enumerate(xdata):
        sig = [np.cos(2 * np.pi * freq[i] * x) if exp == 'rabi' else .2 * (x - mid[i]) ** 2 for i in range(num)]
        mem = np.array([[lines[i] * (sig[i] + .01 * rng.normal()) for i in range(num)] for _ in range(20)])
        exps.append(c31.iq_exp('%ssched_%d_0' % (exp, k), mem, 'single', 20))
    cls = RabiFitter if exp == 'rabi' else DragFitter
    p0 = [2.0, float(np.mean(freq)), 0.0, 0.0] if exp == 'rabi' else [.5, 0.0, 0.0]
    try:
        fit = cls(sim.result(exps), xdata, qubits, p0)
    except RuntimeError:
        mon.saw('optimiser-gave-up')
        return
    qind = int(rng.integers(num))

    def fun(p, x):
        if exp == 'rabi':
            return p[0] * np.cos(2 * np.pi * p[1] * x + p[2]) + p[3]
        return p[0] * (x - p[1]) ** 2 + p[2]
    ax = draw(mon, rng, lambda **kw: fit.plot(qind, **kw),
              snap=lambda: (fit.xdata, fit.ydata, fit.params))
    check_curve(mon, ax, fit, qind, '0', fun)
    check_title(mon, ax, qubits[qind])
    if exp == 'rabi':
        want = float(fit.pi_amplitude(qind))
        mon.check(any(len(xy(ln)[0]) == 2 and np.allclose(xy(ln)[0], want) for ln in ax.lines), 'amplitude-line',
                  'pi amplitude is not marked', want=want, state=want)
    plt.close('all')


# -- discriminators ------------------------------------------------------------
def clouds(ax):
    """(label, points) of scatter plots."""
    return [(c.get_label(), [tuple(p) for p in np.asarray(c.get_offsets(), dtype=float)]) for c in ax.collections
            if isinstance(c, matplotlib.collections.PathCollection)]


def case_discriminator(mon, case):
    rng = np.random.default_rng(case['seed'])
    dev = c32.Device(rng)
    while len(dev.states) > 16:
        dev = c32.Device(rng)
    region = rng.random() < .4
    if region:
        while len(dev.mask) != 1:
            dev = c32.Device(rng)
    shots = int(rng.integers(14, 30))
    exps, blocks = [], {}
    for s in dev.states:
        arr = dev.shots(s, shots)
        if rng.random() < .4:       # some points land in another cloud
            other = dev.states[int(rng.integers(len(dev.states)))]
            arr[:2] = dev.shots(other, 2)
        blocks[s] = [arr]
        exps.append(('cal_%s' % s, arr, 1))
    res = c32.make_result([exps[int(i)] for i in rng.permutation(len(exps))])
    disc, _ = c32.build(case['how'], dev, res, False)
    feats = {s: np.concatenate([dev.feats(b) for b in blocks[s]]) for s in dev.states}
    n = len(dev.mask)
    which = None
    if rng.random() < .5 and not region:
        which = [dev.mask[int(i)] for i in rng.permutation(n)[:int(rng.integers(1, n + 1))]]
    plot = dev.mask if which is None else which
    flag = bool(rng.random() < .5)
    own = None
    kw = {'flag_misclassified': flag}
    if which is not None:
        kw['qubits_to_plot'] = list(which)
    if region:
        kw['show_boundary'] = True
    plt.close('all')
    if rng.random() < .5:
        _, own = plt.subplots(len(plot), 1)
        kw['axs'] = own
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        axs, fig = disc.plot(**kw)
    mon.check((fig is None) == (own is not None), 'discriminator-points', 'figure handle')
    axs = np.asarray(axs).flatten()
    if own is not None:
        mon.check(all(a is b for a, b in zip(axs, np.asarray(own).flatten())), 'given-axes', 'other axes returned')
    allx = np.concatenate([feats[s] for s in dev.states])
    ally = np.array([s for s in dev.states for _ in range(len(feats[s]))])
    wrong = allx[np.array(disc.discriminate(allx.tolist())) != ally]
    for ax, q in zip(axs, plot):
        j = dev.mask.index(q)
        got = {}
        extra = []
        for lab, pts in clouds(ax):
            if lab in dev.states:
                got.setdefault(lab, []).extend(pts)
            else:
                extra.extend(pts)
        for s in dev.states:
            mon.check(same_points(got.get(s, []), feats[s][:, [j, n + j]], tol=1e-6), 'discriminator-points',
                      'points of state %s at qubit %s' % (s, q), state=(s, q, len(feats[s])))
        want = {tuple(np.round(p, 6)) for p in wrong[:, [j, n + j]]} if flag else set()
        mon.equal({tuple(np.round(p, 6)) for p in extra}, want, 'discriminator-errors', 'misclassified points')
        mon.check(re.search(r'\b%d\b' % q, ax.get_title()), 'titles', 'title', got=ax.get_title(), want=q)
    if region:
        # the drawn regions cover the training data and nothing raises
        mon.check(len(axs[0].collections) > len(clouds(axs[0])), 'discriminator-region', 'no region drawn')
        pts = allx[:, [0, 1]]
        lo, hi = axs[0].dataLim.min, axs[0].dataLim.max
        mon.check(np.all(pts >= lo - 1e-9) and np.all(pts <= hi + 1e-9), 'discriminator-region',
                  'data outside the regions')
    elif n > 1:
        mon.raises(QiskitError, lambda: disc.plot(show_boundary=True), 'rejected', 'regions of several qubits')
        plt.close('all')
        _, one = plt.subplots()
        mon.raises(QiskitError, lambda: disc.plot(axs=one), 'rejected', 'too few axes')
    mon.raises(QiskitError, lambda: disc.plot(qubits_to_plot=[99]), 'rejected', 'qubit outside of the mask')
    # further data on the same axes
    plt.close('all')
    _, own = plt.subplots(n, 1)
    arrs = [dev.shots(s, 3) for s in dev.states[:2]]
    more = c32.make_result([('x%d' % i, a, 1) for i, a in enumerate(arrs)])
    disc.plot_xdata(own, more)
    new = np.concatenate([dev.feats(a) for a in arrs])
    for j, ax in enumerate(np.asarray(own).flatten()):
        pts = [p for _, pp in clouds(ax) for p in pp]
        mon.check(same_points(pts, new[:, [j, n + j]], tol=1e-6), 'discriminator-extra', 'points of added data',
                  state=(j, len(pts)))
    plt.close('all')


def case_parity(mon, case):
    rng = np.random.default_rng(case['seed'])
    n = int(rng.integers(5, 20))
    x = np.linspace(0, 2 * np.pi, n)
    y, y_m = rng.random(n), rng.random(n)
    plt.close('all')
    two = rng.random() < .6
    pl = analysis.Plotter(case['label'])
    pl.sin_plotter(x, y, y_m if two else None)
    ax = plt.gca()
    a = has_line(ax, x, y)
    mon.check(a is not None, 'parity-series', 'raw series is not drawn', state=y)
    if two:
        b = has_line(ax, x, y_m)
        mon.check(b is not None and 'mitigated' in b.get_label() and a is not None and 'raw' in a.get_label(),
                  'parity-series', 'mitigated series')
    mon.check(('<' in ax.get_title() or 'z' in ax.get_title().lower()) if case['label'] == 'po'
              else 'ground' in ax.get_title(), 'titles', 'title', got=ax.get_title())
    plt.close('all')
