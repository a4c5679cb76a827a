"""C20: interleaved, purity and CNOT-dihedral RB estimates follow from the decays."""
import numpy as np
import qiskit.ignis.verification.randomized_benchmarking as rb
from vm import sim, gen
from vm.rbtools import random_pattern
from vm.props.c19 import (random_decay, random_lengths, decay_probs, table_results, expected_raw,
                          merge)

PROP = 'C20'
LEVEL = 'exploration'
RULE = ('exact and jittered decays of known rates through the interleaved and CNOT-dihedral '
        'fitters, and density-matrix executions of real purity RB circuits under random noise '
        'through the purity fitter; a state is one distinct estimate')


def cases(rng, tier):
    n = 60 if tier == 'quick' else 1500
    for _ in range(n):
        yield 'interleaved', {'spread': rng.choice([0.0, .01])}
        yield 'dihedral', {'spread': rng.choice([0.0, .01])}
        yield 'purity_decay', {'nq': rng.choice([1, 1, 2]), 'groups': rng.choice([1, 2])}
    for _ in range(n // 10):
        yield 'purity_decay', {'nq': 1, 'groups': rng.choice([3, 4, 5])}
        yield 'purity_decay', {'nq': 2, 'groups': 3}
        yield 'purity_decay', {'nq': 3, 'groups': 1}
        yield 'contrast', {}
        yield 'interleaved', {'spread': 0.0, 'max_q': 7}
        yield 'dihedral', {'spread': 0.0, 'max_q': 7}
    for _ in range(n // 4):
        yield 'purity', {'nq': rng.choice([1, 1, 2])}
    yield 'empty', {}
    for _ in range(4):
        yield 'default_pattern', {}


def required_events(tier):
    return ['interleaved-epc', 'interleaved-bounds', 'dihedral-epg', 'purity-value',
            'purity-alpha', 'data-history', 'no-data', 'sub-fitters', 'default-pattern',
            'cliff-lengths', 'error-bars', 'second-bound', 'one-sided-data']


def make(rng, spread, max_q=4):
    pattern = random_pattern(rng, max_q, sizes=(1, 2))
    base = random_lengths(rng)
    xdata = np.array([base * int(rng.integers(1, 3)) for _ in pattern])
    seeds = [int(s) for s in rng.choice(14, int(rng.integers(1, 4)), replace=False)]
    tabs = []
    for _ in range(2):
        truth = [random_decay(rng, len(p), x) for p, x in zip(pattern, xdata)]
        tabs.append((truth, lambda s, i, t=truth, p=decay_probs(rng, pattern, xdata, truth, 14,
                                                                 spread): p(s, i)))
    return pattern, xdata, seeds, tabs


def case_interleaved(mon, case):
    rng = np.random.default_rng(case['seed'])
    pattern, xdata, seeds, tabs = make(rng, case['spread'], case.get('max_q', 4))
    n = len(xdata[0])
    r_0, c_0 = table_results(rng, 'rb', pattern, n, seeds, 4096, tabs[0][1])
    r_1, c_1 = table_results(rng, 'rb_interleaved', pattern, n, seeds, 4096, tabs[1][1])
    fit = rb.InterleavedRBFitter(r_0, r_1, xdata, pattern)
    check_sub(mon, fit, (c_0, c_1), pattern, n)
    mon.equal(len(fit.results[0]), len(r_0), 'sub-fitters', 'initial results stored twice')
    check_interleaved(mon, fit, pattern, tabs, case['spread'])
    # later data is pooled with equal weight per shot
    m_0, d_0 = table_results(rng, 'rb', pattern, n, seeds, 4096, tabs[0][1])
    m_1, d_1 = table_results(rng, 'rb_interleaved', pattern, n, seeds, 4096, tabs[1][1])
    fit.add_data(m_0, m_1)
    check_sub(mon, fit, ({k: merge(c_0[k], d_0[k]) for k in c_0},
                         {k: merge(c_1[k], d_1[k]) for k in c_1}), pattern, n, 'data-history')
    check_interleaved(mon, fit, pattern, tabs, case['spread'])
    if not case['spread']:
        later_data(mon, rng, fit, ({k: merge(c_0[k], d_0[k]) for k in c_0},
                                   {k: merge(c_1[k], d_1[k]) for k in c_1}),
                   ('rb', 'rb_interleaved'), pattern, n, seeds, tabs)
        fit.fit_data()
        check_interleaved(mon, fit, pattern, tabs, case['spread'])


def later_data(mon, rng, fit, counts, names, pattern, n, seeds, tabs, shots=4096):
    """Data of one of the two series only, or added first and evaluated later."""
    side = int(rng.integers(2))
    more, add = table_results(rng, names[side], pattern, n, seeds, shots, tabs[side][1])
    counts = [dict(c) for c in counts]
    counts[side] = {k: merge(counts[side][k], add[k]) for k in counts[side]}
    args = [None, None]
    args[side] = more
    if rng.random() < .5:
        fit.add_data(*args)
    else:
        fit.add_data(*args, rerun_fit=False)
        fit.calc_data()
        fit.calc_statistics()
        fit.fit_data()
    check_sub(mon, fit, counts, pattern, n, 'one-sided-data')
    # a single series of a single pattern fitted again: nothing else moves
    k = int(rng.integers(len(pattern)))
    before = [[np.array(f['params']) for f in s] for s in fit.fit]
    guess = [float(x) for x in np.clip(np.array(tabs[side][0][k]), .01, .99)]
    fit.fit_data_pattern(k, guess, side)
    for j in range(2):
        for i in range(len(pattern)):
            if (j, i) != (side, k):
                mon.equal(list(fit.fit[j][i]['params']), list(before[j][i]), 'one-sided-data',
                          'fit of another series or pattern moved')
    mon.close(fit.fit[side][k]['params'][1], before[side][k][1], 'one-sided-data',
              'the same data fitted again', atol=5e-3, rtol=0)
    x = np.array([1., 2., 5.])
    a, al, b = fit.fit[side][k]['params']
    mon.close(fit.rb_fit_fun(x, a, al, b), a * al ** x + b, 'one-sided-data', 'fit function')


def case_contrast(mon, case):
    """A good group and a bad element: the second bound is the smaller one."""
    rng = np.random.default_rng(case['seed'])
    pattern = random_pattern(rng, 4, sizes=(1, 2))
    base = np.arange(1, int(rng.integers(9, 14)))
    xdata = np.array([base for _ in pattern])
    tabs = []
    for lo, hi in ((1e-5, 1e-3), (.35, .9)):
        truth = [(1 - .5 ** len(p), float(np.exp(-rng.uniform(lo, hi))), .5 ** len(p)) for p in pattern]
        pr = decay_probs(rng, pattern, xdata, truth, 1)
        tabs.append((truth, lambda s, i, p=pr: p(s, i)))
    r_0, _ = table_results(rng, 'rb', pattern, len(base), [0], 4096, tabs[0][1])
    r_1, _ = table_results(rng, 'rb_interleaved', pattern, len(base), [0], 4096, tabs[1][1])
    try:
        fit = rb.InterleavedRBFitter(r_0, r_1, xdata, pattern)
    except RuntimeError:
        mon.saw('optimiser-gave-up')
        return
    for k, pat in enumerate(pattern):
        d = 2 ** len(pat)
        al, al_c = fit.fit[0][k]['params'][1], fit.fit[1][k]['params'][1]
        if (d - 1) / d * (abs(al - al_c / al) + 1 - al) > 2 * (d * d - 1) * (1 - al) / (al * d * d) + \
                4 * np.sqrt(1 - al) * np.sqrt(d * d - 1) / al:
            mon.saw('second-bound')
    check_interleaved(mon, fit, pattern, tabs, 1)


def check_sub(mon, fit, counts, pattern, n, event='sub-fitters'):
    for j in range(2):
        raw = expected_raw(counts[j], pattern, n, list(fit.seeds[j]))
        mon.check(all(np.allclose(fit.raw_data[j][k], raw[k]) for k in range(len(pattern))),
                  event, 'raw data', got=fit.raw_data[j], want=raw, state=raw)
        for k in range(len(pattern)):
            mon.close(fit.ydata[j][k]['mean'], np.mean(raw[k], 0), event, 'mean')


def check_interleaved(mon, fit, pattern, tabs, spread):
    mon.equal(len(fit.fit_int), len(pattern), 'interleaved-epc', 'one estimate per pattern')
    for k, pat in enumerate(pattern):
        d = 2 ** len(pat)
        f = fit.fit_int[k]
        al, al_c = fit.fit[0][k]['params'][1], fit.fit[1][k]['params'][1]
        mon.close([f['alpha'], f['alpha_c']], [al, al_c], 'interleaved-epc', 'reported alphas')
        mon.close([f['alpha_err'], f['alpha_c_err']],
                  [fit.fit[0][k]['params_err'][1], fit.fit[1][k]['params_err'][1]], 'error-bars')
        epc = (d - 1) / d * (1 - al_c / al)
        mon.close(f['epc_est'], epc, 'interleaved-epc', 'error of the interleaved element',
                  state=[round(epc, 6)])
        e_1 = (d - 1) / d * (abs(al - al_c / al) + 1 - al)
        e_2 = 2 * (d * d - 1) * (1 - al) / (al * d * d) + 4 * np.sqrt(1 - al) * \
            np.sqrt(d * d - 1) / al
        sys_err = min(e_1, e_2)
        mon.close([f['systematic_err'], f['systematic_err_L'], f['systematic_err_R']],
                  [sys_err, epc - sys_err, epc + sys_err], 'interleaved-bounds')
        rel = np.hypot(f['alpha_err'] / al, f['alpha_c_err'] / al_c)
        mon.close(f['epc_est_err'], (d - 1) / d * (al_c / al) * rel, 'error-bars',
                  'error bar of the estimate')
        if not spread:
            want = (d - 1) / d * (1 - tabs[1][0][k][1] / tabs[0][0][k][1])
            mon.close(f['epc_est'], want, 'interleaved-epc', 'exact decays', atol=3e-3, rtol=0)


def case_dihedral(mon, case):
    rng = np.random.default_rng(case['seed'])
    pattern, xdata, seeds, tabs = make(rng, case['spread'], case.get('max_q', 4))
    n = len(xdata[0])
    r_0, c_0 = table_results(rng, 'rb_cnotdihedral_Z', pattern, n, seeds, 4096, tabs[0][1])
    r_1, c_1 = table_results(rng, 'rb_cnotdihedral_X', pattern, n, seeds, 4096, tabs[1][1])
    fit = rb.CNOTDihedralRBFitter(r_0, r_1, xdata, pattern)
    check_sub(mon, fit, (c_0, c_1), pattern, n)
    mon.equal(len(fit.results[0]), len(r_0), 'sub-fitters', 'initial results stored twice')
    m_0, d_0 = table_results(rng, 'rb_cnotdihedral_Z', pattern, n, seeds, 4096, tabs[0][1])
    m_1, d_1 = table_results(rng, 'rb_cnotdihedral_X', pattern, n, seeds, 4096, tabs[1][1])
    for stage in range(2):
        if stage:
            fit.add_data(m_0, m_1)
            check_sub(mon, fit, ({k: merge(c_0[k], d_0[k]) for k in c_0},
                                 {k: merge(c_1[k], d_1[k]) for k in c_1}), pattern, n,
                      'data-history')
        mon.equal(len(fit.fit_cnotdihedral), len(pattern), 'dihedral-epg')
        for k, pat in enumerate(pattern):
            d = 2 ** len(pat)
            f = fit.fit_cnotdihedral[k]
            a_z, a_r = fit.fit[0][k]['params'][1], fit.fit[1][k]['params'][1]
            alpha = (a_z + d * a_r) / (d + 1)
            mon.close(f['alpha'], alpha, 'dihedral-epg', 'combined alpha', state=[alpha])
            mon.close(f['epg_est'], (d - 1) / d * (1 - alpha), 'dihedral-epg', 'error per element')
            if not case['spread']:
                want = (tabs[0][0][k][1] + d * tabs[1][0][k][1]) / (d + 1)
                mon.close(f['alpha'], want, 'dihedral-epg', 'exact decays', atol=3e-3, rtol=0)
            e_z, e_r = fit.fit[0][k]['params_err'][1], fit.fit[1][k]['params_err'][1]
            lo = np.hypot(e_z, d * e_r) / (d + 1)
            mon.check(lo * .999 - 1e-15 <= f['alpha_err'] <= lo / min(a_z, a_r) * 1.001 + 1e-15,
                      'error-bars', 'error bar of alpha', got=f['alpha_err'], lo=lo)
    if not case['spread']:
        later_data(mon, rng, fit, ({k: merge(c_0[k], d_0[k]) for k in c_0},
                                   {k: merge(c_1[k], d_1[k]) for k in c_1}),
                   ('rb_cnotdihedral_Z', 'rb_cnotdihedral_X'), pattern, n, seeds, tabs)


def random_noise(rng, strength):
    p_1, p_2 = rng.uniform(0, strength, 2)
    gam = rng.uniform(0, strength)
    damp = [np.array([[1, 0], [0, np.sqrt(1 - gam)]]), np.array([[0, np.sqrt(gam)], [0, 0]])]
    ang = rng.normal(0, .05)
    rot = np.array([[np.cos(ang), -1j * np.sin(ang)], [-1j * np.sin(ang), np.cos(ang)]])

    def noise(_name, idx, _inst):
        out = []
        if len(idx) == 1:
            out.append((sim.depol_kraus(p_1, 1), idx))
        else:
            out.append((sim.depol_kraus(p_2, 2), idx))
        for q in idx:
            out.append((damp, [q]))
        out.append(([rot], [idx[0]]))
        return out
    return noise


def case_purity(mon, case):
    """Real purity circuits under a random noise: raw data is Tr rho^2 of each pattern."""
    rng = np.random.default_rng(case['seed'])
    nq = case['nq']
    pattern = random_pattern(rng, 3, equal=nq, max_groups=2)
    lengths = [1, 3, 5]
    nseeds = int(rng.integers(1, 3))
    circs, xdata, npurity = rb.randomized_benchmarking_seq(
        nseeds=nseeds, length_vector=lengths, rb_pattern=pattern, is_purity=True,
        rand_seed=int(rng.integers(1, 10 ** 6)))
    noise = random_noise(rng, .03)
    results = []
    n_pre = {}
    for s in range(nseeds):
        # the bare sequence is the all-Z circuit
        for i in range(len(lengths)):
            z = [c for lst in circs[s] for c in lst
                 if c.name == 'rb_purity_%s_length_%d_seed_%d' % ('Z' * nq, i, s)][0]
            n_pre[s, i] = len(sim.split(z)[0])
        for d in range(npurity):
            exps = []
            for i, c in enumerate(circs[s][d]):
                cnt = [0]
                lim = n_pre[s, i]

                def noisy(name, idx, inst, cnt=cnt, lim=lim):
                    cnt[0] += 1         # the measurement rotations are perfect
                    return noise(name, idx, inst) if cnt[0] <= lim else []
                p = sim.outcome_probs(c, noisy)
                exps.append(sim.exp_result(c.name, {k: v * 1024 for k, v in p.items()},
                                           sim.creg_sizes(c), shots=1024))
            results.append(sim.result(exps))
    try:
        fit = rb.PurityRBFitter(results, npurity, xdata, pattern)
    except RuntimeError:        # few short lengths: the decay fit may not converge
        return
    mon.equal(len(fit.results), len(results), 'sub-fitters', 'initial results stored twice')
    for k, pat in enumerate(pattern):
        for si, s in enumerate(fit.seeds):
            for i in range(len(lengths)):
                z = [c for lst in circs[s] for c in lst
                     if c.name == 'rb_purity_%s_length_%d_seed_%d' % ('Z' * nq, i, s)][0]
                rho = gen.partial_trace(sim.density(z, noise), pat, z.num_qubits)
                want = float(np.real(np.trace(rho @ rho)))
                mon.close(fit.raw_data[k][si][i], want, 'purity-value',
                          'purity of the final state', atol=1e-6, pattern=pattern)


def case_purity_decay(mon, case):
    """Synthetic product-basis data with a known purity decay."""
    rng = np.random.default_rng(case['seed'])
    nq = case['nq']
    pattern = [list(range(g * nq, (g + 1) * nq)) for g in range(case['groups'])]
    lengths = random_lengths(rng, 6, 9)
    xdata = np.array([lengths for _ in pattern])
    d = 2 ** nq
    nseeds = int(rng.integers(1, 3))
    alphas = [float(np.exp(-rng.uniform(.5, 1.2) / (lengths[-1] - lengths[0]))) for _ in pattern]
    amp = [float(rng.uniform(.85, .99)) for _ in pattern]
    labels = [''.join(x) for x in np.array(np.meshgrid(*[list('ZXY')] * nq)).T.reshape(-1, nq)]
    labels = sorted(labels, key=lambda s: [('ZXY').index(c) for c in reversed(s)])
    results = []
    for s in range(nseeds):
        for lab in labels:
            exps = []
            for i, m in enumerate(lengths):
                joint = np.ones(1)
                for k in range(len(pattern)):
                    r = amp[k] * alphas[k] ** m
                    # state r |0><0| + (1-r) 1/d measured in this basis
                    p = np.ones(1)
                    for c in lab:
                        p = np.kron([1, 0] if c == 'Z' else [.5, .5], p)
                    joint = np.kron(r * p + (1 - r) / d, joint)
                nb = nq * len(pattern)
                exps.append(sim.exp_result('rb_purity_%s_length_%d_seed_%d' % (lab, i, s),
                                           {sim.bits(j, nb): v * 2048
                                            for j, v in enumerate(joint)}, [['cr', nb]],
                                           shots=2048))
            results.append(sim.result(exps))
    fit = rb.PurityRBFitter(results, 3 ** nq, xdata, pattern)
    mon.equal(np.array(fit.cliff_lengths).tolist(), xdata.tolist(), 'cliff-lengths')
    for k in range(len(pattern)):
        r = amp[k] * np.array(alphas[k]) ** lengths.astype(float)
        pur = r ** 2 * (1 - 1 / d) + 1 / d
        for si in range(nseeds):
            mon.close(fit.raw_data[k][si], pur, 'purity-value', atol=1e-6)
        mon.close(fit.ydata[k]['mean'], pur, 'purity-value', 'mean purity', atol=1e-6)
        f = fit.fit[k]
        mon.close(f['params'][1], alphas[k], 'purity-alpha', 'alpha of an exact purity decay',
                  atol=3e-3, rtol=0)
        mon.close(f['pepc'], (d - 1) / d * (1 - f['params'][1]), 'purity-alpha', 'purity epc')


def case_empty(mon, case):
    f = rb.InterleavedRBFitter(None, None, [[1, 2, 3]], [[0]])
    g = rb.CNOTDihedralRBFitter(None, None, [[1, 2, 3]], [[0]])
    h = rb.PurityRBFitter(None, 3, [[1, 2, 3]], [[0]])
    mon.equal([len(x) for x in f.results], [0, 0], 'no-data')
    mon.equal([len(x) for x in g.results], [0, 0], 'no-data')
    mon.equal(len(h.results), 0, 'no-data')
    mon.check(not f.fit_int and not g.fit_cnotdihedral, 'no-data', 'estimates without data')


def case_default_pattern(mon, case):
    rng = np.random.default_rng(case['seed'])
    lengths = random_lengths(rng)
    truth = [random_decay(rng, 1, lengths)]
    pr = decay_probs(rng, [[0]], [lengths], truth, 1)
    r_0, _ = table_results(rng, 'rb', [[0]], len(lengths), [0], 4096, pr)
    a = rb.InterleavedRBFitter(r_0, r_0, [lengths])
    b = rb.CNOTDihedralRBFitter(r_0, r_0, [lengths])
    c = rb.RBFitter(r_0, [lengths])
    want = truth[0][1]
    mon.close(a.fit_int[0]['alpha'], want, 'default-pattern', atol=2e-3, rtol=0)
    mon.close(b.fit_cnotdihedral[0]['alpha'], want, 'default-pattern', atol=2e-3, rtol=0)
    mon.close(c.fit[0]['params'][1], want, 'default-pattern', atol=2e-3, rtol=0)
