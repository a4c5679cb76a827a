"""Runs one property's workload under its monitors.

usage: python -m vm.runner PROP quick|thorough
       python -m vm.runner PROP replay FILE
"""
import importlib
import json
import logging
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('VERIF_EVIDENCE_DIR', os.path.join(ROOT, 'evidence'))
KNOWN = os.path.join(ROOT, 'known_findings.json')
CASE_LIMIT = 400            # seconds before one case counts as hung
BUDGET = {'quick': 60.0, 'thorough': 3000.0}
EXTRA = {'quick': 12.0, 'thorough': 600.0}    # fresh rounds until this much time is spent


def _load(prop):
    return importlib.import_module('vm.props.' + prop.lower())


def _known_keys(prop):
    if not os.path.exists(KNOWN):
        return {}
    with open(KNOWN) as f:
        data = json.load(f)
    return {e['key']: e for e in data.get('known', []) if e['property'] == prop}


class _Hang(Exception):
    pass


def _alarm(_sig, _frm):
    raise _Hang('case did not terminate within %d s' % CASE_LIMIT)


def run_case(mod, mon, case):
    import numpy as np
    from vm.monitor import Violation
    mon.start_case(case)
    seed = case.get('seed', 0)
    random.seed(seed)
    np.random.seed(seed % (2 ** 32))
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            getattr(mod, 'case_' + case['kind'])(mon, case)
    except Violation:
        pass
    except Exception as exc:  # pylint: disable=broad-except
        # on scattered data the least-squares optimiser may legitimately give up
        if isinstance(exc, RuntimeError) and 'Optimal parameters not found' in str(exc) and \
                (case.get('spread') or case['kind'] in getattr(mod, 'SCATTERED', ())):
            mon.saw('optimiser-gave-up')
        else:
            mon.crashed(exc)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def _worker(prop, tier, seed, cases, widx, nwork, deadline, extra, queue):
    from vm.monitor import Monitor
    try:
        mod = _load(prop)
        mon = Monitor(prop)
        mon.known_keys = _known_keys(prop)
        done = 0
        for i in range(widx, len(cases), nwork):
            # mandatory cases always run; the rest run while time remains
            if cases[i].get('opt') and time.time() > deadline:
                mon.events['skipped-for-time'] += 1
                continue
            run_case(mod, mon, cases[i])
            done += 1
            if len(mon.violations) >= 20:
                break
        # further rounds of fresh cases while the time for them lasts
        rnd = 0
        while time.time() < extra and not mon.violations and rnd < 1000:
            rnd += 1
            more = build_cases(mod, tier, seed, rnd)
            for i in range(widx, len(more), nwork):
                if time.time() > extra or mon.violations:
                    break
                run_case(mod, mon, more[i])
                done += 1
        d = mon.dump()
        d['done'] = done
        queue.put((widx, d, None))
    except BaseException:  # pylint: disable=broad-except
        queue.put((widx, None, traceback.format_exc()))


def build_cases(mod, tier, seed, rnd=0):
    rng = random.Random('%s/%s/%d' % (mod.PROP, tier, seed) + ('/%d' % rnd if rnd else ''))
    cases = []
    for kind, params in mod.cases(rng, tier):
        case = {'kind': kind, 'seed': rng.randrange(2 ** 31)}
        case.update(params)
        cases.append(case)
    return cases


def main(argv):
    prop, mode = argv[0], argv[1]
    logging.lastResort = None       # warnings of the code under test are not findings
    sys.path.insert(0, ROOT)
    from vm.monitor import Monitor, jsonable
    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
    mod = _load(prop)
    t_0 = time.time()

    if mode == 'replay':
        with open(argv[2]) as f:
            case = json.load(f)['case']
        mon = Monitor(prop)
        run_case(mod, mon, case)
        for v in mon.violations:
            print('  %s: %s %s' % (v['event'], v['message'], v['info']))
        if mon.violations:
            print('VIOLATION property=%s replay=%s' % (prop, argv[2]))
            return 1
        print('replay: no violation')
        return 0

    seed = int(os.environ.get('VERIF_SEED', '1'))
    cases = build_cases(mod, mode, seed)
    nwork = min(int(os.environ.get('VERIF_JOBS', getattr(mod, 'JOBS', 6))), max(1, len(cases)))
    deadline = t_0 + float(os.environ.get('VERIF_BUDGET', BUDGET[mode]))
    extra = t_0 + float(os.environ.get('VERIF_EXTRA', EXTRA[mode]))
    mon = Monitor(prop)
    done = 0
    ctx = mp.get_context('fork')
    queue = ctx.SimpleQueue()
    procs = [ctx.Process(target=_worker, args=(prop, mode, seed, cases, w, nwork, deadline, extra, queue))
             for w in range(nwork)]
    for p in procs:
        p.start()
    got = set()
    failed = []
    while len(got) < nwork:
        if not queue.empty():
            widx, d, err = queue.get()
            got.add(widx)
            if err is not None:
                failed.append(err)
            else:
                done += d.pop('done')
                mon.merge(d)
            continue
        dead = [i for i, p in enumerate(procs) if i not in got and not p.is_alive()]
        if dead and queue.empty():
            time.sleep(0.2)
            if queue.empty():
                for i in dead:
                    got.add(i)
                    failed.append('worker %d died with exit code %s' % (i, procs[i].exitcode))
        time.sleep(0.02)
    for p in procs:
        p.join()

    known = _known_keys(prop)
    hook = getattr(mod, 'required_events', None)
    missing = [e for e in (hook(mode) if hook else []) if not mon.events.get(e)]

    replay = []
    seen = set()
    for n, v in enumerate(mon.violations):
        tag = (v['event'], v['message'][:80])
        if tag in seen or len(replay) >= 10:
            continue
        seen.add(tag)
        path = os.path.join(EVID, 'replay', '%s-%d.json' % (prop, n))
        with open(path, 'w') as f:
            json.dump(jsonable({'property': prop, **v}), f, indent=1)
        replay.append((path, v))

    events = dict(sorted(mon.events.items()))
    coverage = {
        'evaluations': mon.evaluations,
        'distinct_nontrivial': len(mon.states),
        'rule': mod.RULE,
        'samples': [{'event': k, **s} for k, lst in sorted(mon.samples.items())
                    for s in lst[:1]][:12],
        'cases_run': done,
        'cases_generated': len(cases),
        'events': events,
    }
    evidence = {
        'property': prop, 'tier': mode, 'seed': seed, 'level': mod.LEVEL,
        'coverage': jsonable(coverage),
        'wall_s': round(time.time() - t_0, 2),
        'violations': len(mon.violations),
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
    }
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)

    print('%s %s seed=%d: %d cases, %d monitor evaluations, %d distinct observed states, %.1fs'
          % (prop, mode, seed, done, mon.evaluations, len(mon.states), time.time() - t_0))
    for k, v in events.items():
        print('   %-48s %d' % (k, v))
    for key, entry in known.items():
        if mon.known.get(key):
            print('KNOWN-FINDING: property=%s %s' % (prop, entry['what']))
    if replay:
        for path, v in replay:
            print('  violated: %s: %s %s' % (v['event'], v['message'],
                                             {k: x for k, x in v['info'].items()}))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if failed:
        print('INCONCLUSIVE: ' + '\n'.join(failed))
        return 2
    if missing or mon.evaluations == 0:
        print('INCONCLUSIVE: monitors never observed: %s' % missing)
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
