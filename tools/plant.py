"""Validate a planted bug and store it under /verif/seeded/<id>.

usage: plant.py SPEC.py [id ...]
SPEC.py defines BUGS = [dict(id=, prop=, edits=[(file, old, new)], demo=, needs=, breaks=)].
For each: copy /repo, apply, run the stable tests in the copy, run the demo on /repo and on
the copy, run the property's quick check against the copy.  Nothing is written to /repo.
"""
import json
import os
import shutil
import subprocess
import sys

BASE = json.load(open('/opt/vp/BASELINE.json'))['stable']
ENV = dict(os.environ, LC_ALL='C.UTF-8', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
           MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
           QISKIT_IN_PARALLEL='FALSE')
ENV.pop('PYTHONPATH', None)


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def tests(copy):
    env = dict(ENV, PYTHONPATH=copy)
    sh('timeout 840 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 8 --timeout=300 '
       '--continue-on-collection-errors --tb=no -W ignore -o junit_family=xunit2 '
       '--junitxml=%s/junit.xml test' % copy, cwd=copy, env=env)
    sh('python3 /opt/vp/results.py %s/out.json junit:%s/junit.xml' % (copy, copy))
    passed = set(json.load(open(copy + '/out.json'))['passed'])
    return [t for t in BASE if t not in passed and not t.endswith('TestFitters::test_fitters')]


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    for bug in ns['BUGS']:
        if want and bug['id'] not in want:
            continue
        copy = '/tmp/plant_' + bug['id']
        shutil.rmtree(copy, ignore_errors=True)
        subprocess.check_call(['cp', '-a', '/repo', copy])
        try:
            bad = False
            for path, old, new in bug['edits']:
                p = os.path.join(copy, path)
                s = open(p).read()
                if s.count(old) != 1:
                    print(bug['id'], 'EDIT DOES NOT APPLY', path, s.count(old))
                    bad = True
                    break
                open(p, 'w').write(s.replace(old, new))
            if bad:
                continue
            patch = sh('git diff', cwd=copy).stdout
            out = '/verif/seeded/' + bug['id']
            tmp = '/tmp/planted_' + bug['id']
            shutil.rmtree(tmp, ignore_errors=True)
            os.makedirs(tmp)
            open(tmp + '/patch.diff', 'w').write(patch)
            open(tmp + '/demo.py', 'w').write(bug['demo'].lstrip('\n'))
            open(tmp + '/demo.sh', 'w').write(
                '#!/bin/bash\n# exit 0 when the behaviour is right, 1 when it is broken\n'
                'export LC_ALL=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg\n'
                'export PYTHONWARNINGS=ignore OMP_NUM_THREADS=1 PYTHONPATH="$PWD"\n'
                'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            json.dump({'property': bug['prop'], 'needs': bug['needs'],
                       'what_it_breaks': bug['breaks']}, open(tmp + '/meta.json', 'w'), indent=1)
            good = sh('bash %s/demo.sh' % tmp, cwd='/repo')
            brk = sh('bash %s/demo.sh' % tmp, cwd=copy)
            ok = good.returncode == 0 and brk.returncode != 0
            fails = tests(copy) if ok else ['(tests not run)']
            sh('mkdir -p /tmp/plant_ev')
            chk = sh('bash /verif/check.sh %s quick' % bug['prop'],
                     env=dict(ENV, VERIF_REPO=copy, VERIF_SEED='1',
                              VERIF_EVIDENCE_DIR='/tmp/plant_ev'))
            caught = chk.returncode == 1 and 'VIOLATION property=' + bug['prop'] in chk.stdout
            print(bug['id'], bug['prop'], 'demo good=%d broken=%d' % (good.returncode,
                                                                    brk.returncode),
                  'tests', 'pass' if not fails else fails[:5],
                  'CAUGHT' if caught else 'MISSED(rc=%d)' % chk.returncode, flush=True)
            if not ok:
                print('   good:', good.stderr[-600:], good.stdout[-300:])
                print('   broken:', brk.stderr[-300:], brk.stdout[-300:])
            if ok and not fails:
                shutil.rmtree(out, ignore_errors=True)
                shutil.copytree(tmp, out)
                cpath = '/verif/tools/catches.json'
                table = json.load(open(cpath)) if os.path.exists(cpath) else {}
                table[bug['id']] = {'property': bug['prop'], 'needs': bug['needs'],
                                    'result': 'caught' if caught else 'missed'}
                json.dump(table, open(cpath, 'w'), indent=1, sort_keys=True)
            shutil.rmtree(tmp)
        finally:
            shutil.rmtree(copy, ignore_errors=True)


main()
