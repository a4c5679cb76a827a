"""Writes properties.jsonl and MANIFEST.json from tools/props_src.py.

A property is claimed when vm/props/<id>.py exists."""
import ast
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
from props_src import PROPS, NOT_APPLICABLE, NOTE  # noqa: E402


def design(props):
    here = os.path.join(ROOT, 'tools')
    with open(os.path.join(here, 'design_head.md')) as f:
        out = f.read()
    for p in props:
        path = os.path.join(ROOT, 'vm', 'props', p['id'].lower() + '.py')
        if p['id'] in NOT_APPLICABLE:
            out += '### %s %s\n\nNot applicable: %s\n\n' % (p['id'], p['title'],
                                                          NOT_APPLICABLE[p['id']])
            continue
        if not os.path.exists(path):
            continue
        rule = {}
        for node in ast.parse(open(path).read()).body:
            if isinstance(node, ast.Assign) and getattr(
                    node.targets[0], 'id', '') in ('RULE', 'ASSUMPTIONS'):
                rule[node.targets[0].id] = ast.literal_eval(node.value)
        out += '### %s %s\n\n' % (p['id'], p['title'])
        out += '* Oracle: %s.\n' % p['technique']
        out += '* Observed: %s.\n' % '; '.join(p['observe'])
        out += '* Workload and bounds: %s.\n' % rule['RULE']
        out += '* Reaches what tests cannot: %s\n' % p['why']
        out += '* Limits: %s\n\n' % ' '.join([p['note'].replace(NOTE, '')]
                                            + rule.get('ASSUMPTIONS', []))
    with open(os.path.join(here, 'design_tail.md')) as f:
        out += f.read()
    cpath = os.path.join(here, 'catches.json')
    if os.path.exists(cpath):
        out += '| planted bug | property | what it needs | quick check |\n|---|---|---|---|\n'
        with open(cpath) as f:
            for bid, c in sorted(json.load(f).items()):
                out += '| %s | %s | %s | %s |\n' % (bid, c['property'], c['needs'], c['result'])
    with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as f:
        f.write(out)


def main():
    lines, checks, notapp = [], [], []
    for p in PROPS:
        pid = p['id']
        built = os.path.exists(os.path.join(ROOT, 'vm', 'props', pid.lower() + '.py'))
        if not built and pid not in NOT_APPLICABLE:
            continue
        assert len(p['title']) <= 80, (pid, len(p['title']))
        lines.append(json.dumps({
            'id': pid, 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'state': p.get('state', []),
                        'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']],
                        'observe_at': p['observe'], 'hook_needed': None}}))
        if pid in NOT_APPLICABLE:
            notapp.append({'property': pid, 'reason': NOT_APPLICABLE[pid]})
            continue
        checks.append({
            'property': pid,
            'quick_cmd': 'bash check.sh %s quick' % pid,
            'thorough_cmd': 'bash check.sh %s thorough' % pid,
            'technique': p['technique'],
            'level': p.get('level', 'exploration'),
            'level_note': p['note']})
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        f.write('\n'.join(lines) + '\n')
    man = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': notapp,
           'hooks': {'guard': 'none', 'enable': 'no hooks were added to /repo: every monitor '
                     'observes through the public API', 'source_commits': []},
           'notes': 'All checks import the package from /repo (PYTHONPATH) at run time; the '
                    'package is pure Python, so nothing needs rebuilding.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    design(PROPS)
    print(len(checks), 'checks')


main()
