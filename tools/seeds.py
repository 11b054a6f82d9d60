#!/usr/bin/env python3
"""seeds.py make [ID..]   write seeded/<id>/ from seeds_def.py
   seeds.py test [ID..]   apply to /repo, run tests + demo + check, undo
"""
import json
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from seeds_def import SEEDS  # noqa: E402

DEMO_SH = '''#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the change; run with cwd /repo
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **kw)


def make(s):
    d = os.path.join(ROOT, 'seeded', s['id'])
    os.makedirs(d, exist_ok=True)
    with tempfile.TemporaryDirectory() as t:
        diffs = []
        by = {}
        for fn, old, new in s['edits']:
            src = by.get(fn)
            if src is None:
                src = sh('git -C /repo show HEAD:' + fn).stdout
            assert src.count(old) == 1, (s['id'], fn, src.count(old), old)
            by[fn] = src.replace(old, new)
        for fn, new in by.items():
            a = os.path.join(t, 'a', fn)
            b = os.path.join(t, 'b', fn)
            for p, c in ((a, sh('git -C /repo show HEAD:' + fn).stdout),
                         (b, new)):
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, 'w') as f:
                    f.write(c)
            diffs.append(sh('git diff --no-index --no-color a/%s b/%s'
                            % (fn, fn), cwd=t).stdout)
        text = ''.join(diffs)
        text = text.replace('a/a/', 'a/').replace('b/b/', 'b/')
    with open(os.path.join(d, 'patch.diff'), 'w') as f:
        f.write(text)
    with open(os.path.join(d, 'demo.sh'), 'w') as f:
        f.write(DEMO_SH)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    with open(os.path.join(d, 'demo.py'), 'w') as f:
        f.write(s['demo'].strip() + '\n')
    with open(os.path.join(d, 'meta.json'), 'w') as f:
        json.dump({'property': s['property'], 'needs': s['needs'],
                   'what_it_breaks': s['breaks']}, f, indent=1)
        f.write('\n')


def baseline_ok(path):
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    r = json.load(open(path))
    passed = set(r.get('passed', []))
    return sorted(stable - passed)


def test(s, run_tests=True):
    d = os.path.join(ROOT, 'seeded', s['id'])
    out = {}
    p = sh('bash %s/demo.sh' % d, cwd='/repo')
    out['clean'] = p.returncode
    assert p.returncode == 0, (s['id'], p.stdout)
    p = sh('git -C /repo apply %s/patch.diff' % d)
    assert p.returncode == 0, (s['id'], p.stdout)
    try:
        p = sh('bash %s/demo.sh' % d, cwd='/repo')
        out['patched'] = p.returncode
        if run_tests:
            sh('bash /opt/vp/build.sh')
            sh('bash /opt/vp/test.sh /tmp/seedtest.json')
            out['broken_tests'] = baseline_ok('/tmp/seedtest.json')[:5]
        p = sh('/opt/venv/bin/python mc/run.py %s' % s['property'], cwd=ROOT)
        out['check'] = p.returncode
        out['caught'] = (p.returncode == 1 and
                         'VIOLATION property=%s ' % s['property'] in p.stdout)
        if not out['caught']:
            out['tail'] = p.stdout[-300:]
    finally:
        sh('git -C /repo checkout -- .')
    return out


def main():
    cmd, ids = sys.argv[1], [a for a in sys.argv[2:] if a[0] != '-']
    for s in SEEDS:
        if ids and s['id'] not in ids and s['property'] not in ids:
            continue
        if cmd == 'make':
            make(s)
            print('made', s['id'])
        else:
            print(s['id'], s['property'],
                  json.dumps(test(s, '--fast' not in sys.argv)), flush=True)


if __name__ == '__main__':
    main()
