"""makes /verif/seeded/<id>: applies an edit to a scratch copy, confirms tests pass and the demo tells the two apart"""
import os, subprocess, sys, json, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUGS = {}
PRE = '''import pandas as pd, numpy as np, sys, os
from nempy import markets
def df(*cols, rows):
    return pd.DataFrame([list(r) for r in rows], columns=list(cols))
'''


def bug(id, prop, file, edits, demo, needs, breaks):
    BUGS[id] = (prop, file, edits, demo, needs, breaks)


for f in sorted(os.listdir(os.path.join(HERE, 'tools', 'bugs'))):
    if f.endswith('.py'):
        exec(open(os.path.join(HERE, 'tools', 'bugs', f)).read())


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def make(id):
    prop, file, edits, demo, needs, breaks = BUGS[id]
    w = '/tmp/bugw'
    shutil.rmtree(w, ignore_errors=True)
    sh('git -C /repo worktree prune; cp -a /repo ' + w)
    for old, new in edits:
        fn = file
        if isinstance(old, tuple):
            fn, old = old
        p = os.path.join(w, fn)
        s = open(p).read()
        if s.count(old) != 1:
            print(id, 'EDIT MATCHES', s.count(old), repr(old[:60]))
            return False
        open(p, 'w').write(s.replace(old, new))
    d = os.path.join(HERE, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, 'demo.py'), 'w').write(PRE + demo)
    open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    open(os.path.join(d, 'patch.diff'), 'w').write(sh('git -C %s diff' % w).stdout)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    ok = sh('bash %s/demo.sh' % d, cwd='/repo')
    bad = sh('bash %s/demo.sh' % d, cwd=w, env=dict(os.environ, PYTHONPATH=w + '/src'))
    t = sh('/opt/venv/bin/python -c "import nempy;print(nempy.__file__)"', cwd=w, env=dict(os.environ, PYTHONPATH=w + '/src'))
    if os.environ.get('NOTEST'):
        print(id, 'clean', ok.returncode, 'bug', bad.returncode, (ok.stdout+ok.stderr)[-300:], '|', (bad.stdout+bad.stderr)[-300:], t.stdout.strip())
        return
    # tests in /repo itself (they import the installed package)
    sh('git -C /repo apply %s/patch.diff' % d)
    try:
        r = sh('bash /opt/vp/build.sh >/dev/null 2>&1; bash /opt/vp/test.sh /tmp/bug_out.json >/dev/null 2>&1')
        base = json.load(open('/opt/vp/BASELINE.json'))
        out = json.load(open('/tmp/bug_out.json'))
    finally:
        sh('git -C /repo checkout -- .')
    names = base.get('passed') or base.get('stable') or base.get('tests')
    passed = set(out.get('passed', []))
    lost = [n for n in names if n not in passed]
    good = ok.returncode == 0 and bad.returncode != 0 and not lost
    print(id, 'OK' if good else 'BAD', 'clean', ok.returncode, 'bug', bad.returncode, 'lost', lost[:3],
          '' if good else (ok.stdout + ok.stderr)[-600:] + (bad.stdout + bad.stderr)[-600:], t.stdout.strip())
    shutil.rmtree(w, ignore_errors=True)
    return good


for i in sys.argv[1:] or [b for b in BUGS if not os.path.exists(os.path.join(HERE, 'seeded', b, 'patch.diff'))]:
    make(i)
