#!/usr/bin/env python3
"""Make /verif/seeded/<id>/ from a description file: python3 tools/plant.py FILE...
A description is Python: id, property, file, edits=[(old,new),...] (or edits with (file,old,new)), needs, breaks, demo (Python run from cwd = repo)."""
import sys, os, subprocess, json, shutil, tempfile
HEAD = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
H=$(mktemp -d)
trap 'rm -rf -- "$H"' EXIT
HOME=$H PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$PWD DEMO_SCRATCH=$H timeout 250 /opt/venv/bin/python "$D/demo.py" >"$H/log" 2>&1
rc=$?
tail -5 "$H/log"
exit $rc
'''
PRE = '''import os, sys, types
os.chdir(os.environ['DEMO_SCRATCH'])
sys.argv = ['demo']
from BibleOrgSys import BibleOrgSysGlobals as G
G.commandLineArguments = types.SimpleNamespace(export=False)
G.verbosityLevel = 0; G.verbosityString = 'Silent'; G.maxProcesses = 1
import logging; logging.disable(logging.CRITICAL)
G.preloadCommonData()
'''
def run(cmd, cwd): return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
def passed(cwd, out):
    return None
def main(path):
    d = {}; exec(open(path).read(), d)
    edits = [(e if len(e) == 3 and isinstance(e[2], str) else (d['file'],) + tuple(e)) for e in d['edits']]
    def sub(s, o, n, k=None):
        if k is None: return s.replace(o, n)
        q = s.split(o); return o.join(q[:k + 1]) + n + o.join(q[k + 1:]) # only the k-th of several
    out = '/verif/seeded/' + d['id']
    os.makedirs(out, exist_ok=True)
    for f, o, n, *k in edits:
        s = open('/repo/' + f).read()
        if s.count(o) != 1 and not k or k and s.count(o) <= k[0]: print(d['id'], 'edit matches', s.count(o), 'times in', f, repr(o[:60])); return 1
    if run(['git', 'status', '--porcelain'], '/repo').stdout: print('repo not clean'); return 1
    open(out + '/demo.py', 'w').write(PRE + d['demo'].strip('\n') + '\n')
    open(out + '/demo.sh', 'w').write(HEAD); os.chmod(out + '/demo.sh', 0o755)
    json.dump({'property': d['property'], 'needs': d['needs'], 'what_it_breaks': d['breaks']}, open(out + '/meta.json', 'w'), indent=1)
    a = run(['bash', out + '/demo.sh'], '/repo')
    try:
        for f, o, n, *k in edits:
            s = sub(open('/repo/' + f).read(), o, n, *k); open('/repo/' + f, 'w').write(s)
        diff = run(['git', 'diff'], '/repo').stdout
        open(out + '/patch.diff', 'w').write(diff)
        b = run(['bash', out + '/demo.sh'], '/repo')
        t = run(['bash', '-c', 'bash /opt/vp/build.sh >/dev/null 2>&1; bash /opt/vp/test.sh /tmp/plant_o.json | tail -1'], '/repo')
        ck = run(['./check', d.get('harness') or harnessOf(d['property'])], '/verif') if '--nocheck' not in sys.argv else None
    finally:
        run(['git', 'checkout', '--', '.'], '/repo')
    ok = a.returncode == 0 and b.returncode != 0 and '214 passed' in t.stdout
    print(d['id'], 'OK' if ok else 'BAD', 'unchanged', a.returncode, 'patched', b.returncode, t.stdout.strip(), '| check:', None if ck is None else (ck.returncode, ck.stdout.strip()[-160:]))
    if ck is not None and ok:
        f = '/verif/tools/caught.json'; c = json.load(open(f)) if os.path.exists(f) else {}
        c[d['id']] = ck.returncode == 1; json.dump(c, open(f, 'w'), indent=1, sort_keys=True)
    if not ok: print(' unchanged:', a.stdout[-600:], '\n patched:', b.stdout[-600:])
def harnessOf(p):
    sys.path.insert(0, '/verif/tools'); import props
    return [q['harness'] for q in props.P if q['id'] == p][0]
for p in sys.argv[1:]:
    if not p.startswith('--'): main(p)
