#!/usr/bin/env python3
"""seed.py ID...: (re)plant the bugs defined in tools/seeds/*.py one by one in /repo, confirm each, run its check, undo.

A definition file sets: prop, needs, breaks, edits = [(file, old, new), ...], demo = C source (or demo_sh = shell text).
Writes seeded/<ID>/{patch.diff,demo.sh,demo.c,meta.json} only when the bug is confirmed."""
import sys, os, subprocess, json, runpy, shutil, tempfile, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = '/repo'
BASE = '745e1a7'
DEMO_SH = '''#!/bin/bash
# exit 0: behaves as documented; nonzero: the defect shows.  cwd is the repository, already built in _build.
d=$(cd "$(dirname "$0")" && pwd); w=$(mktemp -d) || exit 3; trap 'rm -rf "$w"' EXIT
gcc -D_GNU_SOURCE -w -I include -o "$w/demo" "$d/demo.c" _build/libkqueue.so -Wl,-rpath,"$PWD/_build" -lpthread || exit 3
cd "$w" && timeout -s KILL %d %s ./demo
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def undo(): sh('git checkout -- .', cwd=R)
def build():
    r = sh('bash /opt/vp/build.sh'); return r.returncode == 0, (r.stdout + r.stderr)[-1500:]
def demo(d): 
    try: r = sh('bash %s/demo.sh' % d, cwd=R, timeout=300); return r.returncode, (r.stdout + r.stderr)[-300:]
    except subprocess.TimeoutExpired: return 124, 'timeout'
def one(bid, clean_only=False, nocheck=False):
    s = runpy.run_path('%s/tools/seeds/%s.py' % (ROOT, bid))
    t = tempfile.mkdtemp(); d = os.path.join(t, bid); os.mkdir(d)
    try:
        open(d + '/demo.sh', 'w').write(s.get('demo_sh') or DEMO_SH % (s.get('limit', 60), s.get('wrap', '')))
        if 'demo' in s: open(d + '/demo.c', 'w').write(s['demo'])
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
        build()
        for n in range(2):
            rc, o = demo(d)
            if rc: print(bid, 'DEMO FAILS ON CLEAN', rc, o); return
        for f, a, b in s['edits']:
            p = os.path.join(R, f); x = open(p).read()
            if x.count(a) != 1: print(bid, 'EDIT does not match once:', f, x.count(a), repr(a[:60])); return
            open(p, 'w').write(x.replace(a, b))
        df = sh('git diff', cwd=R).stdout
        open(d + '/patch.diff', 'w').write(df)
        ok, o = build()
        if not ok: print(bid, 'BUILD FAILS', o); return
        rcs = [demo(d) for n in range(2)]
        if not all(rc for rc, o in rcs): print(bid, 'DEMO DOES NOT SHOW IT', rcs); return
        sh('bash /opt/vp/test.sh %s/out.json' % t)
        b = json.load(open('/opt/vp/BASELINE.json')); o = json.load(open(t + '/out.json'))
        miss = [x for x in b['stable'] if x not in o['passed']]
        if miss: print(bid, 'TESTS CATCH IT', miss[:4]); return
        det = ''
        if not nocheck:
            t0 = time.time(); r = sh('python3 kqsa/check.py %s --tier quick' % s['prop'], cwd=ROOT)
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION property=%s ' % s['prop'])]
            det = 'CAUGHT' if r.returncode == 1 and v else 'MISSED rc=%d' % r.returncode
            det += ' %.0fs ' % (time.time() - t0) + ' | '.join(x.strip()[:200] for x in r.stdout.splitlines() if x.startswith('  '))[:330]
        out = os.path.join(ROOT, 'seeded', bid); shutil.rmtree(out, ignore_errors=True); shutil.copytree(d, out)
        print(bid, s['prop'], 'CONFIRMED', det, flush=True)
    finally:
        undo(); shutil.rmtree(t, ignore_errors=True)
if sh('git status --porcelain --untracked-files=no', cwd=R).stdout.strip(): sys.exit('repo not clean')
build()
try:
    for b in sys.argv[1:]:
        if b != '-n': one(b, nocheck='-n' in sys.argv)
finally: undo(); print('rebuilt clean', build()[0])
