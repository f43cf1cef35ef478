#!/usr/bin/env python3
"""trybug.py ID [--nocheck] [PROP...]: tries the planted bug seeded/ID in a scratch copy of /repo:
applies, builds, runs the repository's tests and the demonstration with and without it, and
then the property's check (and those of the other PROPs)."""
import json, os, re, shutil, subprocess, sys
V = '/verif'
args = sys.argv[1:]
nocheck = '--nocheck' in args
args = [a for a in args if not a.startswith('--')]
bug, props = args[0], args[1:]
d = os.path.join(V, 'seeded', bug)
meta = json.load(open(d + '/meta.json'))
W = '/tmp/sw-' + bug
shutil.rmtree(W, ignore_errors=True)
os.mkdir(W)
R = W + '/repo'
subprocess.check_call(['cp', '-a', '/repo', R])
os.mkdir(W + '/vp')
for f in ('build.sh', 'test.sh', 'run_tests.py', 'results.py'):
    s = open('/opt/vp/' + f).read().replace('/opt/vp', W + '/vp').replace('/repo', R)
    open(W + '/vp/' + f, 'w').write(s)
def sh(*c, **k):
    return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def demo():
    r = sh('timeout', '300', 'bash', d + '/demo.sh', cwd=R, env=dict(PATH=os.environ['PATH'], HOME='/root'))
    return r.returncode, r.stdout
ok = True
try:
    r = sh('bash', W + '/vp/build.sh')
    assert r.returncode == 0, r.stdout[-2000:]
    rc, out = demo()
    print('demo on the unchanged tree:', rc)
    if rc: ok = False; print(out[-2000:])
    r = sh('git', 'apply', d + '/patch.diff', cwd=R)
    assert r.returncode == 0, r.stdout
    r = sh('bash', W + '/vp/build.sh')
    assert r.returncode == 0, r.stdout[-3000:]
    for l in r.stdout.splitlines():
        if 'warning' in l: print(l)
    rc, out = demo()
    print('demo with the bug:', rc, out.strip()[-300:])
    if not rc: ok = False
    base = json.load(open('/opt/vp/BASELINE.json'))
    stable = set(base['stable'])
    r = sh('bash', W + '/vp/test.sh', W + '/t.json')
    t = json.load(open(W + '/t.json'))
    passed = set(t['passed'])
    lost = stable - passed
    print('tests lost:', sorted(lost)[:8])
    if lost: ok = False
    print('BUG COUNTS' if ok else '*** DOES NOT COUNT ***')
    if not nocheck:
        for p in [meta['property']] + props:
            r = sh(sys.executable, V + '/check.py', p, env=dict(os.environ, VERIF_REPO=R), cwd=V)
            viol = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            print(p, 'CAUGHT' if r.returncode == 1 and viol else '*** MISSED *** rc=%s' % r.returncode)
            print('\n'.join(r.stdout.splitlines()[:1])[:500] if r.returncode == 1 else r.stdout[-600:])
finally:
    shutil.rmtree(W, ignore_errors=True)
