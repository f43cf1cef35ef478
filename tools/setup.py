#!/usr/bin/env python3
"""Checks that the tools the checks use are there and every specification parses."""
import glob, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/lib')
import vt
assert os.path.exists('/opt/veriftools/tla/tla2tools.jar')
assert os.path.exists(vt.PY)
from concurrent.futures import ThreadPoolExecutor
wd = tempfile.mkdtemp(prefix='verif-setup-')
for f in glob.glob(V + '/spec/*.tla'):
    shutil.copy(f, wd)
def sany(f):
    return subprocess.run(['java', '-XX:TieredStopAtLevel=1', '-Djava.io.tmpdir=' + wd, '-cp',
                           '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar',
                           'tla2sany.SANY', os.path.basename(f)], cwd=wd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
bad = 0
fs = sorted(glob.glob(wd + '/*.tla'))
with ThreadPoolExecutor(8) as ex:
    for f, r in zip(fs, ex.map(sany, fs)):
        if r.returncode or 'error' in r.stdout.lower().replace('errors: 0', ''):
            print(os.path.basename(f)); print(r.stdout[-1500:]); bad += 1
shutil.rmtree(wd)
print('setup:', len(fs), 'modules parsed,', bad, 'bad')
sys.exit(1 if bad else 0)
