#!/usr/bin/env python3
"""Development helper for planted bugs (no check uses it):
   seed.py new ID PROP FILE OLD NEW NEEDS BREAKS DEMO.cpp [g++ flags]   make seeded/ID from a replacement in FILE
   seed.py try ID...            scratch copy: tests pass, demo 0 without / nonzero with the patch, the check catches it"""
import json, os, shutil, subprocess, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def new(sid, prop, file, old, neu, needs, breaks, demo, flags=''):
    d = os.path.join(V, 'seeded', sid); os.makedirs(d, exist_ok=True)
    p = os.path.join('/repo', file); s = open(p).read()
    assert s.count(old) == 1, (sid, s.count(old))
    a, b = f'/tmp/seed-a', f'/tmp/seed-b'
    open(a, 'w').write(s); open(b, 'w').write(s.replace(old, neu))
    diff = sh(f'diff -u --label a/{file} --label b/{file} {a} {b}').stdout
    open(os.path.join(d, 'patch.diff'), 'w').write(f'diff --git a/{file} b/{file}\n' + diff)
    with open(os.path.join(d, 'demo.sh'), 'w') as f:
        f.write(f'#!/bin/bash\n# exit 0 when the property holds\nd="$(cd "$(dirname "$0")" && pwd)"\n'
                f'g++ -std=c++17 -O1 -w -D_USE_MATH_DEFINES {flags} -I include "$d/demo.cpp" source/*.cpp -o /tmp/vdemo-{sid} || exit 2\n'
                f'timeout 100 /tmp/vdemo-{sid}; rc=$?\nrm -f /tmp/vdemo-{sid}\nexit $rc\n')
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    open(os.path.join(d, 'demo.cpp'), 'w').write(demo)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
def attempt(sid):
    d = os.path.join(V, 'seeded', sid); prop = json.load(open(os.path.join(d, 'meta.json')))['property']
    w = f'/tmp/seedtree-{sid}'; shutil.rmtree(w, ignore_errors=True)
    sh(f'mkdir {w} && cp -a /repo/include /repo/source /repo/tests {w}/')
    r0 = sh(f'bash {d}/demo.sh', cwd=w)
    ap = sh(f'git apply --unsafe-paths --directory={w} {d}/patch.diff', cwd='/'); 
    if ap.returncode: ap = sh(f'patch -p1 < {d}/patch.diff', cwd=w)
    tests = 'ok'
    for t in glob.glob(w + '/tests/*.cpp'):
        c = sh(f'g++ -std=c++17 -O1 -w -march=haswell -D_USE_MATH_DEFINES -I include {t} source/*.cpp -o {w}/t && {w}/t', cwd=w)
        if c.returncode: tests = 'FAIL ' + t + c.stderr[:300]
    r1 = sh(f'bash {d}/demo.sh', cwd=w)
    ck = sh(f'python3 {V}/run/check.py {prop} quick', env=dict(os.environ, VERIF_REPO=w))
    print(sid, prop, 'apply', ap.returncode, 'tests', tests, 'demo', r0.returncode, r1.returncode, r1.stderr[:200] if r1.returncode == 2 else '', 'check', ck.returncode, (ck.stdout.strip().splitlines() or [''])[0][:200], flush=True)
    shutil.rmtree(w, ignore_errors=True)
if __name__ == '__main__':
    if sys.argv[1] == 'try':
        for s in sys.argv[2:]: attempt(s)
