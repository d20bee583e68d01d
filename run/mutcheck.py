#!/usr/bin/env python3
"""One check on a mutated tree (see mutate.py). The drivers are deterministic, so only traces that differ from those of the unmutated
tree (accepted already) are validated. Prints MUT-SAME when no harness binary changed, MUT-QUIET when no trace did."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys
import check
from registry import PROPS
pid, root = sys.argv[1], sys.argv[2]
P = dict(PROPS[pid])
check.SEED = 1
BASE = '/tmp/mt/base'


def sha(b):
    return hashlib.sha256(open(b, 'rb').read()).hexdigest() if b else None


def built(repo, vdir, c):
    check.REPO = repo
    keep = check.VERIF
    check.VERIF = vdir
    h = check.tree_hash(check.repo_files() + glob.glob(os.path.join(check.HARN, '*')))
    try:
        return check.build(P['harness'], c, h)
    finally:
        check.VERIF = keep


def modes(c):
    return [m[0] if isinstance(m, tuple) else m for m in P['modes'] if not isinstance(m, tuple) or c in m[1]]


bd = os.path.join(BASE, pid)
os.makedirs(bd, exist_ok=True)
with open(bd + '.lock', 'w') as lk:
    fcntl.flock(lk, fcntl.LOCK_EX)
    if not os.path.exists(bd + '/done'):
        open(bd + '/script.txt', 'w').close()
        for j in P.get('gen', []):
            check.generate(j, bd, bd + '/script.txt')
        for c in P['configs']:
            b, err = built('/repo', BASE, c)
            if b:
                shutil.copy(b, f'{bd}/{c}.bin')
                for m in modes(c):
                    check.run_harness(b, c, m, 1, 'quick', f'{bd}/{c}/{m}', bd + '/script.txt', 600)
        open(bd + '/done', 'w').close()
changed = []
for i, c in enumerate(P['configs']):
    b, err = built(root, root, c)
    if b is None:
        if i == 0:
            print('harness does not build', err[-300:])
            sys.exit(2)
        continue
    if 'dbg' not in c and sha(b) != sha(f'{bd}/{c}.bin'):
        changed.append((c, b))
if not changed:
    print('MUT-SAME')
    sys.exit(0)
diff = []
for c, b in changed:
    for m in modes(c):
        od = f'{root}/out/{pid}/{c}/{m}'
        rc, err = check.run_harness(b, c, m, 1, 'quick', od, bd + '/script.txt', 120)
        if rc != 0:
            print('crash', rc)
            sys.exit(1)
        for t in glob.glob(od + '/*.ndjson'):
            ref = f'{bd}/{c}/{m}/' + os.path.basename(t)
            a, r = open(t).read(), open(ref).read() if os.path.exists(ref) else ''
            if a != r:
                al, rl = a.splitlines(), r.splitlines()
                k = next((i for i in range(min(len(al), len(rl))) if al[i] != rl[i]), min(len(al), len(rl)))
                diff.append((k, t, al))
if not diff:
    print('MUT-QUIET')
    sys.exit(0)
diff.sort(key=lambda d: d[0])
spec, cfg = P['trace'], P.get('trace_cfg') or P['trace'] + '.cfg'
sizes = set()
try:
    for n, (k, t, al) in enumerate(diff[:10]):
        for cut in (k + 150, len(al)):
            with open(t + '.cut', 'w') as f:
                f.write('\n'.join(al[:cut]) + '\n')
            r = check.validate(t + '.cut', spec, cfg, root, pid)
            if not r['ok']:
                print('rejected', al[r['at'] - 1][:300])
                sys.exit(1)
            if cut >= len(al):
                break
except check.CheckError as e:
    print('CHECK-ERROR', e)
    sys.exit(2)
print('MUT-ACCEPTED', [(d[1][len(root):], d[0]) for d in diff[:3]], diff[0][2][diff[0][0]][:300])
sys.exit(0)
