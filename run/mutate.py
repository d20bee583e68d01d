#!/usr/bin/env python3
"""Systematic self-test: mutates single tokens of /repo's code in scratch copies and runs the checks of the properties anchored
in that file. Development tool; nothing registered in MANIFEST.json uses it.

  mutate.py COUNT OUT.jsonl [FILE-SUBSTRING...]      (run from a scratch copy of /verif; MUT_SEED, MUT_JOBS)

Outcome per mutant: killed (by which check), nobuild, same (no harness binary changes: unreachable, uninstantiated or equivalent
at compile time), survived.
"""
import concurrent.futures as cf, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'run'))
import check
from registry import PROPS, CONFIGS
MAP = [('source/bvh.cpp', 'B01 B02 B04 B05 B06 B03'), ('math/bvh.hpp', 'B01 B02 B04 B06'), ('aabb.', 'A01 A02 A03 A04 V06 B02'), ('ray.hpp', 'A02 G02'), ('math/plane.hpp', 'G01 G03 A04'),
       ('line.hpp', 'G02'), ('sphere.hpp', 'G02'), ('triangle.hpp', 'G02 A03'), ('simd/vector/float.hpp', 'V04 V05 V06 A01'), ('simd/vector/', 'V02 V05 V06'),
       ('vector/float.hpp', 'V03 V05 V06'), ('vector/', 'V01 V05 V06'), ('simd/matrix', 'M01 M02 M03 V06'), ('matrix/float', 'M01 M02 M03 V06'),
       ('transform.hpp', 'T01 T03'), ('projection.hpp', 'G03'), ('quaternion.hpp', 'T02 T03 T01'), ('angles.hpp', 'C05 T03'), ('common.hpp', 'C05 V03'),
       ('color-space', 'R04 C02'), ('color.hpp', 'C02 V06'), ('hex.hpp', 'C01'), ('version.hpp', 'C03'), ('flags.hpp', 'C04'), ('packed', 'P01'),
       ('ibl.hpp', 'R02'), ('brdf.hpp', 'R02'), ('sh.hpp', 'R03'), ('tone', 'R04')]
SKIP = ('pbr-colors', 'types.hpp', 'math/vector.hpp', 'math/matrix.hpp')


def props_of(rel):
    for k, p in MAP:
        if k in rel:
            return p.split()
    return []


RULES = [(r'(?<![<>=!+\-*/&|^%])<(?![<=])', ['<=', '>']), (r'(?<![<>=!\-])>(?![>=])', ['>=', '<']), (r'<=', ['<']), (r'>=', ['>']),
         (r'==', ['!=']), (r'!=', ['==']), (r'&&', ['||']), (r'\|\|', ['&&']), (r'(?<=[\w)\]] )\+(?= )', ['-']), (r'(?<=[\w)\]] )-(?= )', ['+']),
         (r'(?<=[\w)\]] )\*(?= )', ['/', '+']), (r'(?<=[\w)\]] )/(?= )', ['*']), (r'\+=', ['-=']), (r'-=', ['+=']), (r'\*=', ['/=', '+=']), (r'/=', ['*=']),
         (r'<<', ['>>']), (r'>>', ['<<']), (r'(?<=[\w)\]] )&(?= )', ['|', '^']), (r'(?<=[\w)\]] )\|(?= )', ['&', '^']),
         (r'\b\d+(?=u?\b)(?![.\w])', ['+1', '-1']), (r'\b\d+\.\d+f\b', ['*2', 'neg', '+']), (r'\b0x[0-9A-Fa-f]+', ['^1']),
         (r'(?<=\.)[xyzw]\b', list('xyzw')), (r'(?<=get)[XYZW]\b', list('XYZW')), (r'(?<=set)[XYZW]\b', list('XYZW')), (r'(?<=Swizzle)\w', []),
         (r'\bmin(?=[(4I])', ['max']), (r'\bmax(?=[(4I])', ['min']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
         (r'\bc([0-3])\b', ['c0', 'c1', 'c2', 'c3']), (r'\bsin\b', ['cos']), (r'\bcos\b', ['sin']), (r'(?<=[(,=] )-(?=\w)', ['']), (r'(?<=\()-(?=\w)', ['']),
         (r'(?<=_)add(?=_)', ['sub']), (r'(?<=_)sub(?=_)', ['add']), (r'(?<=_)and(?=_)', ['or']), (r'(?<=_)or(?=_)', ['and']),
         (r'(?<=_)min(?=_)', ['max']), (r'(?<=_)max(?=_)', ['min']), (r'(?<=_)cmpeq(?=_)', ['cmpneq']), (r'(?<=_)cmplt(?=_)', ['cmple']), (r'(?<=_)cmpgt(?=_)', ['cmpge', 'cmplt']),
         (r'(?<=_)cmpge(?=_)', ['cmpgt']), (r'(?<=_)cmple(?=_)', ['cmplt']), (r'\bdot3\b', ['dot4']), (r'\ball\b', ['any']), (r'\bany\b', ['all']), (r'3(?=\()', ['4']), (r'4(?=\()', ['3'])]


def sites(text):
    out, block = [], False
    for i, ln in enumerate(text.split('\n')):
        s = ln.strip()
        if block:
            block = '*/' not in s
            continue
        if s.startswith('/*'):
            block = '*/' not in s
            continue
        if s.startswith('//') or s.startswith('#') or not s or s.startswith('template'):
            continue
        code = ln.split('//')[0]
        for rx, reps in RULES:
            for m in re.finditer(rx, code):
                for r in reps:
                    g = m.group(0)
                    if r in ('+1', '-1'):
                        n = int(g) + int(r)
                        if n < 0:
                            continue
                        new = str(n)
                    elif r == '*2':
                        new = f'({g} * 2.0f)'
                    elif r == 'neg':
                        new = f'-{g}'
                    elif r == '+' and 'f' in g and '.' in g:
                        new = f'({g} + 0.01f)'
                    elif r == '^1':
                        new = hex(int(g, 16) ^ 1)
                    else:
                        new = r
                    if new == g:
                        continue
                    out.append((i, m.start(), m.end(), new))
        if re.match(r'^\s*[\w.\[\]>-]+(\s*[-+*/|&^]?=|\+\+|\().*;\s*$', code) and not s.startswith(('return', 'using', 'typedef', 'static_assert')):
            ind = len(ln) - len(ln.lstrip())
            out.append((i, ind, len(code), ';'))
    return out


def run_check(pid, repo, wdbase, fast):
    env = dict(os.environ, VERIF_REPO=repo, MUT='1')
    p = subprocess.run([sys.executable, os.path.join(V, 'run', 'mutcheck.py'), pid, wdbase], env=env, capture_output=True, text=True, timeout=1500)
    return p.returncode, p.stdout + p.stderr


def one(job):
    k, rel, site = job
    root = f'/tmp/mt/m{k}'
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    for d in ('include', 'source'):
        shutil.copytree(os.path.join('/repo', d), os.path.join(root, d))
    f = os.path.join(root, rel)
    lines = open(f).read().split('\n')
    i, a, b, new = site
    old = lines[i]
    lines[i] = old[:a] + new + old[b:]
    open(f, 'w').write('\n'.join(lines))
    rec = {'file': rel, 'line': i + 1, 'old': old.strip(), 'new': lines[i].strip()}
    res = 'same'
    for pid in props_of(rel):
        rc, out = run_check(pid, root, root, True)
        if 'MUT-SAME' in out:
            continue
        if rc == 1:
            res = 'killed'
            rec['by'] = pid
            break
        if rc == 2:
            res = 'nobuild' if 'does not build' in out else 'error'
            rec['out'] = out[-600:]
            rec['by'] = pid
            break
        res = 'accepted' if 'MUT-ACCEPTED' in out else res if res == 'accepted' else 'survived'
        if 'MUT-ACCEPTED' in out:
            rec['out'] = out[-500:]
    rec['res'] = res
    shutil.rmtree(root, ignore_errors=True)
    return rec


if __name__ == '__main__':
    n, outf, subs = int(sys.argv[1]), sys.argv[2], sys.argv[3:]
    rng = random.Random(int(os.environ.get('MUT_SEED', '1')))
    allf = [os.path.relpath(f, '/repo') for f in check.repo_files()]
    allf = [f for f in sorted(allf) if f.endswith('pp') and not any(s in f for s in SKIP) and (not subs or any(s in f for s in subs))]
    per = []
    for f in allf:
        ss = sites(open('/repo/' + f).read())
        rng.shuffle(ss)
        per.append((f, ss))
    jobs = []
    if n == 0:
        jobs = [(f, s) for f, ss in per for s in ss]
    else:
        r = 0
        while len(jobs) < n and any(ss for _, ss in per):
            for f, ss in per:
                w = 1 if r else 1
                for _ in range(w):
                    if ss and len(jobs) < n:
                        jobs.append((f, ss.pop()))
            r += 1
    print(len(jobs), 'mutants', flush=True)
    with cf.ThreadPoolExecutor(int(os.environ.get('MUT_JOBS', '4'))) as ex, open(outf, 'a') as out:
        for rec in ex.map(one, [(k, f, s) for k, (f, s) in enumerate(jobs)]):
            out.write(json.dumps(rec) + '\n')
            out.flush()
