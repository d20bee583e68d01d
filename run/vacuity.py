#!/usr/bin/env python3
"""Is the oracle vacuous anywhere?  vacuity.py [ID...]

Records the traces of a check, perturbs single fields of single events and lets TLC judge the altered trace.  Reports, per operation and field:
  exact      changing one number by one is rejected
  tolerance  only a larger change is rejected
  FREE       no change tried is rejected (an operand whose value does not matter to the result, or a hole in the specification)
"""
import collections, concurrent.futures as cf, copy, glob, json, os, random, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
from registry import PROPS

rng = random.Random(5)


def leaves(x, path=()):
    if isinstance(x, list):
        for i, y in enumerate(x):
            yield from leaves(y, path + (i,))
    else:
        yield path


def at(e, path):
    for p in path:
        e = e[p]
    return e


def put(e, path, v):
    e = copy.deepcopy(e)
    x = e
    for p in path[:-1]:
        x = x[p]
    x[path[-1]] = v
    return e


def changes(v):
    if isinstance(v, bool):
        return [('exact', not v)]
    if isinstance(v, int):
        d = abs(v) // 3 + 97
        far = v + d if v < 0x7fffffff - d else v - d
        return [('exact', v + 1 if v < 0x7ffffffe else v - 1), ('tolerance', far), ('tolerance', 0 if v else 1 << 20), ('tolerance', -v - 1)]
    return [('exact', str(v) + '?')]


def accepted(events, spec, wd, pid):
    f = os.path.join(wd, 'v%d.ndjson' % rng.randrange(1 << 60))
    with open(f, 'w') as o:
        o.writelines(json.dumps(e, separators=(',', ':')) + '\n' for e in events)
    rc, out = check.tlc(spec + '.tla', spec + '.cfg', wd, env={'TRACE': f, 'PROP': pid}, timeout=300, heap='1g')
    os.unlink(f)
    return rc == 0 and 'No error has been found' in out


def field(pid, spec, wd, op, name, picks):
    best = 'FREE'
    tried = 0
    for lines, i in picks:
        ev = json.loads(lines[i])
        if name not in ev:
            continue
        for back in (0, 40, 400, 1 << 30):
            lo = max(0, i - back)
            pre, post = [json.loads(x) for x in lines[lo:i]], [json.loads(x) for x in lines[i + 1:i + 25]]
            if accepted(pre + [ev], spec, wd, pid):
                break
        else:
            return op, name, 'BROKEN'
        if not accepted(pre + [ev] + post, spec, wd, pid):
            post = []
        paths = list(leaves(ev[name], (name,)))
        if not paths:
            continue
        for path in rng.sample(paths, min(2, len(paths))):
            for kind, v in changes(at(ev, path)):
                if v == at(ev, path):
                    continue
                tried += 1
                if not accepted(pre + [put(ev, path, v)] + post, spec, wd, pid):
                    if kind == 'exact':
                        return op, name, 'exact'
                    best = 'tolerance'
                    break
    return op, name, best if tried else 'empty'


def main():
    for pid in sys.argv[1:] or PROPS:
        P = PROPS[pid]
        env = dict(os.environ, VERIF_KEEP='1')
        p = subprocess.Popen([sys.executable, os.path.join(check.VERIF, 'run', 'check.py'), pid, 'quick'], env=env, stdout=subprocess.PIPE, text=True)
        out = p.communicate()[0]
        if p.returncode:
            print(out)
            continue
        wd = os.path.join(check.VERIF, 'out', f'{pid}-quick-{p.pid}')
        traces = sorted(glob.glob(os.path.join(wd, P['configs'][0], '*', '*.ndjson')))
        where = collections.defaultdict(list)
        for t in traces:
            lines = open(t).read().splitlines()
            for i, ln in enumerate(lines):
                e = json.loads(ln)
                where[(e['op'], str(e.get('f', e.get('k', ''))) if isinstance(e.get('f', e.get('k', '')), str) else '')].append((lines, i))
        jobs = {}
        for (op, sub), at_ in where.items():
            picks = rng.sample(at_[:600], min(3, len(at_[:600])))
            for name in json.loads(picks[0][0][picks[0][1]]):
                if name not in ('op', 'ty', 'f', 'k') or (name == 'k' and not isinstance(json.loads(picks[0][0][picks[0][1]])[name], str)):
                    jobs.setdefault((op, name), []).extend(picks)
        with cf.ThreadPoolExecutor(max_workers=int(os.environ.get('JOBS', '8'))) as ex:
            res = list(ex.map(lambda j: field(pid, P['trace'], wd, j[0][0], j[0][1], rng.sample(j[1], min(4, len(j[1])))), jobs.items()))
        by = collections.defaultdict(list)
        for op, name, k in sorted(res):
            by[k].append(f'{op}.{name}')
        for k in ('exact', 'tolerance', 'FREE', 'BROKEN', 'empty'):
            if by[k]:
                print(pid, k, len(by[k]), '' if k == 'exact' else ' '.join(by[k]), flush=True)
        shutil.rmtree(wd, ignore_errors=True)


if __name__ == '__main__':
    main()
