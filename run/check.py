#!/usr/bin/env python3
"""Runs one property check:  check.py <ID> [quick|thorough]

Pipeline (every oracle decision is made by TLC on the TLA+ specification):
  1. model check the specification (design level) - exhaustive, small constants
  2. optionally let TLC enumerate behaviours / cases (`gen`), as scripts of operations
  3. build the harness against /repo's current working tree (several instruction-set configurations)
  4. run it: replay the TLC-generated scripts and the random/exhaustive drivers on the real code,
     recording one ndjson event per public call (op, arguments, observed result)
  5. validate every recorded trace with TLC: each event has to be a step of the specification
Exit 0: held.  Exit 1: VIOLATION line.  Exit 2: the check itself failed.
"""
import concurrent.futures as cf, glob, hashlib, json, os, random, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
HARN = os.path.join(VERIF, 'harness')
sys.path.insert(0, os.path.join(VERIF, 'run'))
from registry import PROPS, CONFIGS  # noqa: E402

JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = os.cpu_count() or 4


class CheckError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------ building
def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()


def repo_files():
    r = []
    for d in ('include', 'source'):
        for root, _, fs in os.walk(os.path.join(REPO, d)):
            r += [os.path.join(root, f) for f in fs]
    return r


def build(harness, config, hashes):
    src = os.path.join(HARN, harness + '.cpp')
    conf = CONFIGS[config]
    key = hashlib.sha256((hashes + harness + config + ' '.join(conf['flags'])).encode()).hexdigest()[:20]
    out = os.path.join(VERIF, 'build', f'{harness}-{config}-{key}')
    if os.path.exists(out):
        return out, ''
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = f'{out}.{os.getpid()}.tmp'
    base = ['g++', '-std=c++17', '-pthread', '-w', '-fno-ipa-sra', '-fwrapv', '-D_USE_MATH_DEFINES', '-DNOMINMAX', f'-DCFG_{config.upper()}=1',
            '-I', os.path.join(REPO, 'include'), '-I', HARN]
    lib = [os.path.join(REPO, 'source', f) for f in sorted(os.listdir(os.path.join(REPO, 'source'))) if f.endswith('.cpp')]
    extra = ['-include', os.path.join(HARN, conf['prelude'])] if 'prelude' in conf else []
    cmd = base + conf['flags'] + extra + [src] + (lib if conf.get('lib', True) else []) + ['-o', tmp]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        return None, p.stderr[:4000]
    os.replace(tmp, out)
    return out, ''


# ------------------------------------------------------------------ TLC
def tlc(module, cfg, wd, env=None, workers='1', args=(), timeout=800, heap='3g', simulate=False):
    meta = os.path.join(wd, 'meta-%d-%d' % (os.getpid(), random.SystemRandom().randrange(1 << 40)))
    os.makedirs(meta, exist_ok=True)
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update(env or {})
    cmd = ['java', f'-Xmx{heap}', '-Xss64m', '-XX:+UseSerialGC' if workers == '1' else '-XX:+UseParallelGC',
           '-Dtlc2.TLC.stopAfter=%d' % timeout,
           '-cp', JARS, 'tlc2.TLC', '-noGenerateSpecTE', '-metadir', meta, '-workers', workers,
           '-config', cfg, *args, module]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout + 30)
        out = p.stdout + p.stderr
        rc = p.returncode
    except subprocess.TimeoutExpired as ex:
        out, rc = (ex.stdout or b'').decode(errors='replace') if isinstance(ex.stdout, bytes) else (ex.stdout or ''), -9
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return rc, out


def tlc_stats(out):
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    if m:
        return int(m[-1][0]), int(m[-1][1])
    return 0, 0


def model_check(job, wd):
    """Exhaustive check of the specification itself. A failure here is a failure of the check, not of the code."""
    mod, cfg = job['module'], job.get('cfg') or job['module'] + '.cfg'
    rc, out = tlc(mod + '.tla', cfg, wd, workers=str(job.get('workers', 4)), args=('-deadlock',) if job.get('nodeadlock', True) else (),
                  timeout=job.get('timeout', 700), heap=job.get('heap', '6g'), env=job.get('env'))
    if rc != 0 or 'No error has been found' not in out:
        raise CheckError(f'model checking {mod}/{cfg} failed (rc={rc}):\n' + out[-1500:])
    g, d = tlc_stats(out)
    return {'module': mod, 'cfg': cfg, 'generated': g, 'distinct': d}


def generate(job, wd, scripts):
    """Let TLC enumerate scripts of operations. The module prints lines SCRIPT <ints>."""
    mod, cfg = job['module'], job.get('cfg') or job['module'] + '.cfg'
    args = [str(SEED) if a == '{seed}' else a for a in job.get('args', ())]
    rc, out = tlc(mod + '.tla', cfg, wd, workers=str(job.get('workers', 1)), args=['-deadlock'] + args,
                  timeout=job.get('timeout', 600), heap='6g', env=job.get('env'))
    lines = re.findall(r'^"?SCRIPT ([^"\n]*)"?$', out, re.M)
    if not lines or (rc != 0 and not args):
        raise CheckError(f'generation {mod}/{cfg} failed (rc={rc}):\n' + out[-1500:])
    lines = sorted(set(lines))
    cap = job.get('cap')
    if cap and len(lines) > cap:
        lines = random.Random(SEED).sample(lines, cap)
    with open(scripts, 'a') as f:
        for ln in lines:
            f.write(job['tag'] + ' ' + ln.replace(',', ' ').replace('<<', ' ').replace('>>', ' ') + '\n')
    g, d = tlc_stats(out)
    return {'module': mod, 'cfg': cfg, 'generated': g, 'distinct': d, 'scripts': len(lines)}


def validate(trace, spec, cfg, wd, pid):
    n = sum(1 for _ in open(trace))
    if n == 0:
        return {'trace': trace, 'events': 0, 'ok': True, 'gen': 0, 'distinct': 0}
    for attempt in (0, 1):
        rc, out = tlc(spec + '.tla', cfg, wd, env={'TRACE': trace, 'PROP': pid}, timeout=780)
        g, d = tlc_stats(out)
        if rc == 0 and 'No error has been found' in out:
            return {'trace': trace, 'events': n, 'ok': True, 'gen': g, 'distinct': d}
        m = re.search(r'"REJECTED_AT", (\d+)', out)
        if m and attempt == 0:
            continue
        if m:
            return {'trace': trace, 'events': n, 'ok': False, 'at': int(m.group(1)), 'gen': g, 'distinct': d}
        if attempt == 0 and 'OutOfMemory' in out:
            continue
        # The event cannot be evaluated by the specification at all (a value outside the domain of the operators it is given to:
        # an overflow sentinel, a missing element, a negative index): no step of the specification accepts it.
        m = re.findall(r'^(?:/\\ )?l = (\d+)', out, re.M)
        if m and ('evaluating' in out or 'verflow' in out) and 'OutOfMemory' not in out and 'StackOverflow' not in out:
            if attempt == 0:
                continue
            return {'trace': trace, 'events': n, 'ok': False, 'at': int(m[-1]), 'gen': g, 'distinct': d}
        raise CheckError(f'TLC failed on {trace} with {spec} (rc={rc}):\n' + out[-1500:])


# ------------------------------------------------------------------ harness runs
def run_harness(binary, config, mode, seed, tier, outdir, script, limit):
    os.makedirs(outdir, exist_ok=True)
    env = {k: v for k, v in os.environ.items()}
    env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1'
    env['UBSAN_OPTIONS'] = 'halt_on_error=1:exitcode=98:print_stacktrace=0'
    p = None
    try:
        p = subprocess.run([binary, mode, str(seed), tier, outdir, script or '-'], env=env,
                           capture_output=True, text=True, timeout=limit, errors='replace')
        rc, err = p.returncode, p.stderr[-2500:]
    except subprocess.TimeoutExpired:
        rc, err = 'timeout', ''
    return rc, err


def main():
    global SEED
    t0 = time.time()
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = PROPS[pid]
    T = dict(P)
    T.update(P.get(tier, {}))
    wd = os.path.join(VERIF, 'out', f'{pid}-{tier}-{os.getpid()}')
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    for old in glob.glob(os.path.join(VERIF, 'out', f'{pid}-*')):
        if os.path.abspath(old) != wd and time.time() - os.path.getmtime(old) > 3600:
            shutil.rmtree(old, ignore_errors=True)
    ex = cf.ThreadPoolExecutor(max_workers=NCPU)
    try:
        rc = run(pid, T, tier, wd, ex, t0)
    except CheckError as e:
        log(f'CHECK-ERROR property={pid}: {e}')
        rc = 2
    finally:
        ex.shutdown(wait=True, cancel_futures=True)
        if os.environ.get('VERIF_KEEP') != '1':
            shutil.rmtree(wd, ignore_errors=True)
    return rc


def run(pid, T, tier, wd, ex, t0):
    hashes = tree_hash(repo_files() + glob.glob(os.path.join(HARN, '*')))
    configs = T['configs']
    builds = {c: ex.submit(build, T['harness'], c, hashes) for c in configs}
    mcs = [ex.submit(model_check, j, wd) for j in T.get('mc', [])]
    script = os.path.join(wd, 'script.txt')
    open(script, 'w').close()
    gens = [generate(j, wd, script) for j in T.get('gen', [])]
    bins, skipped = {}, {}
    for i, c in enumerate(configs):
        b, err = builds[c].result()
        if b is None:
            if i == 0:
                raise CheckError(f'harness {T["harness"]} does not build against /repo ({c}):\n{err}')
            skipped[c] = err[:300]
            log(f'note: configuration {c} does not build; skipped')
        else:
            bins[c] = b
    # run the harness in every configuration, re-running once on a crash so that only repeatable ones count
    modes = T['modes']
    jobs = {}
    for c, b in bins.items():
        for mode in modes:
            if isinstance(mode, tuple):
                mode, only = mode
                if c not in only:
                    continue
            od = os.path.join(wd, c, mode)
            jobs[(c, mode)] = (od, ex.submit(run_harness, b, c, mode, SEED, tier, od, script, T.get('limit', 240)))
    traces = []
    crash = []
    for (c, mode), (od, fu) in jobs.items():
        rc, err = fu.result()
        if rc != 0:
            again = (run_harness(bins[c], c, mode, SEED, tier, od + '-again', script, T.get('limit', 240)) for _ in range(4))
            rc2, err2 = next((x for x in again if x[0] != 0), (0, ''))
            if rc2 == 0 and mode == 'threads' and rc in (-4, -6, -7, -8, -11):
                rc2, err2 = rc, err                    # threads need not collide the same way twice
            if rc2 == 0:
                raise CheckError(f'harness {c}/{mode} failed once ({rc}) and not again: {err}')
            if rc2 == 3:
                raise CheckError(f'harness {c}/{mode} refused its input: {err2}')
            crash.append((c, mode, rc2, err2, od))
        for t in sorted(glob.glob(os.path.join(od, '*.ndjson'))):
            traces.append((c, mode, t))
    violations = []
    for c, mode, rc, err, od in crash:
        # a crash, a sanitizer report or a hang: the trace ends in an event no specification step allows
        tail = []
        for t in sorted(glob.glob(os.path.join(od, '*.ndjson'))):
            tail = open(t, errors='replace').read().splitlines()[-5:]
        violations.append({'config': c, 'mode': mode, 'event': {'op': 'hang' if rc == 'timeout' else 'crash', 'status': rc},
                           'stderr': err, 'before': tail})
    spec = T['trace']
    cfg = T.get('trace_cfg') or spec + '.cfg'
    vals = []
    if not crash:
        vals = [(c, mode, ex.submit(validate, t, spec, cfg, wd, pid)) for c, mode, t in traces]
    nev = ok = gen = dist = 0
    ops = {}
    samples = []
    rng = random.Random(SEED)
    for c, mode, fu in vals:
        r = fu.result()
        nev += r['events']
        gen += r['gen']
        dist += r['distinct']
        lines = open(r['trace']).read().splitlines()
        for ln in lines:
            m = re.match(r'\{"op":"([^"]*)"', ln)
            if m:
                ops[m.group(1)] = ops.get(m.group(1), 0) + 1
        if lines and len(samples) < 4 and rng.random() < 0.5:
            samples.append({'config': c, 'event': lines[rng.randrange(len(lines))][:400]})
        if r['ok']:
            ok += 1
        else:
            k = r['at']
            ev = lines[k - 1] if k <= len(lines) else 'END'
            start = max(0, k - 12)
            violations.append({'config': c, 'mode': mode, 'index': k, 'event': ev, 'before': lines[start:k - 1]})
    mcr = [m.result() for m in mcs]
    need = T.get('ops', [])
    if not violations:
        miss = [o for o in need if o not in ops]
        if miss:
            raise CheckError(f'driver recorded no event of: {miss}')
        if nev == 0:
            raise CheckError('no events recorded')
    if not samples and vals:
        for c, mode, t in traces[:1]:
            samples.append({'config': c, 'event': open(t).readline()[:400]})
    states = dist + sum(m['distinct'] for m in mcr) + sum(g['distinct'] for g in gens)
    trans = gen + sum(m['generated'] for m in mcr) + sum(g['generated'] for g in gens)
    ev = {'property': pid, 'tier': tier, 'seed': SEED, 'level': 'model_checking',
          'coverage': {'states': states, 'transitions': trans, 'traces_validated_against_impl': ok,
                       'events_validated': nev, 'events_by_operation': ops,
                       'design_models': mcr, 'generated_from_spec': gens,
                       'configurations': list(bins), 'configurations_skipped': skipped,
                       'samples': samples or [{'note': 'none'}]},
          'assumptions': T.get('assumptions', []),
          'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if violations:
        rp = os.path.join(VERIF, 'evidence', f'{pid}-violation.json')
        with open(rp, 'w') as f:
            json.dump({'property': pid, 'seed': SEED, 'tier': tier, 'how_to_rerun': f'VERIF_SEED={SEED} python3 run/check.py {pid} {tier}',
                       'violations': violations[:20]}, f, indent=1)
        v = violations[0]
        log(f'first rejected event [{v["config"]}/{v["mode"]}]: {str(v["event"])[:600]}')
        if v.get('stderr'):
            log(v['stderr'][:800])
        log(f'VIOLATION property={pid} replay={rp}')
        return 1
    log(f'ok {pid} {tier}: {nev} events in {ok} traces accepted, configs={list(bins)}, '
        f'design states={sum(m["distinct"] for m in mcr)}, {time.time()-t0:.1f}s')
    return 0


if __name__ == '__main__':
    if sys.argv[1:2] == ['--setup']:
        for t in ('g++ --version', 'java -version'):
            subprocess.run(t.split(), check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        assert os.path.exists('/opt/veriftools/tla/tla2tools.jar')
        log('setup ok')
        sys.exit(0)
    try:
        rc = main()
    except Exception as e:  # noqa: BLE001
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
