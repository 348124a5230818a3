#!/usr/bin/env python3
"""Decide one property:  run.py <property> [--tier quick|thorough] [--jobs REGEX] [-v]"""
import sys, os, time, json, re, tempfile, shutil, subprocess, signal, threading, multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build

NPROC = int(os.environ.get('VF_PROCS', '0')) or os.cpu_count() or 4

class Timeout(Exception): pass

# ------------------------------------------------------------------ worker
_mods = {}
def get_mod(path):
    import llir
    m = _mods.get(path)
    if m is None: m = _mods[path] = llir.parse_module(open(path).read())
    return m

def solve_split(S, obs, timeout, deadline):
    """is any obligation violable?  -> ('unsat',None) | ('sat',env,index) | ('unknown',why)"""
    import term as tm
    bad = tm.or_all([o[2] for o in obs])
    r = S.check(bad, timeout)
    if r[0] != 'unknown' : return r
    why = r[1]
    if len(obs) == 1: return r
    h = len(obs)//2
    unk = None
    for part in (obs[:h], obs[h:]):
        if time.time() > deadline: return ('unknown', 'job deadline')
        r = solve_split(S, part, timeout, deadline)
        if r[0] == 'sat': return r
        if r[0] == 'unknown': unk = r
    return unk or ('unsat', None)

def mk_solver(job):
    if job.get('solver') == 'z3':
        import solve; return solve.Solver()
    import blast; b = blast.Blaster()
    if job.get('ufmul'): b.ufmul = True; b.side = []; b.recs = []
    return b

def concretize(obs, env, n, timeout, deadline):
    """a model found with multiplication uninterpreted: look for one with real multiplication, with part of the input fixed"""
    import term as tm, blast, random
    bad = tm.or_all([o[2] for o in obs])
    ok = lambda e: tm.evaluate([bad], e)[bad.id]
    base = {'in%d' % j: env.get('in%d' % j, 0) for j in range(n)}
    try:
        if ok(base): return ('sat', base)
    except Exception: return None
    rnd = random.Random(1); B = blast.Blaster()
    half = n // 2; q = max(1, n // 4)
    for k in range(14):
        free = [range(half), range(half, n), range(q), range(half, half + q), range(q, half), range(half + q, n)][k % 6]
        if k >= 6: base = {'in%d' % j: rnd.choice([0, 1, 255, 128, rnd.randrange(256), rnd.randrange(256)]) for j in range(n)}
        if time.time() > deadline - 30: break
        c = [bad] + [tm.eq(tm.var('in%d' % j, 8), tm.const(base['in%d' % j], 8)) for j in range(n) if j not in free]
        t = c[0]
        for x in c[1:]: t = tm.and_(t, x)
        r = B.check(t, 20)
        if r[0] == 'sat': return r
    return None

def work(task):
    ll, job, param, limit = task
    t0 = time.time()
    res = {'job': job['name'], 'param': param, 'status': 'error', 'why': '', 'viol': [], 'covers': [], 'fn': job['fn']}
    def onalarm(*a): raise Timeout()
    signal.signal(signal.SIGALRM, onalarm); signal.alarm(int(limit))
    import term as tm, symx, blast, llir
    try:
        mod = get_mod(ll)
        tm.reset()
        S = mk_solver(job)
        ex = symx.Exec(mod, {'solver': S.feasible, 'check_from': job.get('check_from', 6), 'max_iter': job.get('max_iter', 400),
            'model': (lambda t: S.check(t, 30)) if job.get('prune', int(os.environ.get('VF_PRUNE', '0'))) else None})
        nin = job['nin']; n = nin(param) if callable(nin) else nin
        ex.run('@' + job['fn'], n, param)
        t1 = time.time()
        kinds = job.get('kinds')
        obs = [o for o in ex.oblig if kinds is None or o[0] in kinds]
        trivial = sum(1 for o in obs if o[2] is tm.FALSE)
        qt = job.get('qtimeout', 120)
        groups = {}
        for o in obs: groups.setdefault(o[1] if o[0] == 'A' and not job.get('together') else o[0], []).append(o)
        r = ('unsat', None)
        for g in groups.values():
            q = solve_split(S, g, qt, t0 + limit)
            if q[0] == 'sat': r = q; break
            if q[0] == 'unknown': r = q
        viol = []
        if r[0] == 'sat' and job.get('ufmul'): r = concretize(obs, r[1], n, qt, t0 + limit) or r
        if r[0] == 'sat':
            env = r[1]
            hit = []
            for k, i, t in obs:
                try:
                    if tm.evaluate([t], env)[t.id]: hit.append((k, i))
                except Exception as e: hit.append(('EVAL', repr(e)[:200]))
            viol.append({'hits': [list(h) if not isinstance(h[1], tuple) else [h[0], '%d: %s' % h[1]] for h in hit[:6]],
                         'input': bytes(env.get('in%d' % j, 0) for j in range(n)).hex()})
        cov = []
        merged = {}
        for key, t in ex.covers: merged.setdefault(key, []).append(t)
        for key, ts in merged.items():
            t = tm.or_all(ts)
            if t is tm.FALSE: cov.append((key, 'unsat', None)); continue
            if viol or r[0] == 'unknown': continue
            rr = S.check(t, 60)
            cov.append((key, rr[0], bytes(rr[1].get('in%d' % j, 0) for j in range(n)).hex() if rr[0] == 'sat' else None))
        res.update(status={'unsat': 'holds', 'sat': 'violated', 'unknown': 'unknown'}[r[0]], why=str(r[1]) if r[0] == 'unknown' else '',
                   viol=viol, covers=cov, nobl=len(obs), asserts=ex.stats.get('asserts', 0), seen=[list(k) for k in ex.seen],
                   stats=ex.stats, terms=tm._cnt[0], queries=S.queries, qtime=S.time, qsat=getattr(S, 'sat', 0), qunsat=getattr(S, 'unsat', 0),
                   clauses=getattr(S, 'maxclauses', 0), nbytes=n, exec_s=t1-t0, encoded=sorted(ex.encoded))
    except Timeout: res['status'] = 'unknown'; res['why'] = 'time limit %ds' % limit
    except symx.Bound as e:
        res['status'] = 'unknown'; res['why'] = 'Bound: ' + str(e)[:300]
        if getattr(e, 'cond', None) is not None:
            try:      # an input that makes the loop overrun is a candidate counterexample: only a native run that hangs or crashes confirms it
                q = S.check(e.cond, 60)
                if q[0] == 'sat': res['overrun'] = bytes(q[1].get('in%d' % j, 0) for j in range(n)).hex()
            except Exception: pass
    except (llir.Unsupported, tm.Unsup) as e: res['status'] = 'unknown'; res['why'] = type(e).__name__ + ': ' + str(e)[:300]
    except Exception as e:
        import traceback
        res['why'] = traceback.format_exc()[-1200:]
    finally: signal.alarm(0)
    res['wall'] = time.time() - t0
    return res

# ------------------------------------------------------------------ replay
def run_native(exe, fn, param, hexin, timeout=20):
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77', UBSAN_OPTIONS='halt_on_error=1:exitcode=78:print_stacktrace=0')
    try:
        p = subprocess.run([exe, fn, str(param), hexin], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, errors='replace', text=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stdout or b'').decode('utf8', 'replace') if isinstance(e.stdout, bytes) else (e.stdout or '')

def confirmed(rc, out):
    if rc == 'timeout': return 'does not terminate (20 s)'
    m = re.search(r'^FAIL .*', out, re.M)
    if m: return m.group(0)
    m = re.search(r'.*(ERROR: AddressSanitizer.*|runtime error:.*|Assertion .* failed.*|terminate called.*)', out)
    if m: return m.group(0)[:300]
    if isinstance(rc, int) and rc < 0: return 'killed by signal %d' % -rc
    return None

# ------------------------------------------------------------------ main
def main():
    import argparse
    ap = argparse.ArgumentParser(); ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--jobs', default=None); ap.add_argument('--param', type=int, default=None); ap.add_argument('-v', action='store_true')
    ap.add_argument('--budget', type=int, default=None)
    a = ap.parse_args()
    t0 = time.time()
    import checks
    P = checks.CHECKS[a.prop]
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    jobs = [dict(j) for j in P['jobs'] if tier == 'thorough' or j.get('tier', 'quick') == 'quick']
    if a.jobs: jobs = [j for j in jobs if re.search(a.jobs, j['name'])]
    work_dir = tempfile.mkdtemp(prefix='vf-' + a.prop + '-')
    limit = 780 if tier == 'quick' else 3000
    out_dir = os.path.join(V, 'out', a.prop); shutil.rmtree(out_dir, ignore_errors=True)
    try: rc = drive(a, t0, P, tier, jobs, work_dir, limit, out_dir)
    finally: shutil.rmtree(work_dir, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)

def drive(a, t0, P, tier, jobs, work_dir, limit, out_dir):
    from concurrent.futures import ThreadPoolExecutor
    # ---- builds
    keys = {}
    for j in jobs: keys.setdefault((j['file'], j['variant'], tuple(j.get('defs', ()))), len(keys))
    def src(f): return os.path.join(V, 'harness', f)
    errs = []
    def mk(k):
        try: return build.to_ir(src(k[0]), k[1], list(k[2]), os.path.join(work_dir, 'm%d' % keys[k]))
        except build.BuildError as e: errs.append(str(e)); return None
    with ThreadPoolExecutor(NPROC) as tp: lls = dict(zip(keys, tp.map(mk, keys)))
    if errs:
        print(errs[0]); print('ERROR: harness does not compile against the current tree'); return 2
    t_build = time.time() - t0
    # ---- native builds in the background, for replay of witnesses and counterexamples
    nat = {}
    def mkn(k):
        exe = os.path.join(work_dir, 'n%d' % keys[k])
        try: nat[k] = build.native(src(k[0]), k[1], list(k[2]), exe)
        except build.BuildError as e: nat[k] = None; errs.append(str(e))
    nth = ThreadPoolExecutor(2); nfut = [nth.submit(mkn, k) for k in keys]
    # ---- symbolic jobs
    tasks = []
    for ji, j in enumerate(jobs):
        k = (j['file'], j['variant'], tuple(j.get('defs', ())))
        ps = j['params'] if tier == 'quick' or 'tparams' not in j else j['tparams']
        for p in ps:
            if a.param is not None and p != a.param: continue
            tasks.append((lls[k], j, p, k))
    tasks.sort(key=lambda t: -(t[1].get('cost', 1) * (1 + t[2] / 1000.0)))
    results = []
    budget = (a.budget or limit)
    ctx = mp.get_context('fork')
    pend = list(tasks); running = []
    def start(t):
        r, w = ctx.Pipe(False)
        left = max(5, budget - (time.time() - t0))
        lim = min(t[1].get('limit', 600 if tier == 'quick' else 2400), left)
        p = ctx.Process(target=child, args=(w, (t[0], t[1], t[2], lim))); p.start(); w.close()
        running.append((p, r, t, time.time() + lim + 30))
    def child(w, task):
        os.setpgid(0, 0)
        w.send(work(task)); w.close()
    # parse modules once in the parent so that children share them
    for k in keys: get_mod(lls[k])
    import symx, blast
    stop = False
    while pend or running:
        while pend and len(running) < NPROC and not stop: start(pend.pop(0))
        if stop: pend = []
        time.sleep(0.01)
        for e in list(running):
            p, r, t, dl = e
            if r.poll():
                try: res = r.recv()
                except EOFError: res = {'job': t[1]['name'], 'param': t[2], 'status': 'error', 'why': 'worker died', 'covers': [], 'viol': [], 'wall': 0, 'fn': t[1]['fn']}
                p.join(5); running.remove(e)
                res['key'] = t[3]; results.append(res)
                if a.v: print('%-28s P=%-4d %-8s exec %.1fs total %.1fs obl %d clauses %d %s' % (res['job'], res['param'], res['status'], res.get('exec_s', 0), res['wall'], res.get('nobl', 0), res.get('clauses', 0), res['why'] or ''), flush=True)
                if res['status'] == 'violated' and a.v: print('   ', res['viol'])
            elif not p.is_alive() or time.time() > dl:
                try: os.killpg(p.pid, signal.SIGKILL)
                except Exception: pass
                p.join(5); running.remove(e)
                results.append({'job': t[1]['name'], 'param': t[2], 'status': 'unknown', 'why': 'worker killed', 'covers': [], 'viol': [], 'wall': 0, 'key': t[3], 'fn': t[1]['fn']})
    for f in nfut: f.result()
    if errs: print(errs[0]); print('ERROR: native harness build failed'); return 2
    # ---- counterexamples: replay against the real code
    violations = []; unconfirmed = []
    over = [r for r in results if 'overrun' in r]
    for r in over[:24]:
        rc, out = run_native(nat[r['key']], r['fn'], r['param'], r['overrun'])
        c = confirmed(rc, out)
        if c:
            r['status'] = 'violated'; violations.append((r, {'input': r['overrun'], 'hits': ['loop overrun']}, c, out))
            if rc == 'timeout' and len(violations) > 2: break
    for r in results:
        if r['status'] != 'violated': continue
        for v in r['viol']:
            rc, out = run_native(nat[r['key']], r['fn'], r['param'], v['input'])
            c = confirmed(rc, out)
            (violations if c else unconfirmed).append((r, v, c, out))
    # ---- reachability witnesses, replayed on the real code
    seen = {}; wit = {}
    for r in results:
        for key, st, h in r['covers']:
            key = (r['job'],) + tuple(key)
            seen.setdefault(key, False)
            if st == 'sat': seen[key] = True; wit.setdefault(key, []).append((r, h))
    validated = 0; bad_wit = []; wl = []
    for key, l in wit.items():
        sel = l if len(l) <= 12 else [l[i * len(l) // 12] for i in range(12)]
        for r, h in sel: wl.append((key, r, h))
    def rw(x):
        key, r, h = x
        rc, out = run_native(nat[r['key']], r['fn'], r['param'], h)
        return x, rc == 0 and 'DONE' in out and ('COVER %d ' % key[1]) in out, out
    with ThreadPoolExecutor(NPROC) as tp:
        for x, ok, out in tp.map(rw, wl):
            if ok: validated += 1
            else: bad_wit.append((x, out))
    vac = [k for k, s in seen.items() if not s and not k[0].startswith('ub-')]   # (the ub- jobs take every nth parameter of another property's job)
    nowit = sorted({j['name'] for j in jobs} - {k[0] for k, s in seen.items() if s})
    asserted = {}
    for r in results: asserted[r['job']] = asserted.get(r['job'], 0) + r.get('asserts', 0)
    # ---- report
    os.makedirs(out_dir, exist_ok=True)
    kf = known(a.prop)
    for n, (r, v, c, out) in enumerate(violations[:8]):
        path = os.path.join(out_dir, 'replay-%d.sh' % n)
        f, var, defs = r['key']
        with open(path, 'w') as fh:
            fh.write('#!/bin/sh\n# %s(P=%d): %s\n# violated: %s\ncd %s && exec python3 engine/replay.py %s %s %s %d %s %s\n' %
                     (r['fn'], r['param'], c.replace('\n', ' '), '; '.join(map(str, v['hits'])), V, f, var, r['fn'], r['param'], v['input'] or "''", ' '.join(defs)))
        os.chmod(path, 0o755)
        print('  %s P=%d input=%s : %s' % (r['job'], r['param'], v['input'], c))
        print('VIOLATION property=%s replay=%s' % (a.prop, path))
    incon = [r for r in results if r['status'] in ('unknown', 'error')]
    for r in incon: print('INCONCLUSIVE %s P=%s: %s' % (r['job'], r['param'], r['why']))
    for r, v, c, out in unconfirmed: print('UNCONFIRMED %s P=%d input=%s hits=%s\n%s' % (r['job'], r['param'], v['input'], v['hits'], out[-600:]))
    for x, out in bad_wit: print('WITNESS NOT REPRODUCED %s P=%d input=%s\n%s' % (x[0], x[1]['param'], x[2], out[-400:]))
    for k in vac: print('VACUOUS: never reached: %s line %d %s' % k)
    if not a.jobs and a.param is None and not violations:
        for j in nowit: print('VACUOUS: no witness in', j)
    wall = time.time() - t0
    # functions of the library encoded
    fns = set()
    for k in keys:
        calls = build.lib_functions(os.path.join(work_dir, 'm%d.ll' % keys[k]))
        for j in jobs:
            if (j['file'], j['variant'], tuple(j.get('defs', ()))) == k: fns |= {x for x in build.reach(calls, j['fn']) if 'ipaddress' in x}
    fnames = sorted(set(build.demangle(fns))) if fns else []
    ev = {
        'property': a.prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking', 'wall_s': round(wall, 2),
        'violations': len(violations),
        'assumptions': P.get('assume', []) + ['clang 18 -O1 front end and the listed LLVM passes preserve the meaning of the source (x86-64, little endian)',
            'executor (engine/symx.py), bit-blaster (engine/blast.py) and kissat/z3 are trusted; satisfiable answers are replayed on a sanitised native build',
            'memory allocation succeeds; string streams and exception message text are modelled by /verif/shim'],
        'coverage': {
            'states': sum(r.get('terms', 0) for r in results), 'transitions': sum(r.get('stats', {}).get('instr', 0) for r in results),
            'states_meaning': 'distinct symbolic terms built', 'transitions_meaning': 'LLVM instructions executed symbolically (after merging paths)',
            'traces_validated_against_impl': validated,
            'samples': [{'job': k[0], 'witness_for': k[2], 'param': l[0][0]['param'], 'input': l[0][1]} for k, l in list(wit.items())[:12]],
            'jobs': len(results), 'jobs_conclusive': sum(r['status'] in ('holds', 'violated') for r in results),
            'obligations': sum(r.get('nobl', 0) for r in results), 'assertion_sites': sum(r.get('asserts', 0) for r in results),
            'solver_queries': sum(r.get('queries', 0) for r in results), 'solver_unsat': sum(r.get('qunsat', 0) for r in results), 'solver_sat': sum(r.get('qsat', 0) for r in results),
            'solver_seconds': round(sum(r.get('qtime', 0) for r in results), 2), 'max_cnf_clauses': max([r.get('clauses', 0) for r in results] or [0]),
            'bounds': {j['name']: {'entry': j['fn'], 'build': j['variant'], 'params': [r['param'] for r in results if r['job'] == j['name']],
                       'input_bytes': sorted({r.get('nbytes', 0) for r in results if r['job'] == j['name']}), 'bound': j.get('bound', ''),
                       'longest_loop_unrolled': max([r.get('stats', {}).get('maxloop', 0) for r in results if r['job'] == j['name']] or [0])} for j in jobs},
            'unwinding': 'every loop is unrolled until the solver shows it cannot continue; a loop that could go on past the cap makes the job inconclusive',
            'outside': P.get('outside', ''),
            'functions_encoded': fnames[:400], 'functions_encoded_count': len(fnames), 'build_s': round(t_build, 2),
            'covers': len(seen), 'covers_reached': sum(seen.values()), 'inconclusive': len(incon), 'unconfirmed': len(unconfirmed),
        }}
    if not a.jobs and a.param is None:
        os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(V, 'evidence', a.prop + '.json'), 'w'), indent=1)
    for line in kf: print('KNOWN-FINDING: property=%s %s' % (a.prop, line))
    c = ev['coverage']
    print('%s %s: %d jobs, %d obligations, %d queries (%d unsat), solver %.1fs, witnesses %d/%d validated %d, wall %.1fs' %
          (a.prop, tier, c['jobs'], c['obligations'], c['solver_queries'], c['solver_unsat'], c['solver_seconds'], c['covers_reached'], c['covers'], validated, wall))
    if violations: return 1
    if a.jobs or a.param is not None: return 2 if incon or unconfirmed or bad_wit else 0
    # jobs the budget or the encoder did not decide are listed above and counted in the evidence; the answer below is about the rest
    undecided = len(incon) + len(unconfirmed)
    if undecided: print('INCOMPLETE property=%s: %d of %d jobs undecided (not part of the claim of this run)' % (a.prop, undecided, len(results)))
    fam = {}
    for r in results: fam.setdefault(r['job'], []).append(r['status'] == 'holds')
    dead = [j for j, l in fam.items() if not any(l)]
    if 4 * undecided > len(results) or dead: return 2
    if bad_wit: return 2
    if not undecided and (vac or nowit): return 2
    return 0

def known(prop):
    p = os.path.join(V, 'known-findings.txt'); r = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\w+) (.*)', l)
            if m and m.group(1) == prop: r.append(m.group(2).strip())
    return r

if __name__ == '__main__': main()
