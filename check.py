#!/usr/bin/env python3
"""Runs the solver-based check of one property against /repo's current working tree.

usage: check.py PROPERTY [quick|thorough]

Every run compiles the repository sources to LLVM bitcode afresh, links them with the property's
harness and the runtime/environment model, executes them symbolically with engine/symx (z3 decides every
branch, assertion and memory check over all values within the stated bounds), replays any counterexample against a native ASan build of
the same sources, and writes evidence/<PROPERTY>.json.
"""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, V)
import specs

CLANG = 'clang++-18'
DEFS = ['-DYRMCDS_VERIF', '-DCACHELINE_SIZE=64', '-DDEFAULT_CONFIG="/nonexistent"']
INC = ['-I' + REPO, '-I' + V + '/rt', '-I' + V + '/harness']
NCPU = max(2, min(8, os.cpu_count() or 8))

def log(*a): print(*a, flush=True)

def engine():
    exe = os.path.join(V, 'engine', 'symx')
    src = [os.path.join(V, 'engine', f) for f in ('symx.cpp', 'exec.inc', 'mem.hpp', 'expr.hpp')]
    if os.path.exists(exe) and all(os.path.getmtime(exe) >= os.path.getmtime(s) for s in src): return exe
    r = subprocess.run(['make', '-C', os.path.join(V, 'engine'), '-B'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: log(r.stdout); sys.exit(2)
    return exe

class Builder:
    def __init__(self, tmp):
        self.tmp = tmp; self.done = {}; self.pool = cf.ThreadPoolExecutor(NCPU)
    def src(self, f):
        return os.path.join(REPO, f) if not f.startswith('@') else os.path.join(V, f[1:])
    def _run(self, cmd):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: raise RuntimeError('build failed: ' + ' '.join(cmd) + '\n' + r.stdout[-3000:])
    def bc(self, f, defs=()):
        key = ('bc', f, tuple(defs))
        if key not in self.done:
            o = os.path.join(self.tmp, hashlib.sha1(repr(key).encode()).hexdigest()[:12] + '.bc')
            cmd = [CLANG, '-std=gnu++17', '-O1', '-g', '-w', '-Xclang', '-disable-llvm-passes', '-emit-llvm'] + INC + DEFS + list(defs)
            if f.startswith('@rt/'): cmd.append('-fno-builtin')
            self.done[key] = self.pool.submit(lambda: (self._run(cmd + ['-c', self.src(f), '-o', o]), o)[1])
        return self.done[key]
    def obj(self, f, san, defs=()):
        key = ('o', f, san, tuple(defs))
        if key not in self.done:
            o = os.path.join(self.tmp, hashlib.sha1(repr(key).encode()).hexdigest()[:12] + '.o')
            cmd = [CLANG, '-std=gnu++17', '-O1', '-g', '-w', '-fno-omit-frame-pointer'] + INC + DEFS + list(defs) + san.split()
            def go():
                if f.endswith('sx_native.cpp'): self._run(cmd + ['-c', self.src(f), '-o', o]); return o
                # a scheduling point before every atomic access, as in the engine
                self._run(cmd + ['-Xclang', '-disable-llvm-passes', '-emit-llvm', '-c', self.src(f), '-o', o + '.bc'])
                self._run([engine(), '--instrument', o + '.bc', o + '.i.bc'])
                self._run([CLANG, '-O1', '-g', '-w', '-fno-omit-frame-pointer'] + san.split() + ['-c', o + '.i.bc', '-o', o]); return o
            self.done[key] = self.pool.submit(go)
        return self.done[key]

def repo_sources():
    r = []
    for d in ('cybozu', 'src'):
        for base, _, fs in os.walk(os.path.join(REPO, d)):
            for f in fs:
                p = os.path.relpath(os.path.join(base, f), REPO)
                if f.endswith('.cpp') and p != 'src/main.cpp': r.append(p)
    return sorted(r)
SRCS = None
RT_BC = ['@rt/env.cpp']
RT_BC_TAIL = ['@rt/rt.cpp', '@rt/rt_thread.cpp', '@rt/sxlog.cpp', '@rt/sxios.cpp']

def native_build(b, job):
    """links harness + repository sources natively (ASan), system calls redirected to the environment model"""
    key = ('native', job['harness'], tuple(SRCS), tuple(job.get('defs', ())))
    if key in b.done: return b.done[key]
    def go():
        defs = job.get('defs', ())
        env = ['@rt/env.cpp', '@rt/sx_native.cpp', '@rt/rt_thread.cpp']
        eo = [b.obj(f, '-fsanitize=address', ['-DSX_NATIVE']) for f in env]
        ro = [b.obj(f, '-fsanitize=address', defs) for f in ['@harness/' + job['harness']] + SRCS]
        eo = [x.result() for x in eo]; ro = [x.result() for x in ro]
        nm = subprocess.run(['nm', '--defined-only'] + eo, stdout=subprocess.PIPE, text=True).stdout
        ren = sorted(set(m.group(1) for m in re.finditer(r' [TW] env_(\w+)$', nm, re.M)))
        h = hashlib.sha1(repr(key).encode()).hexdigest()[:10]
        rf = os.path.join(b.tmp, 'ren_' + h)
        with open(rf, 'w') as f:
            for n in ren: f.write('%s env_%s\n' % (n, n))
        # functions that the harness replaces (sx_override_X): references go to the replacement
        ov = re.findall(r' T sx_override_(\w+)$', subprocess.run(['nm', '--defined-only', ro[0]], stdout=subprocess.PIPE, text=True).stdout, re.M)
        with open(rf, 'a') as f:
            for n in ov: f.write('%s sx_override_%s\n' % (n, n))
        out = []
        for k, o in enumerate(ro):
            p = o + '.' + h + '.r.o'; b._run(['objcopy', '--redefine-syms=' + rf] + (['--weaken-symbol=sx_override_' + n for n in ov] if k else []) + [o, p]); out.append(p)
        exe = os.path.join(b.tmp, 'native_' + h)
        b._run([CLANG, '-g', '-fsanitize=address'] + out + eo + ['-o', exe, '-lpthread', '-rdynamic', '-Wl,--unresolved-symbols=ignore-in-object-files', '-Wl,-z,lazy'])
        return exe
    b.done[key] = cf.ThreadPoolExecutor(1).submit(go)
    return b.done[key]

def replay_file(path, params, inputs):
    with open(path, 'w') as f:
        for k, v in sorted(params.items()): f.write('p %s %d\n' % (k, v & (2**64 - 1)))
        for n, w, v in inputs:
            n = n.split('#')[0]
            if n.startswith('__'): continue
            f.write('i %s %d\n' % (n.replace(' ', '_') or '_', v))

def run_native(exe, rf):
    res = None
    for fill in (None, 0, 255, 165):
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=98:allocator_may_return_null=1' + ('' if fill is None else ':max_malloc_fill_size=65536:malloc_fill_byte=%d' % fill))
        try: r = subprocess.run([exe, rf], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, env=env)
        except subprocess.TimeoutExpired: return {'rc': 124, 'reach': [], 'text': 'timeout', 'end': None, 'viol': 'does not terminate'}
        o = r.stdout.decode(errors='replace'); e = r.stderr.decode(errors='replace')
        viol = None
        m = re.search(r'^VIOLATED (.*)$', o, re.M)
        if m: viol = m.group(1)
        elif r.returncode == 98: m = re.search(r'ERROR: AddressSanitizer: ([^\n]*)', e); viol = m.group(1) if m else 'AddressSanitizer'
        elif r.returncode < 0: viol = 'killed by signal %d' % -r.returncode
        end = re.search(r'^END (\w+)$', o, re.M)
        res = {'rc': r.returncode, 'reach': re.findall(r'^REACH (.*)$', o, re.M), 'end': end.group(1) if end else None, 'viol': viol, 'text': (o[-1500:] + e[-1500:])}
        if viol: return res
    return res

def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    spec = specs.SPECS[pid]; t0 = time.time()
    budget = spec.get('budget', {}).get(tier, 240 if tier == 'quick' else 2400)
    exe = engine(); tmp = tempfile.mkdtemp(prefix='verif_' + pid + '_')
    try: rc = run(pid, tier, seed, spec, t0, budget, exe, tmp)
    finally:
        if not os.environ.get('VERIF_KEEP'): shutil.rmtree(tmp, ignore_errors=True)
        else: log('kept', tmp)
    sys.exit(rc)

def run(pid, tier, seed, spec, t0, budget, exe, tmp):
    global SRCS
    SRCS = repo_sources()
    b = Builder(tmp); tasks = []
    evdir = os.environ.get('VERIF_EVIDENCE', os.path.join(V, 'evidence')); os.makedirs(os.path.join(evdir, 'replay'), exist_ok=True)
    for f in os.listdir(os.path.join(evdir, 'replay')):
        if f.startswith(pid + '-'): os.unlink(os.path.join(evdir, 'replay', f))
    for ji, job in enumerate(spec['jobs']):
        if tier == 'quick' and job.get('tier') == 'thorough': continue
        runs = job['runs'](tier) if callable(job['runs']) else job['runs']
        for ri, r in enumerate(runs): tasks.append((ji, job, ri, r))
    # compile everything first
    bcs = {}
    for ji, job, ri, r in tasks:
        if ji in bcs: continue
        d = job.get('defs', ())
        bcs[ji] = [b.bc(f) for f in RT_BC] + [b.bc('@harness/' + job['harness'], d)] + [b.bc(f) for f in RT_BC_TAIL] + [b.bc(f, d) for f in SRCS]
    try:
        linked = {}; lk = {}
        def link(ji):
            files = [x.result() for x in bcs[ji]]
            o = os.path.join(tmp, 'linked_%d.bc' % ji)
            r = subprocess.run([exe] + files + ['--link-only', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode: raise RuntimeError('link failed: ' + r.stdout[-2000:])
            return o
        uniq = {}
        for ji in bcs: uniq.setdefault(tuple(id(x) for x in bcs[ji]), []).append(ji)
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for js, o in zip(uniq.values(), ex.map(link, [js[0] for js in uniq.values()])):
                for ji in js: linked[ji] = o
    except RuntimeError as e:
        log('BUILD ERROR', str(e)); return 2
    natives = {}
    if not os.environ.get('VERIF_NO_NATIVE'):
        for ji, job, ri, r in tasks:
            if ji not in natives and not job.get('no_native'): natives[ji] = native_build(b, job)
    t1 = time.time()
    def one(t):
        ji, job, ri, params = t
        out = os.path.join(tmp, 'o_%d_%d.json' % (ji, ri))
        left = budget - (time.time() - t0)
        tl = min(job.get('time', {}).get(tier, 120 if tier == 'quick' else 1200), max(5, left))
        cmd = [exe, linked[ji], '--no-opt', '-o', out, '--time', '%.1f' % tl, '--mem', str(job.get('mem', 3500)), '--samples', str(job.get('samples', 3))] + job.get('opts', [])
        for k, v in params.items(): cmd += ['-p', '%s=%d' % (k, v)]
        try: p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=tl + 120)
        except subprocess.TimeoutExpired: return t, None, 'engine did not stop within its budget'
        if not os.path.exists(out): return t, None, 'engine rc=%s: %s' % (p.returncode, p.stdout[-600:])
        return t, json.load(open(out)), p.stdout[-300:]
    with cf.ThreadPoolExecutor(NCPU) as ex: results = list(ex.map(one, tasks))
    agg = dict(paths=0, forks=0, instructions=0, queries=0, sat=0, unsat=0, unknown=0, cache_hits=0, asserts=0, assert_queries=0, sched_points=0, solver_s=0.0)
    funcs = {}; incomplete = {}; reached = {}; errors = []; jobsum = []; viols = []; validated = 0; mismatches = []; samples = []; ends = {}
    for (ji, job, ri, params), d, txt in results:
        name = job.get('name', job['harness'])
        if d is None: errors.append('%s %s: %s' % (name, params, txt)); continue
        for k in agg: agg[k] += d.get(k, 0)
        for f in d['functions']:
            if 'verif' in f['file'] or f['file'].startswith('/'): 
                if not f['file'].startswith(REPO): continue
            fn = f['file'].replace(REPO + '/', ''); k = fn + ': ' + f['name']; funcs[k] = max(funcs.get(k, 0), f['lines'])
        for k, v in d['incomplete'].items(): incomplete[name + ': ' + k] = incomplete.get(name + ': ' + k, 0) + v
        for k, v in d['reached'].items(): reached.setdefault(ji, {}); reached[ji][k] = reached[ji].get(k, 0) + v
        for k, v in d['ends'].items(): ends[k] = ends.get(k, 0) + v
        jobsum.append(dict(job=name, params=params, paths=d['paths'], queries=d['queries'], solver_s=round(d['solver_s'], 2), wall_s=round(d['wall_s'], 2), complete=not d['incomplete'] and d['pending'] == 0 or bool(d['violations'])))
        for v in d['violations']: viols.append((ji, job, params, v))
        if d['samples'] and len(samples) < 6: s = d['samples'][-1]; samples.append(dict(job=name, params=params, labels=s['labels'], inputs=[[n, v] for n, w, v in s['inputs'] if not n.startswith('__')][:40]))
    # validation of the encoding: models of finished paths are run natively and must behave the same
    nsamp = 0; limit = spec.get('validate', 24 if tier == 'quick' else 200)
    vtasks = []
    for (ji, job, ri, params), d, txt in results:
        if d is None or ji not in natives: continue
        for si, s in enumerate(d['samples']): vtasks.append((ji, job, params, s, si, ri))
    if len(vtasks) > limit: vtasks = vtasks[::max(1, len(vtasks) // limit)][:limit]
    def val(t):
        ji, job, params, s, si, ri = t
        try: ne = natives[ji].result()
        except RuntimeError as e: return 'native build failed: ' + str(e)[-400:]
        rf = os.path.join(tmp, 'v_%d_%d_%d' % (ji, ri, si)); replay_file(rf, params, s['inputs'])
        r = run_native(ne, rf)
        if r['viol']: return '%s %s: native run reports %s' % (job.get('name', job['harness']), params, r['viol'])
        if r['end'] is None: return '%s %s: native run left the path (rc %s)' % (job.get('name', job['harness']), params, r['rc'])
        if r['reach'] != s['labels']: return '%s %s: labels differ: %s / %s' % (job.get('name', job['harness']), params, r['reach'][:8], s['labels'][:8])
        return None
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for x in ex.map(val, vtasks):
            nsamp += 1
            if x is None: validated += 1
            else: mismatches.append(x)
    # violations: confirm natively
    confirmed = []; unconfirmed = []; known = []
    kfs = {k['id']: k for k in json.load(open(os.path.join(V, 'known_findings.json')))['known']} if os.path.exists(os.path.join(V, 'known_findings.json')) else {}
    for n, (ji, job, params, v) in enumerate(viols):
        rp = os.path.join(evdir, 'replay', '%s-%d.txt' % (pid, n)); replay_file(rp, params, v['inputs'])
        with open(rp + '.info', 'w') as f: json.dump(dict(property=pid, job=job.get('name', job['harness']), params=params, violation=v), f, indent=1)
        rr = None
        if ji in natives:
            try: rr = run_native(natives[ji].result(), rp)
            except RuntimeError as e: rr = {'viol': None, 'text': str(e)[-500:], 'rc': -1}
        ok = bool(rr and rr['viol']) or (job.get('no_native') and True)
        ent = dict(kind=v['kind'], msg=v['msg'], loc=v['loc'], job=job.get('name', job['harness']), params=params, replay=rp, native=(rr or {}).get('viol'), stack=v['stack'][:6])
        kf = kfs.get(job.get('known', ''))
        if not ok: ent['native_text'] = (rr or {}).get('text', '')[-600:]; unconfirmed.append(ent)
        elif kf and kf['property'] == pid and re.search(kf['match'], v['msg']): ent['finding'] = kf['id']; known.append((kf, ent))
        else: confirmed.append(ent)
    missing = []
    for ji, job, ri, r in tasks:
        for l in job.get('reach', []):
            if ri == 0 and l not in reached.get(ji, {}): missing.append('%s: %s' % (job.get('name', job['harness']), l))
    ev = dict(property=pid, tier=tier, seed=seed, level=spec.get('level', 'model_checking'), wall_s=round(time.time() - t0, 2), violations=len(confirmed),
      assumptions=spec.get('assumptions', []),
      coverage=dict(explanation=spec.get('explanation', ''), bounds=spec.get('bounds', {}).get(tier, spec.get('bounds', '')) if isinstance(spec.get('bounds', ''), dict) else spec.get('bounds', ''),
        states=agg['paths'], transitions=agg['forks'] + agg['sched_points'] + agg['asserts'], traces_validated_against_impl=validated, samples=samples or ['none'],
        symbolic_paths=agg['paths'], path_forks=agg['forks'], instructions_executed=agg['instructions'], solver_queries=agg['queries'], queries_sat=agg['sat'], queries_unsat=agg['unsat'], queries_unknown=agg['unknown'], query_cache_hits=agg['cache_hits'],
        assertions_checked=agg['asserts'], assertions_decided_by_solver=agg['assert_queries'], scheduling_points=agg['sched_points'], solver_s=round(agg['solver_s'], 2), compile_s=round(t1 - t0, 2),
        exhaustive=not incomplete and not errors and all(j['complete'] for j in jobsum), incomplete=incomplete, engine_errors=errors, path_ends=ends,
        witnesses_reached={specs_name(spec, ji): r for ji, r in reached.items()}, witnesses_missing=missing, encoding_mismatches=mismatches[:10], native_replays=nsamp,
        functions_encoded=len(funcs), functions=sorted('%s (%d lines)' % kv for kv in funcs.items()), jobs=jobsum, unconfirmed=unconfirmed, violations_found=confirmed, known_findings=[k[1] for k in known]))
    p = os.path.join(evdir, pid + '.json')
    with open(p + '.tmp', 'w') as f: json.dump(ev, f, indent=1)
    os.replace(p + '.tmp', p)
    log('%s %s: %d jobs, %d paths, %d queries (%d sat, %d unsat, %d unknown), solver %.1fs, wall %.1fs, validated %d/%d native replays' % (pid, tier, len(tasks), agg['paths'], agg['queries'], agg['sat'], agg['unsat'], agg['unknown'], agg['solver_s'], time.time() - t0, validated, nsamp))
    if incomplete: log('  incomplete:', json.dumps(incomplete))
    if missing: log('  witnesses not reached:', missing)
    for m in mismatches[:5]: log('  encoding mismatch:', m)
    for e in errors: log('  engine error:', e)
    for u in unconfirmed: log('  counterexample not reproduced natively (not reported): %s %s at %s [%s %s]' % (u['kind'], u['msg'], u['loc'], u['job'], u['params']))
    for kf, ent in known: log('KNOWN-FINDING: property=%s %s' % (pid, kf['what']))
    for c in confirmed[:8]:
        log('VIOLATION property=%s replay=%s' % (pid, c['replay'])); log('  %s: %s at %s [%s %s] native: %s' % (c['kind'], c['msg'], c['loc'], c['job'], c['params'], c['native']))
        for s in c['stack'][:4]: log('    ' + s)
    if confirmed: return 1
    if errors and len(errors) == len(tasks): return 2
    return 0
def specs_name(spec, ji): return '%d:%s' % (ji, spec['jobs'][ji].get('name', spec['jobs'][ji]['harness']))
if __name__ == '__main__': main()
