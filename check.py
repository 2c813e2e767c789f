#!/usr/bin/env python3
"""check.py <PROPERTY> [quick|thorough]   decide one property on /repo's current working tree
   check.py --replay FILE                 re-run a recorded counterexample natively (exit 1 if it still fails)
   check.py --setup                       build the symbolic executor

Every run: compile /repo's sources to LLVM IR, link them with the property's harnesses, execute every harness
symbolically (engine/ulzsym.cpp, Z3), replay counterexamples and sampled paths against a native ASan build."""
import sys, os, json, subprocess, tempfile, shutil, time, hashlib, re, fcntl
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
NCPU = os.cpu_count() or 4
sys.path.insert(0, VERIF)
CFLAGS = ['-std=c99', '-w', '-g', '-fno-builtin', '-Wno-error', '-Wno-implicit-function-declaration', '-Wno-int-conversion',
          '-Wno-incompatible-pointer-types', '-U_FORTIFY_SOURCE', '-fno-stack-protector', '-I', REPO + '/include']
SYMFLAGS = ['-O0', '-Xclang', '-disable-O0-optnone', '-emit-llvm', '-c']
NATFLAGS = ['-O0', '-fsanitize=address', '-fno-omit-frame-pointer', '-ftrivial-auto-var-init=pattern', '-DVP_NATIVE', '-c']
PASSES = 'function(mem2reg,simplifycfg<bonus-inst-threshold=2;no-switch-to-lookup>)'

def sh(cmd, timeout=300, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors='replace', **kw)

def engine():
    src = [os.path.join(VERIF, 'engine', f) for f in ('ulzsym.cpp', 'solver.h', 'bitblast.h', 'expr.h')]
    h = hashlib.sha256(b''.join(open(f, 'rb').read() for f in src)).hexdigest()[:16]
    exe = os.path.join(BUILD, 'ulzsym-' + h)
    if os.path.exists(exe): return exe
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe): return exe
        tmp = exe + '.tmp%d' % os.getpid()
        r = sh(['clang++', '-O2', '-std=c++17', '-w', '-I/usr/include/llvm-c-18', '-I/usr/include/llvm-18', src[0], '-o', tmp,
                '-L/usr/lib/llvm-18/lib', '-lLLVM-18', '-lz3', '-lpicosat'], timeout=600)
        if r.returncode: print(r.stderr); sys.exit(2)
        os.rename(tmp, exe)
    return exe

class Tree:
    """Everything derived from the current /repo tree for one run."""
    def __init__(self, tmp):
        self.tmp = tmp; self.errors = []; self.bc = {}; self.defs = {}; self.undef = {}; self.nat = {}; self.flags = {}
    def build(self):
        srcs = []
        for d in sorted(os.listdir(REPO + '/src')):
            p = os.path.join(REPO, 'src', d)
            if os.path.isdir(p): srcs += [os.path.join(p, f) for f in sorted(os.listdir(p)) if f.endswith('.c')]
        def one(s):
            o = os.path.join(self.tmp, 'lib_' + os.path.relpath(s, REPO).replace('/', '_')[:-2] + '.bc')
            r = sh(['clang'] + CFLAGS + SYMFLAGS + [s, '-o', o])
            if r.returncode: return s, None, r.stderr
            return s, o, self.syms(o)
        with ThreadPoolExecutor(NCPU) as ex:
            for s, o, info in ex.map(one, srcs):
                if o is None: self.errors.append(s + ': ' + info[-500:]); continue
                self.bc[s] = o; d, u = info; self.undef[s] = u
                for x in d: self.defs.setdefault(x, s)
        for n in ('vp_env', 'vp_libc'):
            o = os.path.join(self.tmp, n + '.bc')
            r = sh(['clang'] + CFLAGS + SYMFLAGS + [os.path.join(VERIF, 'harness', n + '.c'), '-o', o])
            if r.returncode: print(r.stderr); sys.exit(2)
    def syms(self, o):
        r = sh(['llvm-nm', o]); d = set(); u = set()
        for l in r.stdout.splitlines():
            f = l.split()
            if len(f) >= 2:
                if f[-2] == 'U': u.add(f[-1])
                elif f[-2] in 'TDBRCVWGS': d.add(f[-1])
        return d, u
    def closure(self, undef, exclude=()):
        need, files, seen = list(undef), [], set(exclude)
        while need:
            x = need.pop()
            if x in seen: continue
            seen.add(x)
            s = self.defs.get(x)
            if s and s not in files: files.append(s); need += self.undef[s]
        return sorted(files)

class Job:
    def __init__(self, prop, spec, tree, tier):
        self.p, self.spec, self.t, self.tier = prop, spec, tree, tier
        self.name = spec['name']; self.src = os.path.join(VERIF, 'harness', spec['src'])
        self.dir = os.path.join(tree.tmp, 'job_' + re.sub(r'\W', '_', self.name)); os.makedirs(self.dir, exist_ok=True)
        self.defs = ['-D%s=%s' % kv for kv in spec.get('D', {}).items()] + ['-I', os.path.join(VERIF, 'harness')] + spec.get('flags', [])
        self.res = None; self.err = None; self.exe = None; self.confirmed = []; self.unconfirmed = []; self.validated = 0; self.mism = []
    def libsrc(self, s, native):
        # library sources needing special flags for this job (e.g. a shrunken PATH_MAX) are recompiled
        lf = self.spec.get('libflags')
        if native:
            key = (s, tuple(lf or ()))
            if key not in self.t.nat:
                o = os.path.join(self.t.tmp, 'nat_%d.o' % len(self.t.nat)); self.t.nat[key] = o
                r = sh(['clang'] + CFLAGS + NATFLAGS + (lf or []) + [s, '-o', o])
                if r.returncode: raise RuntimeError(r.stderr[-800:])
            return self.t.nat[key]
        if not lf: return self.t.bc[s]
        o = os.path.join(self.dir, os.path.basename(s)[:-2] + '.bc')
        r = sh(['clang'] + CFLAGS + SYMFLAGS + lf + [s, '-o', o])
        if r.returncode: raise RuntimeError(r.stderr[-800:])
        return o
    def encode(self):
        h = os.path.join(self.dir, 'h.bc')
        r = sh(['clang'] + CFLAGS + SYMFLAGS + self.defs + [self.src, '-o', h])
        if r.returncode: raise RuntimeError('harness does not compile: ' + r.stderr[-800:])
        d, u = self.t.syms(h)
        self.files = self.t.closure(u, exclude=d)
        out = os.path.join(self.dir, 'all.bc')
        r = sh(['llvm-link', '-o', out + '.l', h, self.t.tmp + '/vp_env.bc', self.t.tmp + '/vp_libc.bc'] + [self.libsrc(s, False) for s in self.files])
        if r.returncode: raise RuntimeError('link: ' + r.stderr[-800:])
        r = sh(['opt', '-passes=' + self.spec.get('passes', PASSES), out + '.l', '-o', out])
        if r.returncode: raise RuntimeError('opt: ' + r.stderr[-800:])
        return out
    def limit(self): return self.spec.get('T', 60) if self.tier == 'quick' else self.spec.get('TT', max(600, 4 * self.spec.get('T', 60)))
    def run(self, eng):
        try:
            bc = self.encode()
            T = self.limit()
            if self.tier == 'quick':  # the whole quick check stays within its time whatever the machine
                left = self.t.deadline - time.time()
                if left < 5: raise RuntimeError('no time left for this harness')
                T = int(min(T, left))
            cmd = [eng, bc, '-T', str(T), '-q', str(self.spec.get('q', 30000)), '-s', str(self.spec.get('steps', 2000000)), '-m', str(self.spec.get('samples', 6))] + (['-merge', ','.join(self.spec['merge'])] if self.spec.get('merge') else []) + self.spec.get('eflags', [])
            r = sh(['bash', '-c', 'ulimit -v %d; ulimit -s unlimited; exec "$@"' % (12 << 20), 'x'] + cmd, timeout=T + 120)
            if os.environ.get('VP_DUMP'): sys.stderr.write(r.stderr)
            if r.returncode: raise RuntimeError('engine rc=%d %s' % (r.returncode, r.stderr[-500:]))
            self.res = json.loads(r.stdout)
        except subprocess.TimeoutExpired: self.err = 'engine timeout'
        except Exception as e: self.err = str(e)
        return self
    # ---- native side
    def native(self):
        if self.exe: return self.exe
        h = os.path.join(self.dir, 'h.o'); env = os.path.join(self.dir, 'env.o')
        for s, o, extra in ((self.src, h, self.defs), (os.path.join(VERIF, 'harness', 'vp_env.c'), env, [])):
            r = sh(['clang'] + CFLAGS + NATFLAGS + extra + [s, '-o', o])
            if r.returncode: raise RuntimeError(r.stderr[-800:])
        objs = [h] + [self.libsrc(s, True) for s in self.files]
        defd = set()
        for o in (h, env):
            for l in sh(['nm', '--defined-only', o]).stdout.splitlines():
                f = l.split()
                if len(f) == 3 and f[1] in 'TDB': defd.add(f[2])
        red = {}
        outs = []
        for i, o in enumerate(objs):
            und = [l.split()[-1] for l in sh(['nm', '-u', o]).stdout.splitlines()]
            m = [x for x in und if ('vp_' + x) in defd]
            n = os.path.join(self.dir, 'r%d.o' % i); args = []
            for x in m: args += ['--redefine-sym', x + '=vp_' + x]
            if m: r = sh(['objcopy'] + args + [o, n]); 
            else: shutil.copy(o, n)
            outs.append(n)
        exe = os.path.join(self.dir, 'native')
        r = sh(['clang', '-fsanitize=address', '-o', exe] + outs + [env])
        if r.returncode: raise RuntimeError('native link: ' + r.stderr[-800:])
        self.exe = exe
        return exe
    def nat_run(self, nd, fill='0xA5'):
        r = self.nat_run1(nd, fill, self.spec.get('native_timeout', 10))
        # a slow machine is not a hang: only a run that still goes on after a multiple of that time counts as one
        return r if r[0] != 'hang' else self.nat_run1(nd, fill, 100 if self.spec.get('steps', 0) > 10**8 else 50)
    def nat_run1(self, nd, fill, to):
        exe = self.native(); fn = os.path.join(self.dir, 'nd%d.txt' % (hash((tuple(nd), fill)) & 0xffffff)); obs = fn + '.obs'
        open(fn, 'w').write('\n'.join(map(str, nd)) + '\n')
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1')
        try:
            r = sh([exe, fn, fill, obs], timeout=to, env=env, cwd=self.dir)
            rc, out = r.returncode, r.stderr
        except subprocess.TimeoutExpired: rc, out = 'hang', 'native run did not finish within %d s' % to
        try: o = [int(x) for x in open(obs).read().split()]
        except Exception: o = []
        return rc, out, o
    def replay(self):
        end = time.time() + 150
        for v in self.res['violations']:
            if len(self.confirmed) >= 2 or time.time() > end: break
            ok = False
            try:
                for fill in ('0xA5', '0x00', '0xFF'):
                    rc, out, _ = self.nat_run(v['nd'], fill)
                    if rc not in (0, 77, 78): ok = True; break
                    if time.time() > end: break
            except Exception as e: rc, out = None, str(e)
            v['native_rc'] = rc; v['native_out'] = (out or '')[-1500:]
            v['fill'] = fill
            (self.confirmed if ok else self.unconfirmed).append(v)
    def validate(self):
        for s in self.res['samples']:
            try: rc, out, obs = self.nat_run(s['nd'])
            except Exception as e: self.mism.append('native build: ' + str(e)); return
            if rc == 0 and obs == s['obs']: self.validated += 1
            elif rc == 'hang' and self.spec.get('steps', 0) > 10**7: self.mism.append(out); return  # the path ended in the encoding: slow, not endless
            elif rc not in (0, 77, 78): self.confirmed.append({'kind': 'native', 'msg': 'native run of an explored path fails', 'loc': '', 'nd': s['nd'], 'native_rc': rc, 'native_out': out[-1500:], 'fill': '0xA5'})
            else: self.mism.append('rc=%s obs %s native %s nd=%s %s' % (rc, s['obs'][:8], obs[:8], s['nd'][:40], out[-200:]))

def known(prop):
    r = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) job=(\S+) msg="(.*?)" :: (.*)', l)
            if m and m.group(1) == prop: r.append(m.groups())
    return r

def main():
    if sys.argv[1] == '--setup': print(engine()); return 0
    import props
    if sys.argv[1] == '--replay':
        rec = json.load(open(sys.argv[2])); tmp = tempfile.mkdtemp(prefix='vp_')
        try:
            t = Tree(tmp); t.build()
            j = Job(rec['property'], rec['job'], t, 'quick'); j.encode()
            rc, out, _ = j.nat_run(rec['nd'], rec.get('fill', '0xA5'))
            print(out); print('rc', rc)
            return 0 if rc in (0, 77, 78) else 1
        finally: shutil.rmtree(tmp, ignore_errors=True)
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time(); eng = engine(); tmp = tempfile.mkdtemp(prefix='vp_')
    try:
        t = Tree(tmp); t.deadline = t0 + 600; t.build()
        specs = props.jobs(prop, tier)
        only = os.environ.get('VP_JOB')
        if only: specs = [s for s in specs if re.search(only, s['name'])]
        jobs = [Job(prop, s, t, tier) for s in specs]
        with ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(lambda j: j.run(eng), sorted(jobs, key=lambda j: -j.limit())))
        for j in jobs:  # native objects are shared: build them before the parallel part
            if j.res and (j.res['violations'] or j.res['samples']):
                for s in j.files:
                    try: j.libsrc(s, True)
                    except Exception as e: pass
        def post(j):
            if j.res: j.replay(); j.validate()
        with ThreadPoolExecutor(NCPU) as ex: list(ex.map(post, jobs))
        return report(prop, tier, jobs, t, t0)
    finally: shutil.rmtree(tmp, ignore_errors=True)

def report(prop, tier, jobs, t, t0):
    import props
    viol, undec, kf = [], [], []
    fns = {}; tot = {}
    kn = known(prop)
    for j in jobs:
        if j.err: undec.append('%s: %s' % (j.name, j.err)); continue
        r = j.res
        for k, v in r.items():
            if isinstance(v, (int, float)): tot[k] = max(tot.get(k, 0), v) if k == 'z3_max' else tot.get(k, 0) + v
        for f in r['functions']:
            if '/repo/' in f['file'] or f['file'].startswith(REPO):
                o = fns.setdefault(f['name'], [0, f['blocks']]); o[0] = max(o[0], f['covered'])
        if not r['done'] and not r['violations']: undec.append('%s: vacuous, no path reached the end' % j.name)
        for k, n in r['incomplete'].items():
            if not k.startswith('stopped after'): undec.append('%s: %s (%d)' % (j.name, k, n))
        if r['disagree']: undec.append('%s: PicoSAT and Z3 disagree (%d)' % (j.name, r['disagree']))
        for v in j.unconfirmed: undec.append('%s: counterexample not reproduced natively: %s %s at %s (native rc=%s)' % (j.name, v['kind'], v['msg'], v['loc'], v['native_rc']))
        for m in j.mism: undec.append('%s: encoding/native mismatch: %s' % (j.name, m))
        for v in j.confirmed:
            hit = [k for k in kn if re.fullmatch(k[1], j.name) and k[2] == v['msg']]
            if hit: kf.append(hit[0][3])
            else: viol.append((j, v))
    ev = os.path.join(VERIF, 'evidence'); os.makedirs(ev, exist_ok=True)
    ok = [j for j in jobs if j.res and not j.res['incomplete'] and j.res['done']]
    info = props.info(prop)
    cov = {
        'states': int(tot.get('paths', 0)), 'transitions': int(tot.get('instructions', 0)),
        'traces_validated_against_impl': sum(j.validated for j in jobs),
        'samples': [{'harness': j.name, 'inputs': s['nd'][:64]} for j in jobs if j.res for s in j.res['samples'][:1]][:8],
        'exhaustive': not undec and not viol,
        'meaning': 'states = complete symbolic paths (each stands for all inputs satisfying its path condition); transitions = LLVM instructions executed symbolically; every assertion on every path is an SMT query (or folds to true during term construction)',
        'harnesses': [{'name': j.name, 'defines': j.spec.get('D', {}), 'bound': j.spec.get('bound', ''), 'paths': j.res['paths'] if j.res else 0, 'wall_s': j.res['wall'] if j.res else None, 'complete': bool(j.res and not j.res['incomplete'])} for j in jobs],
        'harnesses_complete': len(ok), 'harnesses_total': len(jobs),
        'functions_encoded': sorted(fns), 'blocks_covered': sum(v[0] for v in fns.values()), 'blocks_total': sum(v[1] for v in fns.values()),
        'queries': int(tot.get('queries', 0)), 'z3_calls': int(tot.get('z3_calls', 0)), 'z3_sat': int(tot.get('z3_sat', 0)), 'z3_unsat': int(tot.get('z3_unsat', 0)), 'z3_unknown': int(tot.get('z3_unknown', 0)),
        'sat_calls': int(tot.get('sat_calls', 0)), 'sat_sweeps': int(tot.get('sweeps', 0)), 'sat_sweep_queries': int(tot.get('sweep_queries', 0)), 'sat_unsat': int(tot.get('sat_unsat', 0)), 'sat_time_s': round(tot.get('sat_time', 0), 3), 'sat_unsat_confirmed_by_z3': int(tot.get('cross_checked', 0)), 'solver_disagreements': int(tot.get('disagree', 0)),
        'cache_hits': int(tot.get('cache_hits', 0)), 'model_reuse': int(tot.get('model_hits', 0)), 'z3_time_s': round(tot.get('z3_time', 0), 3), 'z3_max_query_s': round(tot.get('z3_max', 0), 3),
        'assertions_checked': int(tot.get('checks', 0)), 'assertions_by_solver': int(tot.get('checks_solver', 0)), 'memory_accesses_checked': int(tot.get('mem_checks', 0)),
        'undecided': undec, 'bounds': info.get('bounds', ''), 'outside': info.get('outside', ''),
    }
    rp = None
    if viol:
        os.makedirs(os.path.join(ev, 'replay'), exist_ok=True)
        for i, (j, v) in enumerate(viol[:5]):
            p = os.path.join(ev, 'replay', '%s-%d.json' % (prop, i)); rp = rp or p
            json.dump({'property': prop, 'job': j.spec, 'kind': v['kind'], 'msg': v['msg'], 'loc': v['loc'], 'nd': v['nd'], 'fill': v.get('fill'), 'native_rc': v['native_rc'], 'native_out': v['native_out'],
                       'how': 'python3 check.py --replay ' + p}, open(p, 'w'), indent=1)
    json.dump({'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking', 'coverage': cov,
               'assumptions': info.get('assumptions', []) + props.COMMON_ASSUMPTIONS, 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)},
              open(os.path.join(ev, prop + '.json'), 'w'), indent=1)
    for e in t.errors: print('note: not compiled: ' + e)
    for j in jobs:
        if j.res: print('  %-34s paths=%d checks=%d(%d by solver) sat=%d/%.1fs z3=%d/%.1fs wall=%.1fs validated=%d%s' % (j.name, j.res['paths'], j.res['checks'], j.res['checks_solver'], j.res['sat_calls'], j.res['sat_time'], j.res['z3_calls'], j.res['z3_time'], j.res['wall'], j.validated, '' if not j.res['incomplete'] else '  INCOMPLETE'))
    for u in undec: print('UNDECIDED ' + u)
    for k in sorted(set(kf)): print('KNOWN-FINDING: property=%s %s' % (prop, k))
    for j, v in viol[:5]: print('  violated in %s: %s: %s at %s (native: %s)' % (j.name, v['kind'], v['msg'], v['loc'], str(v['native_out']).strip().splitlines()[-1:] ))
    if viol: print('VIOLATION property=%s replay=%s' % (prop, rp)); return 1
    if not ok: print('ERROR: no harness completed'); return 2
    print('OK property=%s tier=%s harnesses=%d/%d paths=%d z3=%d wall=%.1fs' % (prop, tier, len(ok), len(jobs), cov['states'], cov['z3_calls'], time.time() - t0))
    return 0
if __name__ == '__main__': sys.exit(main())
