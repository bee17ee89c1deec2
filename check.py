#!/usr/bin/env python3
"""Runs the check of one property: python3 check.py C07 [--tier thorough] [--replay FILE] [--repo DIR] [--only JOB]
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken (counterexample replayed natively).  Other: error."""
import sys, os, json, subprocess, shutil, tempfile, time, glob, re, hashlib, argparse, concurrent.futures as cf
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V + '/tools'); sys.dont_write_bytecode = True
ENG = V + '/build/symx'
LLVM = '/usr/lib/llvm-18'
CLANG = shutil.which('clang-18') or shutil.which('clang') or LLVM + '/bin/clang'
LINK = shutil.which('llvm-link-18') or LLVM + '/bin/llvm-link'
ENGSRC = [V + '/engine/' + f for f in ('symx.cpp', 'interp.inc', 'expr.h')]
class CheckError(Exception): pass
def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
    if r.returncode: raise CheckError('command failed: %s\n%s' % (cmd if isinstance(cmd, str) else ' '.join(cmd), r.stdout[-4000:]))
    return r.stdout
def build_engine():
    h = hashlib.sha256(b''.join(open(f, 'rb').read() for f in ENGSRC)).hexdigest()
    st = V + '/build/stamp'
    if os.path.exists(ENG) and os.path.exists(st) and open(st).read() == h: return
    os.makedirs(V + '/build', exist_ok=True)
    flags = [f for f in run(['llvm-config-18', '--cxxflags']).split() if f not in ('-fno-exceptions', '-DNDEBUG')]
    tmp = ENG + '.%d' % os.getpid()
    run(['g++', '-O2', '-std=c++17', '-fexceptions', '-w'] + flags + ['-I/usr/include/llvm-18', '-I' + LLVM + '/include', '-o', tmp, V + '/engine/symx.cpp', '-L' + LLVM + '/lib', '-lLLVM-18', '-lz3'])
    os.rename(tmp, ENG); open(st, 'w').write(h)
# ---------------------------------------------------------------- sources
def tokens(f, inc):
    out = run([CLANG, '-E', '-P', '-w'] + inc + [f]); return hashlib.sha256(' '.join(out.split()).encode()).hexdigest()
class Tree:
    """One variant of the library sources: 'generated' amalgamations, or the 'committed' ones."""
    def __init__(self, name, root, rel, jrel): self.name, self.root, self.rel, self.jrel = name, root, rel, jrel
    def inc(self): return ['-I' + self.rel, '-I' + self.jrel, '-I' + self.root, '-I' + self.root + '/cee-json', '-I' + self.root + '/sqlite3']
    def units(self, lib):
        r = {'cee': ['R/cee.c'], 'json': ['R/cee.c', 'J/cee-json.c'], 'strview': ['S/strview.c'], 'sqlite': ['R/cee.c', 'J/cee-json.c', 'S/sqlite3/cee-sqlite3.c'], 'join': ['R/cee.c', 'J/cee-json.c', 'S/sqlite3/cee-sqlite3.c', 'S/sqlite3/join.c'], 'none': []}[lib]
        return [u.replace('R/', self.rel + '/').replace('J/', self.jrel + '/').replace('S/', self.root + '/') for u in r]
def prepare(repo, scratch):
    S = scratch + '/src'; os.makedirs(S)
    run(['rsync', '-a', '--exclude=/.git', '--exclude=/_build', '--exclude=obj', '--exclude=*.out', '--exclude=/cee-utils', '--exclude=/cee-one.c', '--exclude=/cee-json/cee-json-one.c', '--exclude=/tmp.c', '--exclude=/cee-json/tmp.c', repo + '/', S + '/'])
    os.rename(S + '/release', scratch + '/rel_committed'); os.rename(S + '/cee-json/release', scratch + '/jrel_committed')
    os.makedirs(S + '/cee-utils', exist_ok=True)
    env = {k: v for k, v in os.environ.items() if k not in ('MAKEFLAGS', 'MFLAGS', 'CFLAGS', 'LDFLAGS', 'LCOV')}; env.update(CC='gcc', LC_ALL='C.UTF-8')
    run(['make', '-C', S, '-j8', 'release'], env=env)
    gen = Tree('generated', S, S + '/release', S + '/cee-json/release'); com = Tree('committed', S, scratch + '/rel_committed', scratch + '/jrel_committed')
    return gen, com
def variants(gen, com, lib):
    if lib in ('strview', 'none'): return [gen]
    same = True
    for g, c in zip(gen.units(lib), com.units(lib)):
        if g != c and tokens(g, gen.inc()) != tokens(c, com.inc()): same = False
    return [gen] if same else [gen, com]
LAX = ['-Wno-int-conversion', '-Wno-incompatible-function-pointer-types', '-Wno-implicit-function-declaration', '-Wno-implicit-int', '-Wno-return-mismatch', '-Wno-return-type'] # what the project's compiler only warns about
BCF = LAX + ['-O0', '-g', '-Xclang', '-disable-O0-optnone', '-fno-builtin', '-D__NO_CTYPE', '-U_FORTIFY_SOURCE', '-w', '-emit-llvm', '-c', '-I' + V + '/engine/rt']
def bitcode(tree, lib, harness, defs, out, scratch):
    """Compile the library, models and harness to one bitcode file."""
    jobs = []
    with cf.ThreadPoolExecutor(8) as ex:
        objs = []
        for u in tree.units(lib):
            o = scratch + '/%s_%s.bc' % (tree.name, os.path.basename(u)[:-2]); objs.append(o)
            if not os.path.exists(o): jobs.append(ex.submit(run, [CLANG] + BCF + ['-std=gnu99'] + tree.inc() + ['-o', o, u]))
        o = scratch + '/models.bc'; objs.append(o)
        if not os.path.exists(o): jobs.append(ex.submit(run, [CLANG] + BCF + ['-o', o, V + '/engine/rt/models.c']))
        o = scratch + '/vfs.bc'; objs.append(o)
        if not os.path.exists(o): jobs.append(ex.submit(run, [CLANG] + BCF + ['-DSYMX', '-o', o, V + '/engine/rt/vfs.c']))
        o = scratch + '/%s_h_%s.bc' % (tree.name, hashlib.md5((harness + str(defs)).encode()).hexdigest()[:8]); objs.append(o)
        jobs.append(ex.submit(run, [CLANG] + BCF + ['-std=gnu99', '-D_GNU_SOURCE', '-DSYMX'] + ['-D' + d for d in defs] + tree.inc() + ['-I' + V + '/harness', '-o', o, V + '/harness/' + harness]))
        for j in jobs: j.result()
    run([LINK] + objs + ['-o', out])
WRAP = '-Wl,' + ','.join('--wrap=' + x for x in ('malloc', 'calloc', 'realloc', 'free', 'strdup', 'strndup'))
VFSW = '-Wl,' + ','.join('--wrap=' + x for x in 'open close read write lseek fstat stat fopen fdopen fileno fclose fread fwrite fgetc fputs fputc fflush feof ferror fseek ftell rewind vfprintf fprintf vdprintf dprintf'.split())
def native(tree, lib, harness, defs, scratch, san):
    exe = scratch + '/n_%s_%s_%s' % (tree.name, san, hashlib.md5((harness + str(defs) + lib).encode()).hexdigest()[:8])
    if os.path.exists(exe): return exe
    cc = {'asan': ['gcc', '-fsanitize=address'], 'msan': [CLANG, '-fsanitize=memory', '-fno-sanitize-memory-use-after-dtor'], 'plain': ['gcc']}[san]
    libs = ['-lm', '-lpthread', '-ldl']
    if 'vfs.h' in open(V + '/harness/' + harness).read(): libs = [V + '/engine/rt/vfs.c', VFSW] + libs
    run(cc + (LAX if san == 'msan' else []) + ['-O0', '-g', '-w', '-fno-omit-frame-pointer', '-std=gnu99', '-D_GNU_SOURCE', '-fno-builtin', '-I' + V + '/engine/rt', '-I' + V + '/harness'] + ['-D' + d for d in defs] + tree.inc() + [V + '/harness/' + harness] + tree.units(lib) + [V + '/engine/rt/native_rt.c', WRAP, '-o', exe] + libs)
    return exe
def native_run(exe, replay, obs=None, timeout=30):
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1:abort_on_error=0:exitcode=99', MSAN_OPTIONS='exitcode=98')
    d = tempfile.mkdtemp(prefix='vrun_')
    try:
        r = subprocess.run([exe, replay] + ([obs] if obs else []), stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, text=True, errors='replace', timeout=timeout, env=env, cwd=d)
        return r.returncode, r.stderr
    except subprocess.TimeoutExpired: return 'timeout', ''
    finally: shutil.rmtree(d, ignore_errors=True)
# ---------------------------------------------------------------- one symbolic job
def run_job(job, tree, cfgd, scratch, tier, seed, limit):
    name = job['name']; out = scratch + '/out_%s_%s' % (tree.name, name); bc = scratch + '/%s_%s.bc' % (tree.name, name)
    defs = job.get('defs', []); lib = job.get('lib', cfgd.get('lib', 'cee'))
    bitcode(tree, lib, job['file'], defs, bc, scratch)
    cmd = [ENG, bc, '--out', out, '--entry', 'harness', '--repo-prefix', scratch, '--workers', '8', '--time', str(limit), '--max-steps', str(job.get('steps', 5000000)), '--samples', str(job.get('samples', 12)), '--seed', str(seed), '--solver-timeout', str(job.get('stimeout', 30000)), '--max-viol', '3', '--mem', '3000']
    for k, v in job.get('params', {}).items(): cmd += ['--param', '%s=%d' % (k, v)]
    t = time.time(); p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace'); w = time.time() - t
    R = {'name': name, 'variant': tree.name, 'wall_s': round(w, 2), 'params': job.get('params', {}), 'required': job.get('req', True)}
    keys = ('paths', 'assume_killed', 'forks', 'instrs', 'queries', 'solver_queries', 'cache_hits', 'asserts', 'asserts_symbolic', 'memchecks', 'unknown', 'incomplete', 'engine_errors', 'viol', 'steplim', 'solver_s')
    for k in keys: R[k] = 0
    R['reach'] = {}; R['known'] = {}; R['msgs'] = []; R['violations'] = []; R['samples'] = []; cov = {}
    fs = glob.glob(out + '/res_*.json')
    for f in fs:
        try: d = json.load(open(f))
        except Exception: R['engine_errors'] += 1; R['msgs'].append('unreadable result file'); continue
        for k in keys: R[k] += d[k]
        for a in ('reach', 'known'):
            for k, v in d[a].items(): R[a][k] = R[a].get(k, 0) + v
        R['msgs'] += d['engine_err_msgs']; R['violations'] += d['violations']; R['samples'] += d['samples']
        for k, v in d['cov'].items(): cov[k] = v if k not in cov else ''.join('1' if '1' in x else '0' for x in zip(cov[k], v))
    R['cov'] = cov; R['solver_s'] = round(R['solver_s'], 2)
    if p.returncode or os.path.exists(out + '/crashed') or not fs: R['engine_errors'] += 1; R['msgs'].append('engine ended abnormally: ' + p.stdout[-500:])
    R['msgs'] = sorted(set(R['msgs']))[:10]
    R['complete'] = not (R['unknown'] or R['incomplete'] or R['engine_errors'])
    shutil.rmtree(scratch + '/dummy', ignore_errors=True)
    return R
def write_replay(path, prop, job, tree, v, inputs):
    with open(path, 'w') as f:
        f.write('# property %s\n# job %s\n# variant %s\n# kind %s\n# msg %s\n# where %s\n' % (prop, job['name'], tree.name, v['kind'], v['msg'], v['where']))
        for k, x in job.get('params', {}).items(): f.write('@param %s %d\n' % (k, x))
        f.write(inputs)
def confirm(job, cfgd, tree, scratch, replay, kind):
    lib = job.get('lib', cfgd.get('lib', 'cee')); order = ['msan', 'asan'] if kind == 'uninit' else ['asan', 'msan']
    for san in order:
        exe = native(tree, lib, job['file'], job.get('defs', []), scratch, san)
        rc, err = native_run(exe, replay, timeout=25)
        if rc == 77: continue
        if rc != 0: return True, '%s: exit %s: %s' % (san, rc, ' | '.join(l for l in err.splitlines() if 'ERROR' in l or 'SYM-' in l or 'WARNING' in l)[:300])
    return False, 'native run ended normally'
def validate_samples(job, cfgd, tree, scratch, samples, n):
    if not samples: return 0, []
    lib = job.get('lib', cfgd.get('lib', 'cee')); exe = native(tree, lib, job['file'], job.get('defs', []), scratch, 'asan')
    step = max(1, len(samples) // n); pick = samples[::step][:n]
    def one(a):
        i, s = a; p = scratch + '/smp_%s_%s_%d' % (tree.name, job['name'], i)
        with open(p, 'w') as f:
            for k, x in job.get('params', {}).items(): f.write('@param %s %d\n' % (k, x))
            f.write(s['in'])
        rc, err = native_run(exe, p, p + '.obs', timeout=60)
        o = open(p + '.obs').read() if os.path.exists(p + '.obs') else ''
        if rc != 0 or o.strip() != s['obs'].strip(): return False, 'sample %d of %s: native exit %s, observations %s\nexpected:\n%s\ngot:\n%s\ninputs:\n%s\n%s' % (i, job['name'], rc, 'differ' if o.strip() != s['obs'].strip() else 'agree', s['obs'][:800], o[:800], s['in'][:800], err[-1500:])
        return True, ''
    with cf.ThreadPoolExecutor(8) as ex: rs = list(ex.map(one, enumerate(pick)))
    return sum(1 for r in rs if r[0]), [r[1] for r in rs if not r[0]]
def known_ids(prop):
    r = {}
    try:
        for l in open(V + '/KNOWN_FINDINGS.md'):
            m = re.match(r'known: property=(\S+) id=(\S+) (.*)', l.strip())
            if m and m.group(1) == prop: r[m.group(2)] = m.group(3)
    except FileNotFoundError: pass
    return r
def main():
    ap = argparse.ArgumentParser(); ap.add_argument('prop', nargs='?'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--replay'); ap.add_argument('--build-only', action='store_true'); ap.add_argument('--repo', default='/repo'); ap.add_argument('--only'); ap.add_argument('--keep', action='store_true'); ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.build_only: build_engine(); return 0
    t0 = time.time(); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    import checks_data
    cfgd = checks_data.CHECKS[a.prop]; prop = a.prop
    jobs = [j for j in cfgd['jobs'] if (a.tier == 'thorough' or j.get('tier', 'quick') == 'quick')]
    if a.only: jobs = [j for j in cfgd['jobs'] if re.fullmatch(a.only, j['name'])]
    scratch = tempfile.mkdtemp(prefix='verif_%s_' % prop)
    try:
        with cf.ThreadPoolExecutor(2) as ex:
            fe = ex.submit(build_engine); fp = ex.submit(prepare, a.repo, scratch); fe.result(); gen, com = fp.result()
        if a.replay: return do_replay(a, cfgd, gen, com, scratch)
        return explore(a, prop, cfgd, jobs, gen, com, scratch, seed, t0)
    finally:
        if not a.keep: shutil.rmtree(scratch, ignore_errors=True)
        else: print('scratch', scratch)
def do_replay(a, cfgd, gen, com, scratch):
    h = dict(re.findall(r'^# (\w+) (.*)$', open(a.replay).read(), re.M)); job = [j for j in cfgd['jobs'] if j['name'] == h['job']][0]
    tree = com if h['variant'] == 'committed' else gen
    ok, how = confirm(job, cfgd, tree, scratch, os.path.abspath(a.replay), h['kind'])
    print(how); print('reproduced' if ok else 'not reproduced')
    if ok: print('VIOLATION property=%s replay=%s' % (a.prop, a.replay)); return 1
    return 0
def explore(a, prop, cfgd, jobs, gen, com, scratch, seed, t0):
    budget = 780 if a.tier == 'quick' else 14400
    results = []; err = []; validated = 0; known = known_ids(prop); seenknown = {}; confirmed = []; smp = []
    evd = V + '/evidence' if os.path.realpath(a.repo) == '/repo' else a.repo.rstrip('/') + '.evidence'; rdir = evd + '/replay'; os.makedirs(rdir, exist_ok=True)
    for old in glob.glob(rdir + '/%s_*' % prop): os.remove(old)
    plan = []
    libs = {}
    for j in jobs:
        lib = j.get('lib', cfgd.get('lib', 'cee'))
        if lib not in libs: libs[lib] = variants(gen, com, lib)
    for vi in (0, 1):
        for j in jobs:
            lv = libs[j.get('lib', cfgd.get('lib', 'cee'))]
            if vi < len(lv) and (vi == 0 or j.get('req', True)): plan.append((j, lv[vi]))
    for j, tree in plan:
        left = budget - (time.time() - t0); req = j.get('req', True) and tree is gen  # the committed amalgamation, where it differs, is explored as far as time allows
        if left < 5:
            if req: err.append('no time left for job %s (%s)' % (j['name'], tree.name))
            continue
        R = run_job(j, tree, cfgd, scratch, a.tier, seed, min(j.get('time', 300), left))
        results.append(R)
        if a.v: print('  %-28s %-9s %6.1fs paths=%d asserts=%d(sym %d) queries=%d solverq=%d solver=%.1fs complete=%s viol=%d %s' % (R['name'], R['variant'], R['wall_s'], R['paths'], R['asserts'], R['asserts_symbolic'], R['queries'], R['solver_queries'], R['solver_s'], R['complete'], len(R['violations']), '; '.join(R['msgs'])[:300]), flush=True)
        for i, v in enumerate(R['violations'][:4]):
            rp = '%s/%s_%s_%s_%d.replay' % (rdir, prop, j['name'], tree.name, i); write_replay(rp, prop, j, tree, v, open(v['file']).read())
            ok, how = confirm(j, cfgd, tree, scratch, rp, v['kind']); v['replay'] = rp; v['confirmed'] = ok; v['native'] = how
            print('%s: %s: %s\n   at %s\n   %s' % ('counterexample' if ok else 'UNCONFIRMED counterexample', v['kind'], v['msg'], v['where'], how))
            if ok: confirmed.append(v); break
        if confirmed: break
        bad = [v for v in R['violations'] if not v['confirmed']]
        if bad: err.append('job %s: solver counterexample did not reproduce natively: %s %s (%s)' % (j['name'], bad[0]['kind'], bad[0]['msg'], bad[0]['replay']))
        for k, n in R['known'].items(): seenknown[k] = seenknown.get(k, 0) + n
        if not R['complete'] and req: err.append('job %s (%s) incomplete: unknown=%d incomplete=%d engine_errors=%d %s' % (j['name'], tree.name, R['unknown'], R['incomplete'], R['engine_errors'], '; '.join(R['msgs'])))
        if R['complete'] and not R['violations']:
            for lab in j.get('reach', []):
                if not R['reach'].get(lab): err.append('job %s: label %s never reached (vacuous)' % (j['name'], lab))
            if not R['paths'] or not R['asserts'] and not R['memchecks']: err.append('job %s: no path completed' % j['name'])
            n, bads = validate_samples(j, cfgd, tree, scratch, R['samples'], 8 if a.tier == 'quick' else 32); validated += n; err += bads
        for s in R['samples'][:2]: smp.append({'job': R['name'], 'inputs': s['in'][:600], 'observed': s['obs'][:400]})
    rc = 0
    if confirmed:
        print('VIOLATION property=%s replay=%s' % (prop, confirmed[0]['replay'])); rc = 1
    else:
        unk = [k for k in seenknown if k not in known]
        if unk: err.append('deviation %s is not listed in KNOWN_FINDINGS.md' % unk)
        for k in known:
            if k in seenknown: print('KNOWN-FINDING: property=%s %s: %s' % (prop, k, known[k]))
        if err: rc = 2
        for e in err: print('ERROR', e)
    write_evidence(a, prop, cfgd, results, validated, smp, seed, t0, len(confirmed), err)
    tot = sum(r['paths'] for r in results)
    print('%s %s: %s, %d jobs, %d paths, %d solver queries, %d traces replayed natively, %.1fs' % (prop, a.tier, {0: 'held', 1: 'violated', 2: 'error'}[rc], len(results), tot, sum(r['solver_queries'] for r in results), validated, time.time() - t0))
    return rc
def write_evidence(a, prop, cfgd, results, validated, smp, seed, t0, nviol, err):
    done = [r for r in results if r['complete']]; cov = {}
    for r in done:
        for k, v in r['cov'].items(): cov[k] = v if k not in cov or len(cov[k]) != len(v) else ''.join('1' if '1' in x else '0' for x in zip(cov[k], v))
    jd = {j['name']: j for j in cfgd['jobs']}
    S = lambda k: sum(r[k] for r in done)
    ev = {"property": prop, "tier": a.tier if a.tier in ('quick', 'thorough') else 'quick', "seed": seed, "level": "model_checking",
      "coverage": {"states": S('instrs'), "transitions": S('forks') + S('paths'), "traces_validated_against_impl": validated, "samples": smp[:12] or ["none"],
        "state_meaning": "states = IR instructions executed symbolically; transitions = path forks decided by the solver plus paths run to their end",
        "paths": S('paths'), "queries": S('queries'), "queries_sent_to_z3": S('solver_queries'), "query_cache_hits": S('cache_hits'), "solver_s": round(S('solver_s'), 2),
        "assertions_decided": S('asserts'), "assertions_symbolic": S('asserts_symbolic'), "memory_accesses_checked": S('memchecks'),
        "functions_encoded": {k: "%d/%d instructions" % (v.count('1'), len(v)) for k, v in sorted(cov.items())},
        "jobs": [{"job": r['name'], "variant": r['variant'], "bound": jd[r['name']].get('bound', ''), "params": r['params'], "complete": r['complete'], "paths": r['paths'], "queries": r['queries'], "solver_s": r['solver_s'], "wall_s": r['wall_s'], "reach": r['reach'], "counted": r['complete']} for r in results],
        "exhaustive": bool(done) and all(r['complete'] for r in results if r['required']),
        "rule": "bounded: every value of every symbolic input within each job's stated bound; jobs with complete=false explored only part of theirs and are not counted"},
      "assumptions": cfgd.get('assume', []) + ["allocation never fails", "library calls behave as the C models in engine/rt/models.c", "little-endian x86-64, clang -O0 IR", "outside the stated bounds nothing is claimed"],
      "wall_s": round(time.time() - t0, 2), "violations": nviol}
    if err: ev['coverage']['errors'] = [e[:500] for e in err]
    evd = V + '/evidence' if os.path.realpath(a.repo) == '/repo' else a.repo.rstrip('/') + '.evidence'; os.makedirs(evd, exist_ok=True); json.dump(ev, open(evd + '/%s.json' % prop, 'w'), indent=1)
if __name__ == '__main__':
    try: sys.exit(main())
    except CheckError as e: print('ERROR', e); sys.exit(2)
