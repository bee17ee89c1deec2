#!/usr/bin/env python3
"""Makes and verifies planted bugs from tools/seeds/*.py-like definitions.
   seed.py make DEFS.py [ID...]   writes seeded/<id>/ after confirming: builds, tests pass, demo passes without and fails with the patch
   seed.py check [ID...] [-t]     runs the property's check against each patch (in a copy) and reports caught or missed"""
import sys, os, subprocess, shutil, json, tempfile, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); C = '/tmp/seedcopy'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
def copy():
    sh('rm -rf /tmp/seedcopy && cp -a /repo /tmp/seedcopy')
    for f in ('build', 'test'):
        t = open('/opt/vp/%s.sh' % f).read().replace('/repo', C).replace('bash /opt/vp/build.sh', 'bash /tmp/seed_build.sh').replace('/opt/vp/build.sh', '/tmp/seed_build.sh')
        open('/tmp/seed_%s.sh' % f, 'w').write(t)
def reset(): sh('git -C %s checkout -q -- .' % C)
DEMO = '''#!/bin/bash
# Exit 0 when the behaviour is right.  Run in the repository after its build; builds the demonstration in a scratch folder.
here=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d) || exit 2; trap 'rm -rf "$T"' EXIT
gcc -std=gnu99 -g -w %s -I_build/src/release -I_build/src/cee-json/release -I. -Icee-json -Isqlite3 -o "$T/demo" "$here/demo.c" %s -lm || exit 2
cd "$T" && ASAN_OPTIONS=detect_leaks=0 timeout 60 ./demo
'''
LIBS = {'cee': '_build/src/release/cee.c', 'json': '_build/src/release/cee.c _build/src/cee-json/release/cee-json.c', 'none': '', 'sqlite': '_build/src/release/cee.c _build/src/cee-json/release/cee-json.c sqlite3/cee-sqlite3.c', 'join': '_build/src/release/cee.c _build/src/cee-json/release/cee-json.c sqlite3/cee-sqlite3.c sqlite3/join.c'}
def make(defs, ids):
    ns = {}; exec(open(defs).read(), ns); copy(); bad = 0
    for s in ns['SEEDS']:
        if ids and s['id'] not in ids: continue
        d = V + '/seeded/' + s['id']
        if not ids and os.path.exists(d): continue
        reset(); err = None
        for f, old, new in s['edits']:
            t = open(C + '/' + f).read()
            if t.count(old) != 1: err = '%s: %d matches' % (f, t.count(old)); break
            open(C + '/' + f, 'w').write(t.replace(old, new))
        if err: print(s['id'], 'EDIT', err); bad += 1; continue
        diff = sh('git -C %s diff' % C).stdout; reset()
        os.makedirs(d, exist_ok=True); open(d + '/patch.diff', 'w').write(diff); open(d + '/demo.c', 'w').write(s['demo'].lstrip('\n')); open(d + '/demo.sh', 'w').write(DEMO % ('-fsanitize=address' if s.get('asan', 1) else '', LIBS[s.get('lib', 'cee')] + ' ' + s.get('extra', '')))
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        r = sh('bash /tmp/seed_build.sh'); r0 = sh('bash %s/demo.sh' % d, cwd=C)
        a = sh('git apply %s/patch.diff' % d, cwd=C); r1 = sh('bash /tmp/seed_test.sh /tmp/seed_out.json'); o = json.load(open('/tmp/seed_out.json')) if os.path.exists('/tmp/seed_out.json') else {'failed': ['?'], 'passed': []}
        r2 = sh('bash %s/demo.sh' % d, cwd=C); reset()
        ok = r0.returncode == 0 and a.returncode == 0 and len(o['passed']) == 4 and not o['failed'] and r2.returncode not in (0, 2)
        print(s['id'], 'ok' if ok else 'BAD', 'demo clean=%d patched=%d tests=%d' % (r0.returncode, r2.returncode, len(o['passed'])), '' if ok else (r0.stdout + a.stdout + r1.stdout[-1500:] + r2.stdout)[-2500:])
        if not ok: bad += 1; shutil.rmtree(d)
    sh('rm -rf /tmp/seedcopy'); return bad
def check(ids, tier):
    miss = []
    for i in ids or sorted(os.listdir(V + '/seeded')):
        p = json.load(open('%s/seeded/%s/meta.json' % (V, i)))['property']
        c = tempfile.mkdtemp(prefix='seedchk_'); sh('cp -a /repo/. %s/' % c); a = sh('git -C %s apply %s/seeded/%s/patch.diff' % (c, V, i))
        r = sh('python3 %s/check.py %s --repo %s --tier %s' % (V, p, c, tier)); shutil.rmtree(c); shutil.rmtree(c + '.evidence', ignore_errors=True)
        hit = r.returncode == 1 and 'VIOLATION property=%s ' % p in r.stdout
        print(i, p, 'CAUGHT' if hit else 'MISSED rc=%d' % r.returncode, ([l for l in r.stdout.splitlines() if 'counterexample' in l or 'ERROR' in l] or [''])[0][:200], r.stdout.splitlines()[-1][-30:], flush=True)
        if not hit: miss.append(i)
    print('missed:', miss)
if __name__ == '__main__':
    a = [x for x in sys.argv[2:] if x != '-t']
    if sys.argv[1] == 'make': sys.exit(make(a[0], a[1:]))
    check(a, 'thorough' if '-t' in sys.argv else 'quick')
