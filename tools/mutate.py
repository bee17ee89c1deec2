import sys, os, re, random, subprocess, shutil, json, time
# mut.py W N SEED files... : worker id, number of mutants per file
W, N, SEED = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]); FILES = sys.argv[4:]
C = '/tmp/mut%s' % W
M = {'cee-common.c':'C01 C02 C03','musl-tsearch.c':'C06 C04 C05','musl-hsearch.c':'C29 C09','musl-insque.c':'C29','musl-lsearch.c':'C29','block.c':'C30 C01 C02 C03','boxed.c':'C11 C03 C01','str.c':'C12 C30 C13 C01','strview.c':'C15 C13','dict.c':'C09 C02 C01 C03','env.c':'C14 C02 C03','closure.c':'C14 C03','list.c':'C07 C02 C01 C03','map.c':'C04 C02 C01 C03','set.c':'C05 C02 C01 C03','stack.c':'C08 C02 C01 C03','tuple.c':'C10 C02 C03','triple.c':'C10 C02 C03','quadruple.c':'C10 C02 C03','n_tuple.c':'C10 C02 C03','tagged.c':'C10 C02 C03','singleton.c':'C10 C02 C03','state.c':'C03 C01','cee-resize.h':'C01 C02 C12',
'cee-json/tokenizer.c':'C18 C19 C17 C16 C27','cee-json/parser.c':'C16 C17 C20 C27','cee-json/snprint.c':'C26 C21 C22 C20 C27','cee-json/value.c':'C23 C24 C27 C22','cee-json/cee_json_merge.c':'C25 C27','sqlite3/cee-sqlite3.c':'C28','sqlite3/join.c':'C28'}
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
rnd = random.Random(SEED)
REL = [('<=', ['<', '>=']), ('>=', ['>', '<=']), ('==', ['!=']), ('!=', ['==']), ('&&', ['||']), ('||', ['&&']), (' < ', [' <= ', ' > ']), (' > ', [' >= ', ' < ']), ('++', ['--']), ('--', ['++']), (' + 1', ['', ' + 2']), (' - 1', ['', ' - 2']), (' + ', [' - ']), (' - ', [' + ']), ('._[0]', ['._[1]']), ('->_[0]', ['->_[1]']), ('->_[1]', ['->_[0]']), ('0x1F', ['0x3F']), ('true', ['false']), ('false', ['true']), ('return 0', ['return 1']), ('return NULL', []), ('!', ['']), ('size', []), ('used', ['capacity']), ('capacity', ['used']), ('.a', ['.b']), ('key_', ['val_']), ('prev', ['next']), ('retain', ['release'])]
def muts(f):
    L = open('/repo/' + f).read().split('\n'); out = []; com = 0
    for i, l in enumerate(L):
        if com:
            if '*/' in l: com = 0
            continue
        if '/*' in l and '*/' not in l: com = 1
        t = l.strip()
        if not t or t.startswith(('#', '//', '/*', '*', 'static ', 'extern', 'struct', 'typedef')) and '=' not in t: continue
        code = l.split('//')[0]
        for a, bs in REL:
            for m in re.finditer(re.escape(a), code):
                if a in ('!',) and code[m.end():m.end()+1] == '=': continue
                if a in ('++', '--') and 0: continue
                for b in bs: out.append((i, l[:m.start()] + b + l[m.end():]))
        for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.])', code):
            v = int(m.group(1)); out.append((i, l[:m.start()] + str(v + 1) + l[m.end():]))
        if re.match(r'^\s+[\w>*(.\-\[\]]+.*;\s*$', code) and not re.match(r'^\s*(return|struct|int|char|size_t|unsigned|void|double|bool|break|case|default|goto|enum|uint|const|typedef|static)', code): out.append((i, re.sub(r'\S.*', ';', l)))
        if re.match(r'^\s*break;', code): out.append((i, re.sub('break;', ';', l)))
        if re.match(r'^\s*continue;', code): out.append((i, re.sub('continue;', ';', l)))
    return L, out
sh('rm -rf %s && cp -a /repo %s' % (C, C))
for f in ('build', 'test'):
    t = open('/opt/vp/%s.sh' % f).read().replace('/repo', C).replace('/opt/vp/build.sh', '/tmp/mutb_%s.sh' % W)
    open('/tmp/mut%s_%s.sh' % (f[0], W), 'w').write(t)
# /tmp/mutb_W.sh build, /tmp/mutt_W.sh test
log = open('/tmp/mut_%s.log' % W, 'a')
for f in FILES:
    L, ms = muts(f); rnd.shuffle(ms); done = 0
    for i, nl in ms:
        if done >= N: break
        x = L[:]; x[i] = nl; open('%s/%s' % (C, f), 'w').write('\n'.join(x))
        tag = '%s:%d  %s  =>  %s' % (f, i + 1, L[i].strip(), nl.strip())
        if f.startswith('sqlite3'):
            r = sh('gcc -w -fsyntax-only -I. -Icee-json -I_build/src/release -I_build/src/cee-json/release -Isqlite3 ' + f, cwd=C)
            if 'error' in r.stdout and 'No such file' not in r.stdout: continue
        else:
            try: r = sh('bash /tmp/mutt_%s.sh /tmp/mut_%s.json' % (W, W), timeout=60)
            except subprocess.TimeoutExpired: continue
            try: o = json.load(open('/tmp/mut_%s.json' % W))
            except Exception: continue
            os.remove('/tmp/mut_%s.json' % W)
            if len(o['passed']) != 4 or o['failed']: continue
        done += 1; hit = ''; t0 = time.time(); why = ''
        for c in M[f].split():
            try: r = sh('nice -n 5 python3 /verif/check.py %s --repo %s --replay-dir /tmp/mutr_%s' % (c, C, W) if 0 else 'nice -n 5 python3 /verif/check.py %s --repo %s' % (c, C), timeout=1200)
            except subprocess.TimeoutExpired: why += ' %s:timeout' % c; continue
            if r.returncode == 1 and 'VIOLATION property=' in r.stdout: hit = c; break
            if r.returncode != 0: why += ' %s:rc%d(%s)' % (c, r.returncode, ([l for l in r.stdout.splitlines() if 'ERROR' in l] or [''])[0][:120])
        log.write('%s %s%s  %.0fs %s\n' % (hit or 'SURVIVED', tag, why, time.time() - t0, '')); log.flush()
    shutil.copy('/repo/' + f, C + '/' + f)
sh('rm -rf %s' % C); log.write('DONE\n')
