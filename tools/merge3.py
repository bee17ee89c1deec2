#!/usr/bin/env python3
# merge3.py OLD NEW TARGET: apply the line edits OLD->NEW to TARGET, which equals OLD up to blank lines and comment art.
import sys, difflib
old, new, tgt = [open(f).read().split('\n') for f in sys.argv[1:4]]
def nb(L): return [(i, l.rstrip()) for i, l in enumerate(L) if l.strip()]
o, n, t = nb(old), nb(new), nb(tgt)
def ops(a, b): return difflib.SequenceMatcher(None, [x[1] for x in a], [x[1] for x in b], autojunk=False).get_opcodes()
m = {}
for tag, i1, i2, j1, j2 in ops(o, t):
    if tag == 'equal':
        for k in range(i2 - i1): m[i1 + k] = j1 + k
edits = []
for tag, i1, i2, j1, j2 in ops(o, n):
    if tag == 'equal': continue
    # raw new text incl. blank lines between
    txt = new[n[j1][0]:n[j2 - 1][0] + 1] if j2 > j1 else []
    if i2 > i1:
        assert all(k in m for k in range(i1, i2)), 'cannot map %s' % (o[i1:i2],)
        edits.append((t[m[i1]][0], t[m[i2 - 1]][0] + 1, txt))
    else:
        assert i1 - 1 in m; p = t[m[i1 - 1]][0] + 1; edits.append((p, p, txt))
for a, b, txt in reversed(edits): tgt[a:b] = txt
open(sys.argv[3], 'w').write('\n'.join(tgt))
