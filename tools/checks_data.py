# Which jobs decide which property.  A job: harness file, parameters, stated bound, time cap, required or best effort.
CHECKS = {}; NA = {}
def J(name, file, bound, req=True, tier='quick', time=300, reach=(), defs=(), lib=None, steps=5000000, samples=12, stimeout=30000, **params):
    d = dict(name=name, file=file, bound=bound, req=req, tier=tier, time=time, reach=list(reach), defs=list(defs), steps=steps, samples=samples, stimeout=stimeout, params=params)
    if lib: d['lib'] = lib
    return d
def C(id, note, *jobs, lib='cee', assume=()):
    CHECKS[id] = dict(note=note, jobs=list(jobs), lib=lib, assume=list(assume))
C('C07', 'Bounded: every sequence of list operations up to the stated length with arbitrary element values, capacities and positions; solver-decided on the compiled code. Longer sequences are outside the claim.',
  J('ops3', 'list.c', '3 operations, initial capacity 0..3', n=3, cap=3, reach=('insert','remove','merge','merge into itself','stopped','empty','grown')),
  J('grow', 'list.c', '34 insertions at the end, front, middle or alternating, initial capacity 0..10, arbitrary elements; then all removed', grow=1, n=34, cap=10, reach=('filled',)),
  J('ops4', 'list.c', '4 operations, initial capacity 0..2', req=False, time=60, n=4, cap=2),
  J('ops5', 'list.c', '5 operations, initial capacity 0..1', req=False, tier='thorough', time=1800, n=5, cap=1))
C('C08', 'Bounded: every push/pop/top sequence up to the stated length and capacity with arbitrary elements and arbitrary nth; solver-decided on the compiled code.',
  J('ops5', 'stack.c', '5 operations, capacity 0..3, nth any 64-bit value', n=5, cap=3, reach=('full','pop','popempty','top')),
  J('full', 'stack.c', 'capacity 0..40, filled by 42 pushes with up to 3 pops at any one point', full=1, n=42, cap=40, reach=('full',)),
  J('ops8', 'stack.c', '8 operations, capacity 0..5', req=False, time=30, n=8, cap=5),
  J('ops11', 'stack.c', '11 operations, capacity 0..8', req=False, tier='thorough', time=1800, n=11, cap=8))
C('C06', 'Bounded: every insertion order (all orders of arbitrary distinct keys) and every deletion choice up to the stated numbers, plus monotone and zig-zag insertion of more keys followed by arbitrary removals; larger trees are outside the claim.',
  J('set5', 'bal.c', 'set, any order of 5 keys, any 2 removals', n=5, rem=2, reach=('removed','end')),
  J('map5', 'bal.c', 'map, any order of 5 keys, any removal', n=5, rem=1, map=1, reach=('removed','end')),
  J('asc100', 'bal.c', 'set, 100 rising keys, any removal', n=100, rem=1, asc=1), J('desc100', 'bal.c', 'set, 100 falling keys, any removal', n=100, rem=1, asc=2), J('zig100', 'bal.c', 'set, 100 keys alternately from both ends, any removal', n=100, rem=1, asc=3),
  J('drain', 'bal.c', 'set, 100 keys in rising order, removed in six orders down to 0..3', n=100, rem=0, asc=1, drain=1, reach=('drained',)), J('drain3', 'bal.c', 'set, 120 keys from both ends, removed in six orders', n=120, rem=0, asc=3, drain=1), J('mapdrain', 'bal.c', 'map, 50 falling keys, removed in six orders', n=50, rem=0, asc=2, drain=1, map=1),
  J('mapasc60', 'bal.c', 'map, 60 rising keys, any removal', n=60, rem=1, asc=1, map=1),
  J('asc12r3', 'bal.c', 'set, 12 rising keys, any 3 removals', n=12, rem=3, asc=1), J('zig9r4', 'bal.c', 'set, 9 zig-zag keys, any 4 removals', n=9, rem=4, asc=3), 
  J('set6', 'bal.c', 'set, any order of 6 keys, any removal', n=6, rem=1, req=False, tier='thorough', time=1800), 
  J('asc12r5', 'bal.c', 'set, 12 rising keys, any 5 removals', n=12, rem=5, asc=1, req=False, tier='thorough', time=1800))
C('C05', 'Bounded: every sequence of set operations up to the stated length over arbitrary byte keys (every equality and order pattern); solver-decided on the compiled code.',
  J('ops3', 'set.c', '3 operations of add/remove/re-add/clear, then clone, union, lookups', n=3, each=1, reach=('dup','remove','again','clear','union')),
  J('ops5', 'set.c', '5 operations of add/remove/re-add/clear, lookups at the end', n=5, other=0, reach=('dup','remove','again','clear')),
  J('big', 'set.c', '16..40 fixed elements in three orders, up to two thirds removed, then 1 operation with keys out of 16', pre=1, n=1, other=0, each=1, reach=('pre','remove')), J('bigcopy', 'set.c', '16..40 fixed elements, some removed, then clone, union', pre=1, n=0, reach=('pre','union')),
  J('addrm7', 'set.c', '7 operations of add/remove', n=7, other=0, ops=2, req=False, time=40, tier='thorough'))
C('C04', 'Bounded: every sequence of map operations up to the stated length over arbitrary byte keys and values (every equality and order pattern); solver-decided on the compiled code.',
  J('ops2', 'map.c', '2 operations of add/remove/rename/add-with-merge, then enumeration, clone, merge', n=2, each=1, reach=('replace','remove','merge1','other','merged by function')),
  J('ops3', 'map.c', '3 operations of add/remove/rename/add-with-merge, lookups at the end', n=3, other=0, reach=('replace','remove','rename','merge1')),
  J('big', 'map.c', '15..33 fixed keys in three orders, up to two thirds removed, then 1 operation with keys out of 16', pre=1, n=1, other=0, each=1, reach=('pre','replace','remove','rename')), J('bigcopy', 'map.c', '15..33 fixed keys, some removed, then enumeration, clone, merge', pre=1, n=0, reach=('pre','other')),
  J('ops4', 'map.c', '4 operations', n=4, other=0, req=False, time=40),
  J('addrm6', 'map.c', '6 operations of add/remove', n=6, other=0, ops=2, req=False, time=1200, tier='thorough'))
C('C02', 'Bounded: every choice of container kinds, policies, contents and subsequent deletions, removals and insertions within the stated numbers.',
  J('one', 'share.c', '1 container of every kind and policy, up to 2 of 2 elements, 3 operations', fill=2, ops=3, ncont=1, reach=('del','take','put','clear','replace')),
  J('mixed', 'share.c', '1 container with a different policy per slot, 2 operations', fill=2, ops=2, ncont=1, nleaf=3, mixed=1),
  J('two', 'share.c', '2 containers sharing or nesting, up to 2 elements each, 1 operation', fill=2, ops=1, ncont=2),
  J('two2', 'share.c', '2 containers sharing or nesting, 1 element each, 2 operations', fill=1, ops=2, ncont=2, nleaf=1, reach=('nested','env')),
  J('copy', 'share.c', '1 container of every kind and policy, up to 2 of 2 elements, copied (cloned, merged into a new container of any policy, united with itself), 1 further operation', fill=2, ops=2, ncont=1, first=1, reach=('copy','merge','list merge','merge into itself')),
  J('copy2', 'share.c', '2 lists or sets with up to 2 elements each, one merged into or united with the other, 1 further operation', fill=2, ops=2, ncont=2, first=1, flat=1, kinds=5, reach=('union','list merge')),
  J('wide', 'wide.c', 'an object held 1, 255..257 or 65534..65537 times by a list and once or twice by another container', steps=60000000, reach=('list last','other last')),
  J('chain', 'chain.c', 'chains of 1, 2, 7, 33 or 60 containers of every kind or mixed, each policy, the head deleted, some level held by a list besides', what=1, reach=('gone','held','noop')),
  J('many', 'many.c', 'containers of every kind with 1..64 elements (n-tuples of 1..16) under every policy, one of them held besides', what=1, reach=('gone','held','noop')), J('envpol', 'many.c', 'an environment whose outer environment and variables are under any two policies', what=2, reach=('environment',)),
  J('gcclaim', 'gcclaim.c', '2 lists sharing an element, 0 to 2 collections'),
  J('one4', 'share.c', '1 container, 4 operations', fill=2, ops=4, ncont=1, req=False, time=600, tier='thorough'), J('two3', 'share.c', '2 containers, 3 operations', fill=1, ops=3, ncont=2, req=False, time=900, tier='thorough'),
  J('three', 'share.c', '3 containers sharing or nesting, 1 operation', fill=1, ops=1, ncont=3, req=False, time=900, tier='thorough'))
C('C01', 'Bounded: every sequence of object operations up to the stated length from every starting object, all kinds and policies; after each step the chain of the state is walked, after the last the state is deleted and the heap must be empty. (The same final check ends the harness of every other property.)',
  J('ops2', 'own.c', '2 operations', ops=2, reach=('realloced','malloced','product','del','put','take')),
  J('ops3', 'own.c', '3 operations, fewer policies and string lengths', ops=3, last=1, fewpol=1, nlen=1, minop=1, reach=('enumerated',)),
  J('ops3full', 'own.c', '3 operations', ops=3, tier='thorough', time=900),
  J('ops4', 'own.c', '4 operations', ops=4, req=False, tier='thorough', time=1500))
C('C03', 'Bounded: every object graph of the stated size over all container kinds (loops included under the no-op policy), every choice of anchors (root, context, stack) and every sequence of collections and mutations up to the stated length, against reachability in a model.',
  J('g2', 'gc.c', '1 block and 2 objects, 1 edge, 1 anchor, 2 mutations, 3 collections', nobj=2, nedge=1, ops=2, nroot=1, pol=2, reach=('loop','released','cut','grown')),
  J('g2r', 'gc.c', 'as g2, reference-counting policy, 1 mutation', nobj=2, nedge=1, ops=1, nroot=1, pol=0),
  J('g2e', 'gc.c', '1 block and 2 objects, 2 edges, 1 anchor, 1 collection', nobj=2, nedge=2, ops=0, nroot=1),
  J('g3', 'gc.c', '1 block and 3 objects, 1 edge, 1 anchor, 1 collection', nobj=3, nedge=1, ops=0, nroot=1),
  J('env', 'gc.c', '1 block, a map, an environment and 1 object, 1 edge, 1 anchor, 2 collections', nobj=1, nedge=1, ops=1, nroot=1, startmap=2, reach=('env',)),
  J('clo', 'gc.c', '1 block, a map, an environment and 2 objects, 1 anchor, 1 collection', nobj=2, nedge=0, ops=0, nroot=1, startmap=2, reach=('closure',)),
  J('chain', 'chain.c', 'chains of 1, 2, 7, 33 or 60 containers of every kind or mixed, 1 or 28 anchors, 1 to 5 collections, then cut at the head, in the middle, at the end or released, 3 more collections', reach=('kept','cut','released')), J('envs', 'chain.c', 'a closure over 1 to 60 nested environments', envs=1, reach=('kept','released')),
  J('many', 'many.c', 'containers of every kind with 1..64 elements (n-tuples of 1..16) that nothing else reaches, anchored, then released', what=0, reach=('kept','released')),
  J('g2x', 'gc.c', '1 block and 2 objects, 2 edges, 2 anchors, 3 collections', nobj=2, nedge=2, ops=2, nroot=2, req=False, tier='thorough', time=1500))
C('C09', 'Bounded: arbitrary key bytes for the stated number of keys (every equality and collision pattern), after a prefix of fixed keys that drives the table through its growths.',
  J('sym2', 'dict.c', '2 arbitrary 1-byte keys and an arbitrary query, initial size 0..11', nsym=2, reach=('absent','found','dup')),
  J('sym3', 'dict.c', '3 arbitrary keys of 1 byte out of 24 and a query, initial size 4', nsym=3, size=4, narrow=24),
  J('len2', 'dict.c', '2 keys and a query of 2 bytes, the first out of 2, the second out of 16', nsym=2, len=2, narrow=2, mid=16, size=0),
  J('grow5', 'dict.c', '5 fixed keys, then 2 arbitrary out of 16 (first growth)', pre=5, nsym=2, size=0, narrow=16), J('grow11', 'dict.c', '11 fixed keys, then 1 arbitrary (second growth)', pre=11, nsym=1, size=0), J('growall', 'dict.c', '40, 70, ... 580 fixed keys, then 1 arbitrary out of 4', pre=40, prestep=30, pres=19, nsym=1, size=0, narrow=4, steps=50000000), J('grow40', 'dict.c', '40 fixed keys, then 1 arbitrary out of 32', pre=40, nsym=1, size=0, narrow=32),
  J('coll', 'dict.c', '12 colliding fixed 3-byte keys, then 1 of 3 bytes, one of them arbitrary', pre=12, nsym=1, len=3, cls=1, size=2, narrow=1, mid=24),
  J('sym3x', 'dict.c', '3 arbitrary 1-byte keys and an arbitrary query', nsym=3, size=4, req=False, tier='thorough', time=600), J('grow11x', 'dict.c', '11 fixed keys, then 2 arbitrary', pre=11, nsym=2, size=0, req=False, tier='thorough', time=900), J('len2x', 'dict.c', '2 arbitrary 2-byte keys and a query', nsym=2, len=2, size=0, req=False, tier='thorough', time=1800))
C('C29', 'Bounded: arbitrary key bytes for the stated number of entries, after a prefix of fixed keys that drives the table through its growths; every sequence of queue operations up to the stated length.',
  J('sym2', 'hsearch.c', '2 arbitrary 1-byte keys', nsym=2, reach=('hit','miss','dup')), J('sym3', 'hsearch.c', '3 keys of 1 byte out of 12', nsym=3, narrow=12), J('len2', 'hsearch.c', '2 keys of 2 bytes, the first out of 2', nsym=2, len=2, narrow=2), J('grow6', 'hsearch.c', '6 fixed keys, 2 arbitrary out of 16', pre=6, nsym=2, narrow=16), J('grow24', 'hsearch.c', '24 fixed keys, 1 arbitrary', pre=24, nsym=1), J('growall', 'hsearch.c', '30, 57, ... 570 fixed keys, 1 arbitrary out of 4', pre=30, prestep=27, pres=21, nsym=1, narrow=4, steps=50000000), J('glob', 'hsearch.c', 'the global table, 6 fixed keys, 1 arbitrary', pre=6, nsym=1, glob=1), J('nel', 'hsearch.c', 'table made for 20 entries, 17 fixed keys, 1 arbitrary', pre=17, nsym=1, nel=20),
  J('lsearch', 'lsq.c', '5 arbitrary records of 1 to 40 bytes', n=5, reach=('hit','append')), J('scarce', 'hsearch.c', 'any one allocation of the table fails; 6 or 13 fixed keys, 1 arbitrary out of 16', pre=6, prestep=7, pres=2, nsym=1, narrow=16, defs=('OOM',), lib='none', reach=('not created','not grown')), J('queue', 'lsq.c', '5 operations', n=5, queue=1, reach=('insert','remove')),
  J('lsearch6', 'lsq.c', '8 arbitrary records of 4 bytes', n=8, width=4, tier='thorough', req=False), J('queue6', 'lsq.c', '6 operations', n=6, queue=1, tier='thorough', req=False))
C('C11', 'Boxing, unboxing and comparing: every pair of values of each of the ten types, no bound. Printing: every integer value of every type and several buffer sizes; floating-point printing for a family of 19 values only, since the C library formats them.',
  J('order', 'boxed.c', 'every pair of values of every type', reach=('o_u64','o_i8','o_f64','o_f32')), J('print', 'boxed.c', 'every integer value; 19 floating-point values', print=1, reach=('text','fp')))
C('C10', 'Bounded: every kind of product (n-tuples of 1 to 16 values), every policy per slot and every 64-bit tag or raw value, one later policy change; the change from the deleting to the counting policy is excluded (the value stays marked as owned).',
  J('products', 'prod.c', 'one product of any kind, every policy per slot, values claimed elsewhere or not', reach=('died','lived','changed','same')), J('single', 'prod.c', 'two singletons with any tags and values', single=1, reach=('single',)))
C('C12', 'Bounded: every length within the stated ranges on both sides of every block boundary, a few arbitrary bytes per text, every operation sequence of the stated length in both resize modes; trimming over arbitrary bytes up to the stated length.',
  J('len', 'str.c', 'strings of 0..200 characters, 1 operation (texts of 0..3)', ops=1, lo=0, hi=200, chi=3, adds=3, reach=('add','cat','replace','adds','moved')),
  J('cat', 'str.c', 'string of 5 characters, 1 operation with a text of 0..300', ops=1, fixlen=5, chi=300, reach=('moved',)), J('cat0', 'str.c', 'string of 56 characters, 2 operations with texts of 0..40', ops=2, fixlen=56, chi=40, adds=12),
  J('ops3', 'str.c', 'string of 50 characters, 3 operations with texts of 62..65', ops=3, fixlen=50, clo=62, chi=65, adds=2),
  J('fill', 'str.c', '300 characters appended one by one', what=1, reach=('filled',)), J('huge', 'str.c', 'strings of 300 to 70000 characters, thirteen lengths, 1 operation with a text of 0..2', ops=1, huge=1, clo=0, chi=2, adds=3, defs=('MS=141000', 'TS=71000'), steps=100000000), J('hugecat', 'str.c', 'string of 5 characters, 1 operation with a text of thirteen lengths from 300 to 70000', ops=1, fixlen=5, huge=2, adds=2, defs=('MS=141000', 'TS=71000'), steps=100000000), J('trim', 'str.c', 'any string of up to 5 characters', what=2, n=5, reach=('left','right','all')),
  J('ops4', 'str.c', '4 operations with texts of 60..66', ops=4, fixlen=50, clo=60, chi=66, adds=4, req=False, tier='thorough', time=1200), J('trim9', 'str.c', 'any string of up to 9 characters', what=2, n=9, tier='thorough', req=False))
C('C13', 'Bounded: every text, pattern and replacement of arbitrary bytes up to the stated lengths.',
  J('all', 'subst.c', 'text 0..7, pattern 0..3, replacement 0..4', t=7, o=3, r=4, reach=('hit','empty pattern')), J('ext', 'subst.c', 'text 0..4 (any bytes), 1 or 2 pairs, pattern 0..2, replacement 0..3', what=1, t=4, o=2, r=3, reach=('hit','hit2')),
  J('at', 'subst.c', 'text 0..6, every offset and length inside it, replacement 0..4', what=2, t=6, r=4, reach=('at',)), J('many', 'subst.c', '13 to 20 pairs, an arbitrary byte in the text', what=3, reach=('many',)), J('long', 'subst.c', 'texts of 1, 10, ... 82 occurrences of five patterns, apart or adjacent, five replacements, an arbitrary byte at one place', what=4, reach=('long',)),
  J('all6', 'subst.c', 'text 0..10, pattern 0..4, replacement 0..4', t=10, o=4, r=4, tier='thorough', req=False, time=900), J('ext5', 'subst.c', 'text 0..6, pattern 0..3, replacement 0..3', what=1, t=6, o=3, r=3, tier='thorough', req=False, time=1200), lib='cee')
C('C14', 'Bounded: every nesting up to the stated depth with up to the stated number of one-character names per level, every query; 0 to 7 arbitrary arguments.',
  J('lookup', 'env.c', 'depth 1..3, 0..2 bindings or none per level', depth=3, bind=2, reach=('found','outer','shadowed','none')), J('closure', 'env.c', '0..7 arguments, any values', clo=1, reach=('called',)), J('wide', 'env.c', '0..20 arguments, any values', clo=2, reach=('wide',)), J('deep', 'env.c', '1, 4, ... 40 levels of 1, 16 or 31 fixed names, some levels empty', deep=1, reach=('found', 'none')), J('lookup4', 'env.c', 'depth 1..5, 0..2 bindings', depth=5, bind=2, tier='thorough', req=False, time=1200))
C('C15', 'Bounded: every view of arbitrary bytes up to the stated length, every argument (counts over all 64-bit values).',
  J('views', 'sv.c', 'views of 0..4 bytes', max=4, reach=('delim','longer','at the end','trim','case','number','cstr')), J('long', 'sv.c', 'views of 5, 10, ... 65 bytes of four kinds, an arbitrary byte at either end or in the middle, arguments cut from them with an arbitrary byte', long=1, reach=('delim','longer','trim','case','number','cstr')), J('views7', 'sv.c', 'views of 0..7 bytes', max=7, tier='thorough', req=False, time=1200), lib='none')
C('C30', 'Bounded: every block size up to the stated bound; strings of every capacity up to the stated bound with the terminator anywhere or nowhere.',
  J('blocks', 'block.c', 'n = 0..303', reach=('block',)), J('huge', 'block.c', 'n one of ten sizes from 1000 to 100000', huge=1, max=0, reach=('block',), steps=50000000), J('big', 'block.c', 'n = 0..319 plus 0, 65536 or 131072', max=319, time=600, tier='thorough', req=False, steps=50000000), J('ends', 'block.c', 'capacity 0..40', ends=1, reach=('none','end')))

C('C16', 'Bounded: every text, NUL bytes included, up to the stated length, or of arbitrary bytes inside a fixed frame, and longer texts over restricted alphabets; both end-of-input modes; against an independent reference reader.',
  J('any5', 'json.c', 'any bytes, 0..5', n=5, reach=('accepted','rejected','array','string','i64')),
  J('u', 'json.c', '0..4 any bytes after \\u in a literal', n=4, frame=5, reach=('string',)),
  J('any6', 'json.c', 'any bytes, 0..6', n=6, tier='thorough', time=900),
  J('tok', 'json.c', '0..9 bytes of {}[],:"a1', n=9, alpha=0, reach=('object',)), J('tok11', 'json.c', '0..11 bytes of {}[],:"a1', n=11, alpha=0, tier='thorough', time=900, req=False),
  J('arr', 'json.c', '0..7 bytes of brackets, comma, white space and a digit', n=7, alpha=1, reach=('line',)), J('arr9', 'json.c', '0..9 bytes of brackets, comma, white space and a digit', n=9, alpha=1, tier='thorough', time=900, req=False),
  J('obj', 'json.c', '0..11 bytes of {}:,"ab1', n=11, alpha=2, reach=('object',)), J('obj15', 'json.c', '0..15 bytes of {}:,"ab1', n=15, alpha=2, tier='thorough', time=900, req=False),
  J('words', 'json.c', '0..8 bytes of the letters of the words', n=8, alpha=4),
  J('inarr', 'json.c', '0..4 any bytes in [1,{"a":2}, ... ]', n=4, frame=4), J('inobj', 'json.c', '0..4 any bytes in {"k": ... }', n=4, frame=2),
  J('second', 'json.c', '0..5 any bytes after {"a":1,', n=5, frame=11), J('ws', 'json.c', '0..3 any bytes between two tokens at eight places', n=3, frame=22, frame2=7, reach=('accepted','rejected','line')), J('comment', 'json.c', '0..4 any bytes after [1]//', n=4, frame=30, reach=('accepted','rejected')),
  J('long0', 'jlong.c', 'arrays of 1..45 elements, arbitrary bytes at the first, middle or last', shape=0, hi=45, wrap=0, defs=('RN=400','RS=180'), reach=('accepted','rejected')), J('long1', 'jlong.c', 'objects of 1..40 members, an arbitrary byte in a key or value at the first, middle or last', shape=1, hi=40, step=3, wrap=0, defs=('RN=400','RS=180'), reach=('accepted','rejected')), J('lines', 'jlong.c', '0..300 line ends before an arbitrary byte', shape=4, lo=0, hi=300, step=4, defs=('RN=400','RS=180'), reach=('rejected',)),
  J('inarr5', 'json.c', '0..5 any bytes in [1,{"a":2}, ... ]', n=5, frame=4, tier='thorough', time=900, req=False), J('inobj5', 'json.c', '0..5 any bytes in {"k": ... }', n=5, frame=2, tier='thorough', time=900, req=False), lib='json')
C('C17', 'Bounded: every text of arbitrary bytes, NUL included, up to the stated length, alone or inside a fixed frame, both end-of-input modes; every memory access of the parser decided, the text held in a block of exactly its length, a step limit for termination, every allocation back afterwards.',
  J('any5', 'json.c', 'any bytes, 0..5', n=5, nul=1, safe=1, reach=('accepted','rejected')), J('ws', 'json.c', '0..3 any bytes between two tokens at eight places', n=3, frame=22, frame2=7, nul=1, safe=1, reach=('accepted','rejected')), J('any6', 'json.c', 'any bytes, 0..6', n=6, nul=1, safe=1, tier='thorough', time=900),
  J('arr', 'json.c', '0..5 any bytes in [1,{"a":2}, ... ]', n=5, frame=4, nul=1, safe=1, eof=1), J('obj', 'json.c', '0..4 any bytes after {"a":1,', n=4, frame=11, nul=1, safe=1),
  J('esc', 'json.c', '0..5 any bytes after an escape in a literal', n=5, frame=15, nul=1, safe=1), J('sur', 'json.c', '0..3 any bytes after a first surrogate', n=3, frame=6, nul=1, safe=1), J('open', 'json.c', '0..4 any bytes after an unfinished literal', n=4, frame=12, nul=1, safe=1),
  J('num', 'json.c', '0..4 any bytes after 92233720368547758', n=4, frame=8, nul=1, safe=1, strtod_uf=1), lib='json')
C('C18', 'Bounded: every literal of up to the stated number of bytes, alone or after a fixed beginning; against an independent reference decoder.',
  J('lit', 'json.c', '0..6 any bytes between quotes', n=6, frame=3, reach=('string',)), J('u', 'json.c', '0..4 any bytes after \\u', n=4, frame=5, reach=('string',)), J('pair', 'json.c', '9 or 10 bytes of "\\ud89DdC0f after \\ud8', n=10, min=9, frame=6, alpha=8, reach=('string',)),
  J('utf', 'json.c', '0..4 any bytes after an escape', n=4, frame=15, reach=('string',)), J('key', 'json.c', '0..5 any bytes between the quotes of a key', n=5, frame=19, reach=('accepted',)), J('elem', 'json.c', '0..5 any bytes between the quotes of an element or of a member', n=5, frame=20, frame2=1), J('long', 'jlong.c', 'literals of 1..140 characters with arbitrary bytes, escapes or surrogate pairs at the first, middle or last', shape=2, hi=140, step=1, defs=('RN=400','RS=180'), reach=('accepted','rejected')), J('longkey', 'jlong.c', 'keys of 1..140 characters, likewise', shape=2, hi=140, step=11, key=1, wrap=0, defs=('RN=400','RS=180')),
  J('utf2', 'json.c', '0..3 any bytes after byte C3', n=3, frame=13), J('lit7', 'json.c', '0..8 any bytes between quotes', n=8, frame=3, tier='thorough', time=900, req=False), J('pair10', 'json.c', '8..10 bytes of hexadecimal digits, quote, backslash, u after \\ud8', n=10, min=8, frame=6, alpha=7, tier='thorough', time=900, req=False), lib='json')
C('C19', 'Bounded: every number literal up to the stated length and long literals around the limits of the integer types; the conversion of a literal with fraction or exponent is the C library strtod, taken as an uninterpreted function of the text in the longer cases; conversions over every value of every kind.',
  J('lit', 'json.c', '0..6 bytes of digits . e E + -', n=6, alpha=6, strtod_uf=1, reach=('i64','double')), J('value', 'json.c', '0..3 bytes of digits . e E + -, values concrete', n=3, alpha=6, reach=('double',)),
  J('big', 'json.c', '92233720368547758 and 0..4 digits', n=4, alpha=5, frame=8, strtod_uf=1, reach=('u64','double')), J('ubig', 'json.c', '184467440737095516 and 0..3 digits', n=3, frame=9, alpha=5, strtod_uf=1, reach=('u64',)), J('omem', 'json.c', '{"k":184467440737095516 and 0..3 digits', n=3, frame=16, alpha=5, strtod_uf=1), J('oarr', 'json.c', '[922337203685477580 and 0..2 digits', n=2, frame=17, alpha=5, strtod_uf=1), J('onegm', 'json.c', '{"k":-922337203685477580 and 0..2 digits', n=2, frame=18, alpha=5, strtod_uf=1), J('digits', 'jlong.c', 'numbers of 1..100 fixed digits, six forms, alone, in an array, in an object', shape=3, hi=100, defs=('RN=400','RS=180'), reach=('accepted',)),
  J('neg', 'json.c', '-92233720368547758 and 0..4 digits', n=4, frame=10, alpha=5, strtod_uf=1), J('mid', 'json.c', '9007199254740 and 0..5 digits', n=5, frame=14, alpha=5, strtod_uf=1),
  J('acc', 'val.c', 'every conversion of every value of every kind', what=2, reach=('int','int refused')),
  J('lit8', 'json.c', '0..8 bytes of digits . e E + -', n=8, alpha=6, strtod_uf=1, tier='thorough', time=900, req=False), lib='json')
C('C21', 'Bounded: every document of the stated kinds and number of values with strings and keys of arbitrary bytes up to the stated length, both formats, every buffer size from none to one more than needed; printed text read back with an independent reference reader. Doubles from a family of 22 (the C library formats them), integers within the stated ranges.',
  J('scal', 'print.c', 'one value: null, true, false, double, string or counted string of 0..3 bytes, blob, undefined, empty array or object', n=1, kinds=0xE7F&~0x18, sl=3, reach=('text','short')), J('int', 'print.c', 'every 8-bit integer, signed or not', n=1, kinds=0x18, wide=0), J('int3', 'print.c', '250 integers at each of 14 places where the number of digits, the sign or the type changes', n=1, kinds=0x18, wide=3, fmt_low=1),
  J('nest', 'print.c', '4 values: null, arrays, objects (empty keys)', n=4, kinds=0x181, sl=0), J('keys', 'print.c', '3 values: null, arrays, objects with keys of 0..1 bytes', n=3, kinds=0x181, sl=1), J('mix', 'print.c', '2 values of any kind but integers', n=2, kinds=0xFE7&~0x20, sl=1, depth=2),
  J('long0', 'jlong.c', 'arrays of 1, 12, ... 45 elements', shape=0, hi=45, step=11, wrap=0, size=1, defs=('RN=400','RS=180'), reach=('sizes',)), J('long1', 'jlong.c', 'objects of 1, 21 and 41 members', shape=1, hi=41, step=20, wrap=0, size=1, defs=('RN=400','RS=180'), reach=('sizes',)), J('long2', 'jlong.c', 'texts of 1, 21, ... 161 characters', shape=2, hi=161, step=20, wrap=0, size=1, defs=('RN=400','RS=180'), reach=('sizes',)),
  J('keys4', 'print.c', '4 values: null, arrays, objects with keys of 0..1 bytes', n=4, kinds=0x181, sl=1, tier='thorough', time=900, req=False), J('mix3', 'print.c', '3 values: arrays, objects, strings', n=3, kinds=0x1C0, sl=1, depth=2, tier='thorough', time=900), J('str5', 'print.c', 'a string of 0..5 bytes', n=1, kinds=0x240, sl=5, tier='thorough', time=900, req=False), lib='json')
C('C22', 'Bounded: every document of the stated kinds and number of values with strings and keys of valid UTF-8 up to the stated length, both formats. Doubles from a family of 22 (formatted and read by the C library), integers within the stated ranges.',
  J('scal', 'print.c', 'one value: null, true, false, double, string of 0..4 bytes', n=1, kinds=0x67, sl=4, what=1, reach=('back',)), J('int', 'print.c', 'every 16-bit integer, signed or not', n=1, kinds=0x18, wide=2, what=1), J('int3', 'print.c', '250 integers at each of 14 places where the number of digits, the sign or the type changes', n=1, kinds=0x18, wide=3, what=1, fmt_low=1),
  J('nest', 'print.c', '5 values: null, arrays, objects (empty keys)', n=5, kinds=0x181, sl=0, what=1), J('keys', 'print.c', '3 values: 8-bit integers, arrays, objects with keys of 0..1 bytes', n=3, kinds=0x188, sl=1, what=1), J('mix', 'print.c', '3 values: booleans, strings, arrays, objects', n=3, kinds=0x1C2, sl=1, depth=2, what=1),
  J('long0', 'jlong.c', 'arrays of 1, 5, ... 45 elements', shape=0, hi=45, step=4, wrap=0, back=1, defs=('RN=400','RS=180'), reach=('back',)), J('long1', 'jlong.c', 'objects of 1, 6, ... 41 members', shape=1, hi=41, step=5, wrap=0, back=1, defs=('RN=400','RS=180'), reach=('back',)), J('long2', 'jlong.c', 'texts of 1..140 characters', shape=2, hi=140, step=3, back=1, defs=('RN=400','RS=180'), reach=('back',)), J('digits', 'jlong.c', 'numbers of 1..40 digits', shape=3, hi=40, wrap=0, back=1, defs=('RN=400','RS=180'), reach=('back',)),
  J('longkey', 'jlong.c', 'a key of 254, 258, 262 or 266 characters with arbitrary bytes or an escape in it', shape=2, key=1, lo=254, hi=266, step=4, wrap=0, back=1, defs=('RN=20','RS=300'), reach=('back',)),
  J('keys4', 'print.c', '4 values: integers, arrays, objects with keys of 0..1 bytes', n=4, kinds=0x188, sl=1, what=1, tier='thorough', time=1200), J('str6', 'print.c', 'a string of 0..6 bytes', n=1, kinds=0x40, sl=6, what=1, tier='thorough', time=900, req=False), J('i64', 'print.c', 'every 64-bit integer', n=1, kinds=0x18, wide=1, what=1, tier='thorough', time=1200, req=False), lib='json')

C('C23', 'Bounded: every sequence of operations up to the stated length with keys of 0 or 1 arbitrary bytes (every equality pattern) and every kind of value, numbers over all 64-bit values; every index over all of int; results compared with a reference tree.',
  J('obj2', 'val.c', '2 object operations of ten, any value kind', what=0, n=2, each=1, reach=('append new','append to one','append list','removed','renamed')), J('obj3', 'val.c', '3 operations of set, append, remove, rename; integers and arrays of 0..1', what=0, n=3, kinds=0x90, opmask=0xF, an=1), J('kv', 'val.c', 'object_kv and 1 operation', what=0, n=1, kv=1, kinds=0x190), J('err', 'val.c', '1 operation, then set_error twice', what=0, n=1, err=1, kinds=0x8),
  J('arr3', 'val.c', '3 array operations', what=1, n=3, kinds=0x188, opmask=0x27, reach=('inserted','removed','concat','concat itself')), J('arr2', 'val.c', '2 array operations of six, any value kind', what=1, n=2, each=1, opmask=0x3F), J('objpre', 'val.c', 'an object of 14, 19, 24 or 29 keys in three orders, 1 object operation of four on six keys, old or new', what=0, n=1, pre=1, kinds=0x90, an=1, opmask=0xF, defs=('RN=400',), reach=('append new','append to one','removed','renamed')), J('arrpre', 'val.c', 'an array of 9, 21 or 33 elements, 1 array operation', what=1, n=1, pre=1, kinds=0x8, opmask=0x27, defs=('RN=400',), reach=('inserted','removed','concat')), J('acc', 'val.c', 'every accessor and conversion on every kind', what=2, reach=('scalar','other')), J('has', 'val.c', 'search in any tree of 4 nodes', what=3, n=4, reach=('found','absent')), J('conv', 'val.c', 'text of 0..4 arbitrary bytes to integer', what=4, n=4, reach=('converted','refused')), J('conv1', 'val.c', 'texts around the largest integer', what=4, n=3, alpha=1), J('conv2', 'val.c', 'texts around the smallest integer', what=4, n=3, alpha=2),
  J('obj3full', 'val.c', '3 object operations, integers, arrays, objects', what=0, n=3, kinds=0x198, tier='thorough', time=1500, req=False), J('arr4', 'val.c', '4 array operations', what=1, n=4, kinds=0x8, opmask=0x27, tier='thorough', time=900, req=False), J('has5', 'val.c', 'search in any tree of 5 nodes', what=3, n=5, tier='thorough', time=900, req=False), lib='json')

C('C24', 'Bounded: every selector text of arbitrary bytes up to the stated length (alone or after several beginnings) over one fixed document with every kind of value, every sequence of up to 3 well-formed steps with every kind of argument, tokens of 250 to 261 characters.',
  J('any', 'select.c', 'any bytes, 0..5', n=5, reach=('reached','null')), J('anyb', 'select.c', '0..3 any bytes after .a', n=3, frame=1), J('anyi', 'select.c', '0..4 any bytes after .a.b[', n=4, frame=2, reach=('reached',)), J('any3', 'select.c', '0..3 any bytes after .b[1', n=3, frame=3), J('alpha', 'select.c', '0..7 bytes of .[]:a0s1b', n=7, alpha=1, reach=('reached',)), J('alpha4', 'select.c', '0..7 bytes of .[]:a0s1b after .b[1]', n=7, alpha=1, frame=4),
  J('steps', 'select.c', '1 to 3 steps', n=3, what=1, reach=('star key','star index','reached','null')), J('long', 'select.c', 'keys of 250..261 characters, literal or by argument', what=2, reach=('long',)),
  J('any8', 'select.c', 'any bytes, 0..8', n=8, tier='thorough', time=900, req=False), J('steps4', 'select.c', '1 to 4 steps', n=4, what=1, tier='thorough', time=900, req=False), lib='json')

C('C26', 'Bounded: every byte string up to the stated length, every destination size from none to more than enough; against the escape of each byte as RFC 8259 defines it, and read back with an independent decoder.',
  J('any', 'esc.c', '0..3 bytes, destinations of 0..19 bytes', n=3, reach=('back','second','short')), J('long', 'esc.c', '1, 21, ... 141 bytes of three kinds of text, one byte arbitrary, destinations of seven sizes', long=8, defs=('RS=200',), reach=('back','second','short')), J('any4', 'esc.c', '0..4 bytes', n=4, tier='thorough', time=900), lib='json')
C('C25', 'Bounded: every pair of documents (or three in a row) of the stated number of values, with keys of one arbitrary byte (every equality pattern) and arbitrary integers and strings; against a reference merge. What later merges do to parts shared with an earlier source is outside.',
  J('obj', 'merge.c', 'objects of 3 values each: integers, strings, arrays, objects', na=3, nb=3, reach=('added','recursed','replaced')), J('deep', 'merge.c', 'objects of one key per level, 4 levels', na=5, nb=5, depth=4, kinds=0x44, maxn=1, reach=('recursed',)), J('four', 'merge.c', 'objects of 4 and 3 values: integers, objects', na=4, nb=3, kinds=0x44, time=900, tier='thorough'), J('arr', 'merge.c', 'arrays of 3 values', na=3, nb=3, depth=1, kinds=0x24, root=5, reach=('concatenated',)), J('inarr', 'merge.c', 'objects holding arrays, 3 values', na=3, nb=3, depth=2, kinds=0x24, maxn=1, reach=('concatenated',)),
  J('any', 'merge.c', 'any two values of up to 2 nodes', na=2, nb=2, root=-1, kinds=0x7F), J('big', 'merge.c', 'objects of 1, 8, 17 or 40 keys with values of five kinds, overlapping by all, half or none, one key and number arbitrary', big=1, defs=('RN=3000',), reach=('added','recursed','replaced')), J('chain', 'merge.c', 'the same below 1, 14, 27 or 40 further objects', big=1, chain=1, defs=('RN=3000',)), J('two', 'merge.c', 'two sources in a row, 2 values each', na=2, nb=2, kinds=0x64, srcs=2), J('two3', 'merge.c', 'two sources in a row, 3 values each, one key per object', na=3, nb=3, kinds=0x44, maxn=1, srcs=2, clean=0),
  J('self', 'merge.c', 'any value of up to 4 nodes merged with itself, then one of 1 node into it', na=4, nb=1, root=-1, kinds=0x74, self=1, reach=('itself','concatenated')),
  J('four4', 'merge.c', 'objects of 4 values each', na=4, nb=4, kinds=0x44, tier='thorough', time=1500, req=False), lib='json')
C('C20', 'Bounded: every depth in the stated ranges, five patterns of arrays and objects (two of them with arbitrary kinds at the innermost three levels and in the middle), empty or holding a number, with or without neighbours at every level, and many containers side by side.',
  J('limit', 'deep.c', 'texts of 495..516 levels', lo=495, span=22, pretty=0, steps=50000000, reach=('limit','beyond','compact')), J('pretty', 'deep.c', 'texts of 499 and 500 levels, both formats', lo=499, span=2, steps=50000000, reach=('pretty',)), J('far', 'deep.c', 'texts of 1, 101, ... 1101 levels', lo=1, span=12, step=100, pretty=0, steps=50000000), J('low', 'deep.c', 'texts of 1 to 20 levels, both formats', lo=1, span=20, steps=50000000), 
  J('api', 'deep.c', 'built documents of 480, 520, ... 640 levels', what=1, lo=480, span=5, step=40, pretty=0, steps=50000000, reach=('built',)), J('open', 'deep.c', 'unfinished texts of 498..515 levels', what=2, lo=498, span=18, steps=50000000, reach=('unfinished',)), J('sib', 'deep.c', 'texts of 100, 300, 500 and 700 levels with other elements before, behind or on both sides of the inner container at every level', lo=100, span=4, step=200, sib=1, steps=50000000, pretty=0, reach=('beyond','compact')), J('wide', 'deep.c', '450, 540, ... 1080 small containers side by side in an array or object', what=3, steps=200000000, reach=('wide',)),
  J('all', 'deep.c', 'texts of 1..600 levels', lo=1, span=120, step=5, pretty=0, steps=50000000, tier='thorough', time=900, req=False), J('api2', 'deep.c', 'built documents of 100..2100 levels', what=1, lo=100, span=21, step=100, pretty=0, steps=100000000, tier='thorough', time=900, req=False), lib='json')

C('C27', 'Bounded: a file system that may at any call fail, be interrupted, end early or deliver and take any part of the bytes, with up to the stated number of such misbehaviours per operation; documents of a fixed family with symbolic keys, characters and digits, files of arbitrary bytes up to the stated length; texts of at most 400 bytes.',
  J('save', 'io.c', 'six kinds of document, saved with 1 fault and loaded back with 1', what=0, faults=1, lfaults=1, reach=('save failed','saved','back','failed')),
  J('save2', 'io.c', 'six kinds of document, saved with up to 2 faults', what=0, faults=2, lfaults=0, reach=('save failed','saved')), J('load2', 'io.c', 'six kinds of document, loaded back with up to 2 faults', what=0, faults=0, lfaults=2, reach=('failed','shortened')),
  J('load', 'io.c', 'missing file or 0..3 arbitrary bytes, 2 faults, three loaders', what=1, n=3, faults=2, reach=('missing','failed','malformed','loaded')),
  J('merge', 'io.c', '0..2 files of eleven kinds, 1 fault', what=2, n=2, faults=1, reach=('refused','fault','merged','in place','missing input')), J('names', 'io.c', '0..2 files of four kinds under five sets of names (with formatting, quoting and path characters, long, one file twice)', what=2, n=2, faults=0, fam=0x413, names=5, inplace=1), J('merge3', 'io.c', '0..3 files of five kinds, no fault', what=2, n=3, faults=0, fam=0x17, inplace=0),
  J('buffer', 'io.c', 'a memory buffer of 0..4 arbitrary bytes', what=3, n=4, reach=('refused','freed')), J('dprintf', 'io.c', 'printing to a descriptor', what=4, reach=('printed',)),
  J('load4', 'io.c', '0..4 arbitrary bytes, 2 faults', what=1, n=4, faults=2, tier='thorough', time=900, req=False), J('merge2f2', 'io.c', '0..2 files, 2 faults', what=2, n=2, faults=2, tier='thorough', time=900, req=False), J('save3', 'io.c', '2 faults saving, 1 loading', what=0, faults=2, lfaults=1, tier='thorough', time=900, req=False), lib='json')

C('C28', 'Bounded: the database is a stand-in that records every call and may fail at any one of them; every column kind, flag, present or missing value (given integers over all values, returned ones of 1 or 19 digits, texts with an arbitrary byte), every number of rows and kinds of cell up to the stated ones. Outside: SQLite itself, quoting of names, the unfinished cee_dbm.c, deliberate crashes on misuse.',
  J('direct', 'sql.c', 'nine statements, 1 column of any kind, one failing call', what=0, k=1, reach=('refused','failed','ran','bound')), J('direct2', 'sql.c', 'nine statements, 2 columns of int and text', what=0, k=2, types=5, faults=0, reach=('refused','ran','bound')),
  J('ops', 'sql.c', 'insert, update, update-if-exists, update-or-insert of a JSON object; 1 column of int, int64 or text, one failing call', what=1, k=1, reach=('inserted','updated','absent','nothing','mismatch','failed','select failed')), J('ops2', 'sql.c', 'the same with 2 columns of int and text', what=1, k=2, types=5, faults=0, status=1, lite=1, reach=('inserted','updated','absent','nothing','mismatch')), J('noinfo', 'sql.c', 'the same without a table description, 2 keys', what=1, k=2, noinfo=1, reach=('inserted',)),
  J('select', 'sql.c', 'five ways to select; 0..4 rows of 1 integer or null column, one failing call', what=2, k=1, rows=4, cols=1, cellkinds=1, reach=('row','bare','iterated','failed','none','merged','under key','one under key')), J('select2', 'sql.c', '0..1 row of 2 columns, every column flag', what=2, k=2, rows=1, cols=2, cellkinds=1, faults=0, types=4, reach=('row',)), J('selkinds', 'sql.c', '0..1 row with a cell of every kind', what=2, k=1, rows=1, cols=1, cellkinds=31, reach=('row',)),
  J('given', 'sql.c', 'insert, delete, select-or-insert of given values; 2 columns, one failing call', what=3, reach=('inserted','deleted','there','made','failed')), J('array', 'sql.c', 'inserting an array of 1..2 objects of 0..2 keys', what=4, n=2, objs=2, reach=('array','failed')), J('array50', 'sql.c', 'an object of 48 to 52 keys', what=4, lo=48, n=4, reach=('array',)), J('lists', 'sql.c', 'binding values from JSON with every choice of lists, 2 columns', what=5, k=2, reach=('taken','reported')), J('joins', 'sql.c', 'joining 1 object with 0..3 rows, one failing call', what=6, k=1, objs=1, rows=3, reach=('joined','refused')), J('joins2', 'sql.c', 'joining 1..2 objects with 0..1 row each', what=6, k=1, objs=2, faults=0, rows=1, reach=('joined','refused')), J('misc', 'sql.c', 'opening a database, next number, operation records', what=7, reach=('next','first','opened','not opened','made','failed')), J('selop', 'sql.c', 'the select operation, 0..2 rows', what=8, k=1, reach=('selected',)),
  J('attach', 'sql.c', 'attaching and detaching a database, names of 1..3 bytes, every size of the buffer around the statement', what=9, reach=('attached','detached','too long','failed')),
  J('direct2f', 'sql.c', '2 columns of any kind, one failing call', what=0, k=2, tier='thorough', time=900, req=False), J('ops2f', 'sql.c', '2 columns, one failing call', what=1, k=2, tier='thorough', time=1500, req=False), J('select2f', 'sql.c', '0..2 rows of 2 columns, one failing call', what=2, k=1, rows=2, cols=2, cellkinds=3, tier='thorough', time=1200, req=False), lib='join')
C('C31', 'Bounded: every choice of which files and directories exist, flags, versions of one or ten digits, names of the least and the greatest length with arbitrary leading bytes, and buffers of every kind of size; the file system, the shell and the binding calls are stand-ins that record what they are given. Outside: what the scripts do, a directory that cannot be made (the process ends on purpose), names beyond those lengths, the text of the log.',
  J('init', 'dbm.c', 'preparing a database: every combination of existing files, flags and versions', what=0, reach=('created','recreated','kept','restored','customized','migrated')),
  J('backup', 'dbm.c', 'backing up a database that exists or not', what=1, reach=('absent','backed up')),
  J('use', 'dbm.c', 'opening and attaching an existing database', what=2, reach=('used',)),
  J('home', 'dbm.c', 'six forms of each path, home of 2, 60 and 127 bytes', what=3, reach=('replaced','left','too long')),
  J('texts', 'dbm.c', 'four descriptions, eight sizes of buffer each', what=4, reach=('whole','cut')),
  J('mkdir', 'dbm.c', 'directories 1..4 deep, absolute or relative, any of them existing', what=5, reach=('none','one','several')), lib='none')
