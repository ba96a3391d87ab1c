#!/usr/bin/env python3
"""print the path summary of a function: dbg.py driver name [vocab]"""
import sys; sys.dont_write_bytecode=True
from rules.common import *
drv, name = sys.argv[1], sys.argv[2]
sel = sys.argv[3] if len(sys.argv) > 3 else 'la'
u, = prog.load([drv])
def pp(p, ind=0):
    for it in p.trace:
        if isinstance(it, Loop):
            print(' '*ind + 'LOOP %s @%s start=%s rng=%s var=%s' % (it.kind, it.line, {it.syms.get(d,(d,))[0]: show(v) for d, v in it.start.items()}, show(it.rng) if it.rng is not None else None, show(it.var) if it.var is not None else None))
            for q in it.paths:
                print(' '*ind + '  ITER'); pp(q, ind+4)
                print(' '*ind + '   -> %s next=%s' % (q.exit, {nm: show(q.env[d]) for d, (nm, x) in it.syms.items() if d in q.env}))
        elif isinstance(it, Leave):
            print(' '*ind + 'LEAVE (%s):' % it.path.exit)
            pp(it.path, ind+4)
        else:
            print(' '*ind + repr(it))
for f in u.find(name):
    if len(sys.argv) > 4 and sys.argv[4] not in str(f.line): continue
    print('=====', f.name, f.loc(), [ (p['n'], u.type(p['t'])) for p in f.d['ps']])
    e = Engine(u, vocab=(lambda n, x: la_mutator(n, x)) if sel == 'la' else (lambda n, x: False), maxpaths=20000)
    for p in e.run(f):
        print('--- PATH'); pp(p, 2); print('  ==>', p.exit, show(p.val))
