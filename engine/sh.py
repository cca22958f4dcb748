"""python3 -m engine.sh OWNER NAME [TRAIT]: print the summary of a function with shared subterms factored out"""
import sys
from rules.common import *
import os
P = Program(os.environ.get('D', '/verif/.cache/dump'))
c = Ctx(P)
anch = ANCHORS if '-a' not in sys.argv else ()
av = [x for x in sys.argv[1:] if not x.startswith('-')]
for k in c.find(av[0], av[1], av[2] if len(av) > 2 else None):
    o = c.summ(k, anch)
    roots = [o.ret] + [x for e in o.effects for x in (b(e.guard),) + tuple(e.args)]
    locs = []
    for e in o.effects:
        if e.loc:
            roots += [x for p in e.loc[1] for x in p if isinstance(x, T)]
    fin = [(r, v) for r, v in (o.state.store.items() if o.state else []) if r[0] == 'V']
    roots += [v for r, v in fin]
    lines, out = show_lets(roots)
    print('==', o.path, o.error or '')
    print('\n'.join(lines))
    out = iter(out)
    print('RET', next(out))
    for e in o.effects:
        g = next(out)
        a = [next(out) for _ in e.args]
        l = showloc(e.loc[0], ()) + ''.join('.' + '|'.join(next(out) if isinstance(x, T) else str(x) for x in p) for p in e.loc[1]) if e.loc else ''
        if e.loc is None and False:
            pass
        print(f'  {e.op} {getattr(e, "kind", "")}{getattr(e, "callee", "")} {l} ({", ".join(a)}) if {g} loops={e.loops} @{e.sp}')
    for r, v in fin:
        print('  FINAL', show(r[1])[:60], ':=', next(out))
    for L, i in o.loops.items():
        print('  L', L, show(i.count)[:100], 'early', showg(i.early)[:200], i.flags, 'par' if i.par else '')
