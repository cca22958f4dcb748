"""C26: a centroid takes the most frequent value of the members at every position."""
from .minhash import *

SIG = mk('sym', '#sig')


class Odd(Exception):
    """a shape the rule does not know: undecided"""


class Wrong(Exception):
    """a known shape with a wrong ingredient: violation"""


def counted(m, at_pos):
    """m is a map  value -> number of occurrences (plus a constant); returns (binder over members, guard, key, number of maps)"""
    pos_ = None
    n = None
    if m.op == 'at' and m.a[0].op == 'rec':
        R, pos_ = m.a[0], m.a[1]
    elif m.op == 'rec':
        R = m
    elif m.op == 'cntmap' and m.a[0].op == 'mnew':
        return m.a[1], truth(m.a[2]), m.a[3], (None, None)
    else:
        raise Odd('counter ' + short(m))
    bd, inits, steps = R.a
    if len(inits) != 1:
        raise Odd('several accumulators')
    init, step = inits[0], steps[0]
    if pos_ is not None:
        if init.op == 'coll' and init.a[1] is EMPTY and len(init.a[2]) == 1 and len(init.a[2][0][0]) == 1 and init.a[2][0][2].op == 'mnew' and init.a[2][0][1].a[0] == TRUE:
            n = init.a[2][0][0][0].a[1]
        elif init.op == 'rep' and init.a[0].op == 'mnew':
            n = init.a[1]
        else:
            raise Odd('counters start as ' + short(init))
    elif init.op != 'mnew':
        raise Odd('counter starts as ' + short(init))
    guard, up = FALSE, None
    for cc, x in (step.a if step.op == 'phi' else ((b(TRUE), step),)):
        if x.op == 'mv':
            continue
        if up is not None:
            raise Odd('several updates')
        guard, up = cc.a[0], x
    if up is None:
        raise Wrong('no member is counted')
    if pos_ is not None:
        if up.op != 'pw':
            raise Odd('update ' + short(up))
        bd1, base, ix, new, ph = up.a
        if base.op != 'mv' or ix is not mk('bv', bd1.a[0]):
            raise Odd('update ' + short(up))
        if bd1.a[1] is ln(base):
            bd1 = binder(bd1.a[0], n)
        if bd1.a[1] is not n and not bd1.a[1].op == 'len':
            raise (Odd if any(x.op == 'len' for x in subterms(bd1.a[1])) else Wrong)(f'{short(bd1.a[1])} of {short(n)} positions are counted')
        new = subst(new, {ix: at_pos})
        old = ph
        npos = bd1.a[1]
    else:
        new, old, npos = up, None, None
    if new.op != 'mins':
        raise Odd('update ' + short(new))
    o, key, val = new.a
    if old is None and o.op != 'mv' or old is not None and o is not old:
        raise Odd('update of ' + short(o))
    got = get(o, key)
    okc = False
    if val.op == 'phi' and len(val.a) == 2:
        yes = [x for cc, x in val.a if entails(cc.a[0], isSome(got))]
        no = [x for cc, x in val.a if entails(cc.a[0], NOT(isSome(got)))]
        okc = len(yes) == 1 and len(no) == 1 and yes[0] is add(unwrap(got), ci(1)) and no[0].op == 'const'
    if not okc:
        raise Odd('count ' + short(val)) if opaque_in(val) else Wrong('count is ' + short(val))
    return bd, guard, key, (n, npos)


def most_frequent(t):
    """t = key of the entry with the largest count of a counter map; returns the map"""
    if not (t.op == 'fld' and t.a[1] == 0 and t.a[0].op == 'best'):
        raise Odd('chosen value ' + short(t))
    which, v, cmp_ = t.a[0].a
    if not (v.op == 'coll' and v.a[1] is EMPTY and len(v.a[2]) == 1):
        raise Odd('candidates ' + short(v))
    bs, g, e = v.a[2][0]
    if len(bs) != 1 or e.op != 'agg' or len(e.a[2]) != 2 or e.a[2][0].op != 'mkey' or e.a[2][1].op != 'mval':
        raise Odd('candidates ' + short(v))
    m = e.a[2][0].a[0]
    if e.a[2][1].a[0] is not m or bs[0].a[1] is not ln(m) or g.a[0] != TRUE:
        raise Wrong('not all values take part: ' + short(v))
    p1, p2 = mk('ph', 1), mk('ph', 2)
    if cmp_.op != 'cmp':
        raise Odd('order ' + short(cmp_))
    up = cmp_.a[0] is fld(p1, 1) and cmp_.a[1] is fld(p2, 1)
    down = cmp_.a[0] is fld(p2, 1) and cmp_.a[1] is fld(p1, 1)
    if not (up or down):
        raise Wrong('values are ordered by ' + short(cmp_))
    if (which == 'max') != up:
        raise Wrong('the least frequent value is chosen')
    return m


def c26(c):
    index_centroid(c)
    for n in ('minhash_centroid', 'minhash_centroid_from_refs', 'minhash_band_centroid_from_refs'):
        for k in c.find('', n, mod='minhash'):
            o = c.summ(k)
            sigs = o.args[0]
            run(c, o, 'most-frequent-value-per-position', lambda o=o, sigs=sigs, n=n: plain(c, o, sigs, 'band' in n))


def run(c, o, rule, f):
    if o.error:
        return c.open(rule, o, o.error)
    for fn, sp, text in getattr(o, 'narrow', []):
        c.bad('counters-do-not-wrap', o, f'{text} can wrap around', sp)
    try:
        f()
        c.ok(rule, o)
    except Wrong as e:
        c.bad(rule, o, str(e))
    except Odd as e:
        c.open(rule, o, str(e))


def index_centroid(c):
    M = MinHash(c)
    o = c.summ(c.fn(OWNER, 'calculate_centroid'))
    me, ids = o.args[:2]
    ctor = M.ctor_ret()
    env = {me: ctor.ret}

    def f():
        pos_, m, w = shape(o.ret)
        bd, guard, key, (n, npos) = counted(m, pos_)
        over = pos_bound(o.ret, m)
        if bd.a[1] is not ln(ids):
            raise Wrong(f'{short(bd.a[1])} members are counted instead of every one')
        st = M.stored(me, at(ids, mk('bv', bd.a[0])))
        if not entails(isSome(st), guard):
            raise Wrong(f'a stored member is counted only if {short(guard)}')
        if not entails(guard, isSome(st)):
            raise Wrong('an id that is not stored is counted')
        sig = unwrap(st)
        nb = subst(n if n is not None else over, env)
        if nb is not subst(ln(M.bands(me)), env):
            raise Wrong(f'{short(nb)} bands instead of {short(ln(M.bands(me)))}')
        if n is not None and (subst(npos, env) is not nb):
            raise Wrong(f'{short(npos)} bands are counted')
        if key.op != 'slice' or key.a[0] is not sig:
            raise Odd('band value ' + short(key)) if opaque_in(key) or contains(key, sig) else Wrong('band value is ' + short(key))
        lo, hi = band_rows(M, pos_, ctor)
        if subst(key.a[1], env) is not lo or subst(key.a[2], env) is not hi:
            raise Wrong(f'band value is {short(key)}, not the rows of the band')
    run(c, o, 'most-frequent-band-value', f)
    # ids that are not stored are ignored: no panic that needs an unknown id
    for e in o.panics:
        for i in set(e.loops):
            st = isSome(M.stored(me, at(ids, mk('idx', i))))
            if e.guard != FALSE and entails(e.guard, NOT(st)) and not entails(e.guard, FALSE):
                c.bad('unknown-ids-are-ignored', o, short(e.guard), e.sp)
                break
        else:
            c.ok('unknown-ids-are-ignored', o, '', e.sp)


def shape(t):
    """vec[ mostfrequent(v)[w] for v<n for w<|..| ]  ->  (position term, counter map, w binder)"""
    if not (t.op == 'coll' and t.a[0] == 'vec' and t.a[1] is EMPTY and len(t.a[2]) == 1 and t.a[2][0][1].a[0] == TRUE):
        raise Odd('result ' + short(t))
    bs, g, e = t.a[2][0]
    if any('rev' in z.a[2] for z in bs):
        raise Wrong('positions in reverse order')
    if len(bs) == 2 and e.op == 'at' and e.a[1] is mk('bv', bs[1].a[0]) and bs[1].a[1] is ln(e.a[0]):
        x, w = e.a[0], bs[1]
    elif len(bs) == 1:
        x, w = e, None
    else:
        raise Odd('result ' + short(t))
    m = most_frequent(x)
    p = mk('bv', bs[0].a[0])
    if m.op == 'at' and m.a[1] is not p:
        raise Wrong(f'the counter of position {short(m.a[1])} decides position {short(p)}')
    return p, m, w


def pos_bound(t, m):
    return t.a[2][0][0][0].a[1]


def band_rows(M, p, ctor):
    """the rows of band p as the constructor lays the bands out"""
    band = at(fld(ctor.ret, M.f_bands), p)
    # range start and end: the only fields that depend on the position
    dep = [x for x in (band.a[2] if band.op == 'agg' else ()) if contains(x, p)]
    if len(dep) != 2:
        raise Odd('band ' + short(band))
    return (dep[0], dep[1]) if nonneg(sub(dep[1], dep[0])) else (dep[1], dep[0])


def plain(c, o, sigs, band):
    pos_, m, w = shape(o.ret)
    bd, guard, key, (n, npos) = counted(m, pos_)
    if bd.a[1] is not ln(sigs) or guard != TRUE:
        raise Wrong(f'{short(bd.a[1])} members are counted instead of every one')
    sig = at(sigs, mk('bv', bd.a[0]))
    if band:
        nb, w_ = o.args[1], o.args[2]
        if (n or pos_bound(o.ret, m)) is not nb or (npos or nb) is not nb:
            raise Wrong(f'{short(n)} bands')
        if key is not slice_(sig, mul(pos_, w_), add(mul(pos_, w_), w_)):
            raise Wrong('band value is ' + short(key))
    else:
        if key is not at(sig, pos_):
            raise Wrong('counted value is ' + short(key))
        if n is not None and n is not ln(at(sigs, ci(0))) and n is not ln(sig):
            raise Wrong(f'{short(n)} positions')
