"""The MinHash index: roles of its fields, result shapes, insertion, removal (C01-C07, C25 use it)."""
from .common import *

SELF = None
M0 = mk('ph', 1)
OWNER = 'MinHashIndex'
NONDET = ('RandomState::new', 'thread_rng', 'random', 'SystemTime::now', 'Instant::now', 'OsRng', 'from_entropy', 'getrandom',
          'process::id', 'current_id', 'RandomState::default')


class Result:
    """one comprehension of a result: outer binders (bulk), binders, guard, element, what was done to it"""

    def __init__(s, outer, binders, guard, elem, tags, term):
        s.outer, s.binders, s.guard, s.elem, s.tags, s.term = outer, binders, guard, elem, tags, term

    @property
    def id(s):
        e = s.elem
        return e.a[2][0] if e.op == 'agg' and e.a[0] == 'tuple' and e.a[2] else e

    @property
    def score(s):
        e = s.elem
        return e.a[2][1] if e.op == 'agg' and e.a[0] == 'tuple' and len(e.a[2]) == 2 else None


def is_collish(t):
    if t.op in ('coll', 'sorted', 'slice', 'rev', 'dedup', 'dedupk'):
        return True
    if t.op == 'phi':
        return all(is_collish(x) or x is EMPTY for _, x in t.a)
    return False


def mapped_over(bs, e, g):
    if len(bs) != 1:
        return None
    v = mk('bv', bs[0].a[0])
    for x in subterms((e, g)):
        if x.op == 'at' and x.a[1] is v and x.a[0].op in ('sorted', 'slice', 'rev') and is_collish(x.a[0]) and not (set(bs[0].a[2]) - {'set'}):
            n, m = bs[0].a[1], ln(x.a[0])
            if n is m:
                return x.a[0], v, None
            if n.op == 'min' and m in n.a or minmax('min', n, m) is n:
                return x.a[0], v, n
    return None


def results(t, guard=TRUE, outer=(), tags=()):
    """flatten a returned collection / Option into Results; None if the shape is not understood"""
    if t.op == 'phi':
        out = []
        for c, x in t.a:
            r = results(x, AND(guard, c.a[0]), outer, tags)
            if r is None:
                return None
            out += r
        return out
    if t is EMPTY:
        return []
    if t.op == 'agg' and t.a[0] in ('Option', 'Result'):
        if t.a[1] in ('None',):
            return []
        if t.a[1] in ('Some', 'Ok'):
            return results(t.a[2][0], guard, outer, tags + (('one',),))
        return []
    if t.op == 'sorted':
        return results(t.a[0], guard, outer, tags + (('sorted', t.a[1]),))
    if t.op == 'rev':
        return results(t.a[0], guard, outer, tags + (('rev',),))
    if t.op == 'dedup':
        return results(t.a[0], guard, outer, tags)      # ids are distinct in the first place
    if t.op == 'dedupk':
        k = t.a[1]
        whole = k is M0 or k.op == 'fld' and k.a[0] is M0 and k.a[1] in (0, '0') or k.op == 'same'
        return results(t.a[0], guard, outer, tags + ((('lossy', k),) if not whole else ()))
    if t.op == 'slice':
        return results(t.a[0], guard, outer, tags + (('slice', t.a[1], t.a[2], ln(t.a[0])),))
    if t.op == 'best':
        return results(t.a[1], guard, outer, tags + (('best', t.a[0], t.a[2]),))
    if t.op == 'fld' and t.a[0].op == 'best':
        r = results(t.a[0], guard, outer, tags)
        if r is None:
            return None
        return [Result(x.outer, x.binders, x.guard, fld(x.elem, t.a[1]), x.tags + (('fld', t.a[1]),), x.term) for x in r]
    if t.op == 'coll' and t.a[1] is EMPTY:
        out = []
        for bs, g, e in t.a[2]:
            gg = AND(guard, g.a[0])
            X = mapped_over(bs, e, g)
            if X is not None:
                # a map / filter over an already built (sorted, cut) collection
                src, v, cut = X
                r = results(src, guard, outer, tags + ((('slice', ci(0), cut, ln(src)),) if cut is not None else ()))
                if r is None:
                    return None
                for y in r:
                    env = {mk('at', src, v): y.elem}
                    out.append(Result(y.outer, y.binders, AND(y.guard, subst_guard(gg, env)), subst(e, env), y.tags, y.term))
                continue
            if is_collish(e) and len(bs) >= 1 and t.a[0] == 'vec':
                r = results(e, gg, outer + (bs,), tags)
                if r is None:
                    return None
                out += r
            else:
                out.append(Result(outer, bs, gg, e, tags + (('kind', t.a[0]),), t))
        return out
    if t.op == 'firstof':
        return results(t.a[0], guard, outer, tags + (('firstof',),))
    if t.op == 'at' and t.a[1] is ci(0) and t.a[0].op in ('sorted',):
        return results(t.a[0], guard, outer, tags + (('firstof',),))
    return None


class MinHash:
    def __init__(s, c):
        s.c = c
        a = c.adt('MinHashIndex')
        s.f_bands = s.f_ids = s.f_thr = None
        band = None
        for i, f in enumerate(a['variants'][0]['fields']):
            t = f['ty']
            if t.get('k') == 'adt' and t['p'].endswith('Vec') and t['a'] and t['a'][0].get('k') == 'adt' and t['a'][0]['key'] in c.P.adts:
                s.f_bands, band = i, t['a'][0]['key']
            elif t.get('k') == 'adt' and 'HashMap' in t['p']:
                s.f_ids = i
            elif t.get('n') == 'f64':
                s.f_thr = i
        if s.f_bands is None or s.f_ids is None or s.f_thr is None:
            raise Missing('MinHashIndex fields')
        s.f_table = None
        for i, f in enumerate(c.P.adts[band]['variants'][0]['fields']):
            t = f['ty']
            if t.get('k') == 'adt' and 'HashMap' in t['p']:
                s.f_table = i
                s.table_ty = t
        s.ctor = None
        s.band_key, s.band_inv = band, None

    # ---- roles
    def bands(s, me):
        return fld(me, s.f_bands)

    def ids(s, me):
        return fld(me, s.f_ids)

    def thr(s, me):
        return fld(me, s.f_thr)

    def table(s, me, bi):
        return fld(at(s.bands(me), bi), s.f_table)

    def stored(s, me, x):
        return get(s.ids(me), x)

    def ctor_ret(s):
        """a constructed index, as a term over the parameters (num_bands, band_width, threshold)"""
        if s.ctor is None:
            o = s.c.summ(s.c.fn(OWNER, 'new_index'))
            s.ctor = o
        return s.ctor

    def at_ctor(s, t, me):
        """value of a configuration term (no run-time contents) in a freshly built index"""
        o = s.ctor_ret()
        return subst(t, {me: o.ret})

    def kc(s, t, me):
        """t with every band number field written by its value in a constructed index: band and width instead of stored start, end, length"""
        if s.band_inv is None:
            s.band_inv = {}
            o = s.ctor_ret()
            nb, w = o.args[0], o.args[1]
            for j, f in enumerate(s.c.P.adts[s.band_key]['variants'][0]['fields']):
                if f['ty'].get('n') != 'usize':
                    continue
                vals = []
                for n in ('new_index', 'new_with_capacity'):
                    o2 = s.c.summ(s.c.fn(OWNER, n))
                    v = fld(at(fld(o2.ret, s.f_bands), BAND), j)
                    vals.append(subst(v, {o2.args[0]: mk('param', -21, 'NB'), o2.args[1]: mk('param', -22, 'W')}))
                if vals[0] is vals[1] and not opaque_in(vals[0]) and all(x in (BAND,) or x.a[0] in (-21, -22) for x in subterms(vals[0]) if x.op == 'param'):
                    s.band_inv[j] = vals[0]

        def f(x):
            if x.op == 'fld' and x.a[0].op == 'at' and x.a[0].a[0] is s.bands(me) and len(x.a) >= 2 and x.a[1] in s.band_inv:
                return subst(s.band_inv[x.a[1]], {BAND: x.a[0].a[1]})
        return rewrite(t, f)

    def n_terms(s, me):
        """terms that equal bands x width in every constructed index"""
        o = s.ctor_ret()
        nb, w = o.args[0], o.args[1]
        want = mul(nb, w)
        fs = [(i, f) for i, f in enumerate(s.c.adt('MinHashIndex')['variants'][0]['fields']) if f['ty'].get('n') == 'usize']
        base = [fld(me, i) for i, _ in fs] + [ln(s.bands(me))]
        out = [t for t in base if s.at_ctor(t, me) is want]
        for x in base:
            for y in base:
                if s.at_ctor(mul(x, y), me) is want:
                    out.append(mul(x, y))
        return list(dict.fromkeys(out))

    def sims(s, p, q):
        """all terms that denote the similarity of p and q"""
        k = s.c.fn('', 'compute_minhash_similarity', mod='minhash')
        path = s.c.P.fns[k]['path']
        out = [mk('call', path, (p, q)), mk('call', path, (q, p))]
        o = s.c.summ(k, anchors=())
        for x, y in ((p, q), (q, p)):
            out.append(subst(o.ret, {o.args[0]: x, o.args[1]: y}))
        return out

    def passes(s, p, q, thr):
        """guard(s) that say 'similarity of p and q reaches thr'"""
        out = [NOT(flt(x, thr)) for x in s.sims(p, q)]
        try:
            k = s.c.fn('', 'similarity_greater_than_threshold', mod='minhash')
            path = s.c.P.fns[k]['path']
            o = s.c.summ(k)
            for x, y in ((p, q), (q, p)):
                out.append(atom(mk('call', path, (x, y, thr))))
                out.append(truth(subst(o.ret, {o.args[0]: x, o.args[1]: y, o.args[2]: thr})))
        except Missing:
            pass
        return list(dict.fromkeys(out))

    def queries(s):
        """(name, key, self param, query term, outer items param or None, kind)"""
        c = s.c
        out = []
        for name, kind in (('query', 'ids'), ('query_owned', 'ids'), ('query_one', 'best'), ('query_owned_return_similarity', 'scored'),
                           ('query_top_k', 'topk')):
            o = c.summ(c.fn(OWNER, name))
            out.append((name, o, o.args[0], o.args[1], None, kind))
        for name in ('query_by_id', 'query_by_id_owned'):
            o = c.summ(c.fn(OWNER, name))
            out.append((name, o, o.args[0], unwrap(s.stored(o.args[0], o.args[1])), None, 'ids'))
        o = c.summ(c.fn(OWNER, 'query', trait='QueryIndex'))
        out.append(('QueryIndex::query', o, o.args[0], unwrap(s.stored(o.args[0], o.args[1])), None, 'ids'))
        for name, kind in (('par_bulk_query', 'ids'), ('par_bulk_query_return_similarity', 'scored')):
            o = c.summ(c.fn(OWNER, name))
            out.append((name, o, o.args[0], None, o.args[1], kind))
        return out

    # ---- effects on tables and the id map
    def effs(s, o, me):
        """effects on the index: list of (what, band index or None, key or None, effect)"""
        out = []
        for e in o.effects:
            if e.op in ('panic', 'call', 'capacity', 'read') or e.loc is None:
                continue
            r, p = e.loc
            if r != ('V', me):
                continue
            if p and p[0][0] == 'f' and p[0][1] == s.f_ids:
                out.append(('ids' if len(p) == 1 else 'ids-entry', None, p[1][1] if len(p) > 1 and p[1][0] == 'ent' else None, e))
            elif len(p) >= 3 and p[0][0] == 'f' and p[0][1] == s.f_bands and p[1][0] == 'at' and p[2][0] == 'f' and p[2][1] == s.f_table:
                rest = p[3:]
                if not rest:
                    out.append(('table', p[1][1], None, e))
                elif len(rest) == 1 and rest[0][0] == 'ent':
                    out.append(('container', p[1][1], rest[0][1], e))
                else:
                    out.append(('other', p[1][1], None, e))
            else:
                out.append(('other', None, None, e))
        return out

    def key_model(s):
        """K: the band key as a term over SIG, BAND and the index, taken from insert"""
        c = s.c
        o = c.summ(c.fn(OWNER, 'insert'))
        me = o.args[0]
        for w, bi, k, e in s.effs(o, me):
            key = k if w == 'container' else (e.args[0] if w == 'table' and e.op == 'insert' else None)
            if key is None:
                continue
            bv_ = s.band_loop(o, bi)
            if bv_ is None:
                continue
            return subst(key, {bi: BAND, o.args[2]: SIG, me: ME}), o, me
        return None, o, me

    def band_loop(s, o, bi):
        if bi.op == 'idx':
            return bi
        return None

    def cover(s, o, me, terms_idx, count):
        """index term runs over all of 0..count: loop L with that index, full count, no early exit"""
        if terms_idx.op != 'idx':
            return False
        i = o.loops.get(terms_idx.a[0])
        return i is not None and i.count is count and i.early == FALSE


SIG, BAND, ME = mk('param', -10, 'SIG'), mk('param', -11, 'BAND'), mk('param', -12, 'ME')
UNSIGNED.add(BAND)
ITEM = mk('param', -13, 'ITEM')
UNSIGNED.add(ITEM)


def strip_mapdel(t):
    """a lookup after removal of other ids is a lookup in the original map"""
    def f(x):
        if x.op == 'get' and x.a[0].op == 'mapdel':
            return get(x.a[0].a[0], x.a[1])
    return rewrite(t, f)


def nondet_calls(t):
    out = []
    for x in subterms(t):
        if x.op == 'call':
            n = strip_generics(x.a[0])
            if any(n.endswith(d) for d in NONDET):
                out.append(n)
    return out


def lin_index(ix, bd):
    """index term = a*bv + off, a = +-1"""
    v = mk('bv', bd.a[0])
    p = to_poly(ix)
    c = p.get((v,), 0)
    if c not in (1, -1):
        return None
    off = from_poly({m: x for m, x in p.items() if m != (v,)})
    if v in subterms(off):
        return None
    if c == 1:
        return off, add(off, bd.a[1])
    return sub(add(off, ci(1)), bd.a[1]), add(off, ci(1))


def chain(intervals, n):
    """do the half-open intervals cover 0..n?"""
    at_ = ci(0)
    todo = list(dict.fromkeys(intervals))
    while True:
        if at_ is n:
            return True
        for iv in todo:
            if iv[0] is at_:
                at_ = iv[1]
                todo.remove(iv)
                break
        else:
            return False
