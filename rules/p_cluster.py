"""C16, C17: clustering, serial and parallel."""
from .common import *
from . import p_string as PST

ITEM = PST.ITEM


def tyname(t):
    return (t.get('p') or t.get('n') or '').split('::')[-1]


class Roles:
    """where a point keeps its marker, a cluster its points and id, a clusterer its sequence and minimum size"""

    def __init__(s, c, mod, names):
        s.mod = mod
        ad = {}
        for k, a in c.P.adts.items():
            if a['crate'] == 'gaoya' and mod in k:
                ad[a['path'].split('::')[-1]] = a
        s.pt, s.cl, s.cr = (ad.get(n) for n in names)
        if not (s.pt and s.cl and s.cr):
            raise Missing(f'types of {mod}')
        s.marker = s.pid = s.points = s.cid = s.state = s.seq = s.lock = None
        for n, f in enumerate(s.pt['variants'][0]['fields']):
            if tyname(f['ty']) in ('AtomicPtr', 'Cell', 'RefCell', 'AtomicUsize', 'AtomicU32', 'AtomicU64', 'Mutex', 'Atomic'):
                s.marker = n
            elif f['ty'].get('k') == 'param':
                s.pid = n
        for n, f in enumerate(s.cl['variants'][0]['fields']):
            t = tyname(f['ty'])
            if t == 'Vec':
                s.points = n
            elif f['ty'].get('k') == 'prim':
                s.cid = n
            elif t.startswith('Atomic'):
                s.state = n
        if s.marker is None or s.points is None or s.cid is None:
            raise Missing(f'fields of {mod}')

    def fields_of_clusterer(s, c):
        """sequence and minimum size, from the constructor"""
        k = c.fn('Clusterer', 'new', mod=s.mod)
        o = c.summ(k, anchors=())
        f = c.P.fns[k]
        s.new = o
        mins = []
        for n, x in enumerate(o.ret.a[2] if o.ret.op == 'agg' else ()):
            if x is o.args[0]:
                s.minsize = n
            elif x.op == 'cellnew' and 'Mutex' in x.a[0] or x.op == 'cellnew' and 'RwLock' in x.a[0]:
                s.lock = n
            elif x.op == 'const' or x.op == 'cellnew':
                s.seq = n
        return o


def free_guard(t, R, g):
    """the formula "t has no cluster" as far as it occurs in g: OR over the tests of its marker"""
    out = FALSE
    m = fld(t, R.marker)
    for a in atoms_of(g):
        if a.op == 'atomic':
            continue
        if a.op == 'is' and a.a[0].op == 'cellof' and a.a[0].a[0] is m and a.a[1] == 'Some':
            out = OR(out, NOT(atom(a)))
        elif a.op == 'is' and a.a[0].op == 'cellof' and a.a[0].a[0] is m and a.a[1] == 'None':
            out = OR(out, atom(a))
        else:
            for x in subterms(a):
                if x.op == 'atomic' and x.a[0] == 'load' and x.a[1] is m and atom(a) == eq(x, mk('null')):
                    out = OR(out, atom(a))
    return out


def cas_claims(g):
    """compare_exchange terms tested in g"""
    return [a.a[0] for a in atoms_of(g) if a.op == 'is' and a.a[0].op == 'atomic' and a.a[0].a[0].startswith('compare_exchange')]


def all_cas(ts):
    out = []
    for x in subterms(ts):
        if x.op == 'atomic' and x.a[0].startswith('compare_exchange') and x not in out:
            out.append(x)
    return out


def instances(g, v, count, P=None, e=None):
    """facts about item v from the quantified atoms of g over the same range: !exists(w<count, P(w)) gives !P(v)"""
    f = TRUE
    for a in atoms_of(g):
        if a.op == 'exists' and a.a[0].a[1] is count and entails(g, NOT(atom(a))):
            f = AND(f, NOT(subst_guard(a.a[1].a[0], {mk('bv', a.a[0].a[0]): v})))
        elif a.op == 'exists' and P is not None and a.a[0].a[1] is ln(P) and entails(g, NOT(atom(a))):
            # quantified over the positions of the list of members: e stands at one of them
            w = mk('bv', a.a[0].a[0])
            here = mk('cv', 960)
            f = AND(f, NOT(subst_guard(subst_guard(a.a[1].a[0], {at(P, w): e}), {w: here})))
    return f


def under(t, g):
    """the part of a conditional collection that is left where g holds"""
    t = phi_under(t, g) if t.op == 'phi' else t
    if t.op == 'agg':
        return agg(t.a[0], t.a[1], [under(x, g) for x in t.a[2]])
    if t.op == 'coll':
        gens, changed = [], False
        base = under(t.a[1], g) if t.a[1] is not EMPTY else EMPTY
        for bs, h, e in t.a[2]:
            hh = h.a[0]
            if AND(hh, g) == FALSE:
                changed = True
                continue
            for a in atoms_of(hh):
                if entails(g, atom(a)):
                    hh = cofactor(hh, a, True)
                elif entails(g, NOT(atom(a))):
                    hh = cofactor(hh, a, False)
            changed = changed or hh != h.a[0]
            gens.append((bs, b(hh), e))
        if changed or base is not t.a[1]:
            return coll(t.a[0], base, gens)
    return t


def normg(g, loops):
    x = norm(b(g), loops)
    return x.a[0] if x.op == 'b' else truth(x)


def binders_to_loops(o, bs, effs):
    """bound variables of the result -> indices of the loops that made it"""
    for e in effs:
        if len(e.loops) < len(bs):
            continue
        env = {}
        ok = True
        for x, L in zip(bs, e.loops):
            cnt = subst(x.a[1], env)
            if o.loops[L].count is not cnt:
                ok = False
                break
            env[mk('bv', x.a[0])] = mk('idx', L)
        if ok:
            return env, e.loops[:len(bs)]
    return None, None


def equiv(f, g):
    return f == g or entails(f, g) and entails(g, f)


def at_index(t):
    return (t.a[0], t.a[1]) if t.op == 'at' else (None, None)


def all_points(o, start, bs, pts):
    """start runs over every given point exactly once"""
    if start.op == 'phi':
        r = [all_points(o, x, bs, pts) for _, x in start.a]
        return False if False in r else None if None in r else True
    seq, i = at_index(start)
    if seq is None:
        return False
    if seq.op == 'sorted':
        seq = seq.a[0]
    while seq.op in ('rev',):
        seq = seq.a[0]
    if seq.op == 'slice' or seq.op == 'usub' or seq.op == 'upd':
        return None
    if seq is not pts:
        return None if opaque_in(seq) else False
    vs = [mk('bv', x.a[0]) for x in bs]
    if len(bs) == 1:
        return i is vs[0] and bs[0].a[1] is ln(pts)
    if len(bs) == 2:
        # consecutive chunks of one size
        n = ln(pts)
        d = sub(i, vs[1])
        p = to_poly(d)
        if len(p) != 1:
            return None
        ch = None
        ((m, k),) = p.items()
        if vs[0] in m:
            rest = list(m)
            rest.remove(vs[0])
            ch = from_poly({tuple(rest): k})
        if ch is None:
            return None
        good = bs[0].a[1] is div(add(sub(n, ci(1)), ch), ch) and bs[1].a[1] is sub(minmax('min', n, add(ch, mul(ch, vs[0]))), mul(ch, vs[0]))
        return good
    return None


def query_of(t):
    """t = (result of a query)[v]: (query term, index)"""
    seq, i = at_index(t)
    if seq is None or seq.op != 'call' or strip_generics(seq.a[0]).split('::')[-1] != 'query':
        return None, None
    return seq, i


def cluster_fns(c):
    out = []
    for mod, names in (('clustering_serial', ('ClusterPointInner', 'Cluster', 'Clusterer')), ('clusterer_parallel', ('ClusterPointInner', 'Cluster', 'Clusterer'))):
        out.append(Roles(c, mod, names))
    return out


def clusters_returned(c, o, R):
    if o.error:
        return None
    out = []
    for g, t in parts_of(o.ret):
        if t is EMPTY:
            continue
        if t.op == 'rec' and t.a[1] and (t.a[1][0] is EMPTY or ln(t.a[1][0]) is ci(0)) and t.a[2][0].op == 'coll' and t.a[2][0].a[1].op == 'mv' and t.a[2][0].a[1].a[1] == 0:
            # clusters whose making depends on what the loop carries along
            u = t.a[2][0]
            if u.a[1] not in subterms(u.a[2]):
                for bs, gg, e in u.a[2]:
                    out.append(([t.a[0]] + list(bs), AND(g, gg.a[0]), e))
                continue
        if t.op != 'coll' or t.a[1] is not EMPTY:
            return None
        for bs, gg, e in t.a[2]:
            out.append((list(bs), AND(g, gg.a[0]), e))
    return out


def c16(c):
    for R in cluster_fns(c):
        par = R.mod == 'clusterer_parallel'
        on = R.fields_of_clusterer(c)
        if R.seq is None or getattr(R, 'minsize', None) is None:
            c.open('clusterer-state', on, short(on.ret))
            continue
        # ---- a new point is unassigned, and is identified by its id alone
        op = c.summ(c.fn('ClusterPointInner', 'new', mod=R.mod), anchors=())
        mk0 = fld(op.ret, R.marker)
        is0 = mk0.op == 'cellnew' and (mk0.a[1] is mk('null') or mk0.a[1].op == 'agg' and mk0.a[1].a[1] == 'None') or \
            mk0.op in ('call', 'default') and 'default' in show(mk0)
        c.need(is0, 'new-point-unassigned', op, short(mk0), opaque=opaque_in(mk0) or mk0.op not in ('cellnew',))
        for tr, nm in (('PartialEq', 'eq'), ('Hash', 'hash')):
            for k in c.find('ClusterPointInner', nm, tr, mod=R.mod):
                oe = c.summ(k, anchors=())
                seen = [x for x in subterms((oe.ret,) + tuple(y for e in oe.effects for y in e.args)) if x.op == 'fld' and x.a[1] == R.marker and x.a[0] in oe.args]
                ids = [x for x in subterms((oe.ret,) + tuple(y for e in oe.effects for y in e.args)) if x.op == 'fld' and x.a[1] == R.pid and x.a[0] in oe.args]
                c.need(not seen and ids, 'point-identified-by-its-id', oe, f'{nm} uses the cluster marker' if seen else f'{nm} does not use the id', opaque=bool(oe.error))
        names = ('cluster', 'cluster_par') if par else ('cluster',)
        for name in names:
            o = c.summ(c.fn('Clusterer', name, mod=R.mod), anchors=())
            chunk_size(c, o)
            cs = clusters_returned(c, o, R)
            if cs is None:
                c.open('clusters', o, o.error or short(o.ret))
                continue
            pm = pmap(o)
            pts = [a for a, f in zip(o.args, o.fn.j['inputs']) if 'Vec' in str(f) and 'ClusterPointInner' in str(f)]
            pts = pts[0] if pts else o.args[1]
            me = o.args[0]
            mins = fld(me, R.minsize)
            c.need(bool(cs), 'clusters', o, 'no cluster is ever returned')
            total = []
            for bs, g, cl in cs:
                one(c, R, par, o, name, me, pts, mins, bs, g, cl)
            if not par:
                serial_ids(c, R, o, me, cs)


def by_id(e, R, h, U):
    """an assigned result is taken depending on which cluster it belongs to"""
    m = fld(e, R.marker)
    extra = [a for a in atoms_of(AND(h, NOT(U)))]
    mine = [a for a in extra if any(x.op == 'cellof' and x.a[0] is m for x in subterms(a))]
    pay = [a for a in mine if any(x.op == 'fld' and x.a[0].op == 'cellof' and x.a[0].a[0] is m for x in subterms(a)) or any(x.op in ('pay', 'vfld') for x in subterms(a))]
    return bool(pay) and len(mine) == len(extra)


class Only:
    """the same obligations, only some of them recorded"""
    def __init__(s, c, rules):
        s.c, s.rules = c, rules

    def __getattr__(s, k):
        f = getattr(s.c, k)
        if k not in ('ok', 'bad', 'open', 'need', 'entail'):
            return f
        i = 2 if k == 'entail' else 1 if k == 'need' else 0
        return lambda *a, **kw: f(*a, **kw) if a[i] in s.rules else None


def one(c, R, par, o, name, me, pts, mins, bs, g, cl, only=None):
    if only:
        c = Only(c, only)
    opq = opaque_in(cl, b(g))
    if cl.op != 'agg' or not cl.a[0].endswith('Cluster'):
        c.need(False, 'clusters', o, short(cl), opaque=True)
        return
    P, cid = under(fld(cl, R.points), g), fld(cl, R.cid)
    # ---- size
    n = ln(P)
    c.entail(g, NOT(pos(sub(mins, n))), 'cluster-at-least-minimum-size', o, f'a cluster of {short(n)} points is returned if {short(g)}', opaque=opaque_in(n, cl))
    if P.op == 'slice' and P.a[0].op == 'coll':
        # a part of the collected points: the others carry the mark of a cluster that does not list them
        whole = entails(g, AND(NOT(pos(P.a[1])), NOT(pos(sub(ln(P.a[0]), P.a[2])))))
        c.need(whole, 'members-are-unassigned-query-results', o, f'only the members {short(P.a[1])} .. {short(P.a[2])} of the collected points are listed', opaque=opaque_in(P.a[1], P.a[2]))
        if not whole:
            return
        P = P.a[0]
    if P.op != 'coll' or P.a[1] is not EMPTY or not P.a[2]:
        # all query results, unfiltered
        q = P if P.op == 'call' else None
        c.need(False, 'members-are-unassigned-query-results', o, short(P), opaque=q is None)
        return
    start = None
    for gb, gg, e in P.a[2]:
        h = gg.a[0]
        q, i = query_of(e)
        if q is None or len(gb) != 1:
            c.need(False, 'members-are-unassigned-query-results', o, f'member {short(e)}', opaque=opaque_in(e) or len(gb) != 1)
            continue
        v = mk('bv', gb[0].a[0])
        c.need(i is v and gb[0].a[1] is ln(q), 'members-are-unassigned-query-results', o, f'only the results {short(i)} of {short(gb[0].a[1])}', opaque=opaque_in(i, gb[0].a[1]))
        st = q.a[1][1] if isinstance(q.a[1], tuple) and len(q.a[1]) > 1 else None
        if st is None:
            c.open('started-by-an-unassigned-point', o, short(q))
            continue
        start = st
        # ---- members
        U = free_guard(e, R, h)
        gi = AND(g, h, instances(g, v, gb[0].a[1], P, e))
        claims = [x for x in all_cas((cl, b(g), b(h)) + tuple(b(a) for a in ())) if True]
        claims = [x for x in all_cas(b(gi)) if x.a[1] is fld(e, R.marker)]
        if par:
            okc = [x for x in claims if x.a[2][0] is mk('null') and x.a[2][1].op == 'agg' and fld(x.a[2][1], R.cid) is cid]
            done = FALSE
            for x in okc:
                done = OR(done, is_(x, 'Ok'))
            c.need(done != FALSE and entails(gi, done), 'every-member-marked', o, f'member {short(e)} of a returned cluster without a successful claim ({[short(x.a[2][1]) for x in claims]})',
                   opaque=opaque_in(cl, b(h)) or any(x.op in ('store', 'swap') for x in claims))
            full = AND(U, done)
        else:
            full = U
            c.need(U != FALSE and entails(AND(g, h), U), 'members-are-unassigned-query-results', o, f'{short(e)} is taken if {short(h)}', opaque=opaque_in(b(h)) and not by_id(e, R, h, U))
        # nothing is left out: every unassigned result joins
        c.need(U != FALSE, 'members-are-unassigned-query-results', o, f'no test that {short(e)} is unassigned', opaque=opaque_in(b(h)))
        c.entail(AND(g, full), h, 'members-are-unassigned-query-results', o, f'an unassigned result is left out: taken only if {short(h)}', opaque=opaque_in(e))
    if start is None:
        return
    # ---- every given point gets its turn; only an unassigned one starts a cluster
    ap = all_points(o, start, bs, pts)
    c.need(ap, 'every-point-gets-its-turn', o, f'start {short(start)} for {[short(x.a[1]) for x in bs]}', opaque=ap is None)
    US = free_guard(start, R, g)
    c.need(US != FALSE and entails(g, US), 'started-by-an-unassigned-point', o, f'cluster returned if {short(g)}', opaque=opaque_in(b(g)))
    enough = NOT(pos(sub(mins, n)))
    rest = TRUE
    for a in atoms_of(g):
        if a.op == 'exists' and all_cas(a):
            rest = AND(rest, NOT(atom(a)))
        elif a.op == 'is' and a.a[0].op == 'atomic' and a.a[0].a[0].startswith('compare_exchange'):
            rest = AND(rest, atom(a))
    c.entail(AND(US, enough, rest), g, 'cluster-made-whenever-possible', o, f'only if {short(g)}', opaque=opaque_in(start, n))
    if par:
        # ---- unique ids
        fa = [x for x in subterms(cid) if x.op == 'atomic']
        vs = [mk('bv', x.a[0]) for x in bs]
        ok = False
        if len(fa) == 1 and fa[0].a[0] == 'fetch_add' and fa[0].a[1] is fld(me, R.seq):
            k = fa[0].a[2][0]
            ok = sub(cid, fa[0]).op == 'const' and k.op == 'const' and k.a[1] != 0 and set(vs) <= set(fa[0].a[3])
        seqw = [e for e in o.effects if e.op == 'atomic' and e.recv is fld(me, R.seq) and e.aop != 'load']
        if not ok and len(fa) == 1 and fa[0].a[0] == 'load' and len(seqw) == 1 and seqw[0].aop == 'store':
            # read and advanced while the lock is held
            e = seqw[0]
            held = [k for k in o.effects if k.op == 'lock' and k.seq < e.seq and k.loops == e.loops and entails(e.guard, k.guard)]
            x = e.res.a[2][0]
            ld = [y for y in subterms(x) if y.op == 'atomic' and y.a[4] == fa[0].a[4]]
            ok = bool(held) and len(ld) == 1 and sub(x, ld[0]) is sub(cid, fa[0]) and sub(x, ld[0]).op == 'const' and sub(x, ld[0]).a[1] != 0
            c.need(ok, 'ids-are-unique', o, f'cluster id {short(cid)}', e.sp, opaque=bool(held))
        else:
            c.need(ok, 'ids-are-unique', o, f'cluster id {short(cid)}', opaque=opaque_in(cid) or any(x.a[0] in ('swap', 'fetch_update') for x in fa))
            for e in seqw:
                if e.aop != 'fetch_add':
                    c.need(False, 'ids-are-unique', o, f'{e.aop} on the id sequence', e.sp, opaque=e.aop in ('fetch_max', 'fetch_update'))


def stalls(t):
    """a carried number that stays as it is from some value on"""
    for q in subterms(t):
        if q.op != 'phi':
            continue
        for g, y in parts_of(q):
            ats = atoms_of(g)
            if y.op == 'mv' and ats and any(z is not y and sub(z, y).op == 'const' for _, z in parts_of(q)) \
                    and all(a.op in ('pos', 'eqz') and set(leaves(a)) == {y} for a in ats):
                return True
    return False


def leaves(t):
    return [x for x in subterms(t) if x.op in ('mv', 'param', 'at', 'fld', 'len', 'call', 'get', 'bv', 'rec', 'sum')]


def serial_ids(c, R, o, me, cs):
    fin = fld(final(o, me), R.seq)
    s0 = fld(me, R.seq)
    for bs, g, cl in cs:
        if cl.op != 'agg' or len(bs) != 1:
            c.open('ids-are-unique', o, short(cl))
            continue
        cid = fld(cl, R.cid)
        n = bs[0].a[1]
        env = {mk('bv', bs[0].a[0]): ITEM}
        k1, g1 = subst(cid, env), subst_guard(g, env)
        base, rank = PST.find_sum(k1)
        delta = sub(base, s0)
        num = PST.count_of(n, g1)
        hi = delta.a[1] if delta.op == 'const' else None
        fresh = rank is not None and hi is not None and (rank == g1 and fin is add(s0, num) or rank == TRUE and fin is add(s0, n))
        c.need(fresh, 'ids-are-unique', o, f'ids {short(cid)}, next sequence {short(fin)}',
               opaque=(opaque_in(cid, fin) and not stalls(cid)) or (rank is None and any(x.op == 'sum' for x in subterms(cid))))
        # ---- marks
        P = fld(cl, R.points)
        if P.op != 'coll' or len(P.a[2]) != 1:
            continue
        sets = [e for e in o.effects if e.op == 'cellset' and e.loc[0][1].op == 'cellof' and e.loc[0][1].a[0].op == 'fld' and e.loc[0][1].a[0].a[1] == R.marker]
        gb, gg, e0 = P.a[2][0]
        bb = list(bs) + list(gb)
        found, why, opq = False, 'no marker is set', False
        for e in sets:
            env2, Ls = binders_to_loops(o, bb, [e])
            val = norm(e.args[0], o.loops)
            if env2 is None or len(e.loops) != len(bb):
                # the marks follow the list of members itself
                pt = e.loc[0][1].a[0].a[0]
                seq, ix = at_index(pt)
                env2, Ls = binders_to_loops(o, bs, [e])
                if env2 is not None and len(e.loops) == len(bs) + 1 and seq is not None and seq is subst(P, env2) and ix is mk('idx', e.loops[-1]) \
                        and o.loops[e.loops[-1]].count is ln(seq) and equiv(normg(e.guard, o.loops), normg(subst_guard(g, env2), o.loops)) \
                        and val is some(norm(subst(cid, env2), o.loops)):
                    found = True
                    break
                why, opq = f'marks {short(pt)} with {short(val)}', True
                continue
            want = fld(subst(e0, env2), R.marker)
            envo = {mk('bv', x.a[0]): env2[mk('bv', x.a[0])] for x in bs}
            wv = some(norm(subst(cid, envo), o.loops))
            wg = normg(AND(subst_guard(g, envo), subst_guard(gg.a[0], env2)), o.loops)
            eg = normg(e.guard, o.loops)
            if e.loc[0][1].a[0] is want and val is wv and equiv(eg, wg):
                found = True
                break
            why = f'sets {short(e.loc[0][1].a[0])} to {short(val)} if {short(eg)}; members are {short(subst(e0, env2))} of cluster {short(wv)} if {short(wg)}'
            opq = opaque_in(val, b(eg), b(wg), e.loc[0][1])
            extra = [a for a in atoms_of(eg) if a not in atoms_of(wg)]
            if e.loc[0][1].a[0] is want and val is wv and extra and implies(eg, wg) and not implies(wg, eg) \
                    and not opaque_in(*[rewrite(a, lambda x: mk('param', -31, 'SOFAR') if x.op == 'len' and x.a[0].op == 'mu' and x.a[0].a[0] in e.loops else None) for a in extra]):
                opq, why = False, f'only the members with {[short(a) for a in extra]} are marked'
                break
        c.need(found, 'every-member-marked', o, why, opaque=opq)
        if len(sets) > 1:
            c.need(False, 'only-members-marked', o, f'{len(sets)} places set the marker', sets[1].sp, opaque=True)
        elif found:
            c.ok('only-members-marked', o)


# ---------------------------------------------------------------- C17
def is_ptr_of(t, cid, R):
    return t.op == 'agg' and t.a[0].endswith('Cluster') and fld(t, R.cid) is cid


def c17(c):
    R = [x for x in cluster_fns(c) if x.mod == 'clusterer_parallel'][0]
    on = R.fields_of_clusterer(c)
    no_foreign_deref(c, R)
    for name in ('cluster', 'cluster_par'):
        o = c.summ(c.fn('Clusterer', name, mod=R.mod), anchors=())
        cs = clusters_returned(c, o, R)
        if cs is None:
            c.open('clusters', o, o.error or short(o.ret))
            continue
        me = o.args[0]
        marks = [e for e in o.effects if e.op == 'atomic' and e.recv.op == 'fld' and e.recv.a[0] is not me and e.recv.a[1] == R.marker
                 and not (e.recv.a[0].op == 'agg')]
        writes = [e for e in marks if e.aop != 'load']
        claims, rels = [], []
        for e in writes:
            a = e.res.a[2]
            if e.aop.startswith('compare_exchange'):
                if a[0] is mk('null') and a[1] is not mk('null'):
                    claims.append(e)
                    c.ok('claim-only-unassigned', o, e.sp)
                    if a[1].op == 'ref':
                        c.bad('marked-with-its-own-cluster', o, f'the point is marked with the address of the local {short(a[1])}', e.sp)
                    continue
                if a[1] is mk('null') and a[0] is not mk('null'):
                    rels.append(e)
                    if e.aop.endswith('weak'):
                        c.bad('failed-attempt-releases', o, 'a weak exchange may fail and leave the point claimed', e.sp)
                    continue
                c.need(False, 'claim-only-unassigned', o, f'{short(e.res)}: the expected value is neither null nor its own cluster', e.sp, opaque=opaque_in(a[0], a[1]))
            elif e.aop in ('store', 'swap') and a[0] is mk('null'):
                rels.append(e)
            else:
                c.need(False, 'claim-only-unassigned', o, f'{e.aop} on the cluster marker of a point takes it whatever its state', e.sp, opaque=opaque_in(*[x for x in a if x.op != 'agg']))
        c.need(bool(claims), 'claim-only-unassigned', o, 'no point is ever claimed')
        exclusive(c, R, o, me, claims, rels)
        for bs, g, cl in cs:
            if cl.op == 'agg' and cl.a[0].endswith('Cluster'):
                committed(c, R, o, bs, g, cl, claims)
                pts = [a for a, f in zip(o.args, o.fn.j['inputs']) if 'Vec' in str(f) and 'ClusterPointInner' in str(f)]
                one(c, R, True, o, name, me, pts[0] if pts else o.args[1], fld(me, R.minsize), bs, g, cl, only=('every-member-marked', 'ids-are-unique'))
                rollback(c, R, o, bs, g, cl, claims, rels)
            else:
                c.open('clusters', o, short(cl))
        chunk_size(c, o)


def chunk_size(c, o):
    for e in o.effects:
        if e.op == 'panic' and 'chunk' in str(getattr(e, 'kind', '')):
            c.need(e.guard == FALSE, 'chunk-size-positive', o, f'chunk size may be zero if {short(e.guard)}', e.sp, opaque=opaque_in(b(e.guard)))


def exclusive(c, R, o, me, claims, rels):
    """claims and releases happen while the creation lock is held, from before the first claim to after the last release"""
    locks = [e for e in o.effects if e.op == 'lock']
    drops = [e for e in o.effects if e.op == 'drop' and any(x.op == 'guard' for x in subterms(e.args[0]))]
    for e in claims + rels:
        held = None
        why = 'no lock is taken before it'
        opq = False
        for k in locks:
            if k.seq > e.seq or k.loops != e.loops[:len(k.loops)] or not entails(e.guard, k.guard):
                continue
            gt = k.args[0]
            if not (gt.op == 'guard' and gt.a[1].op == 'fld' and gt.a[1].a[0] is me):
                why = f'the lock {short(gt)} is not shared by the threads'
                continue
            if gt.a[0] == 'read':
                why = 'a read lock does not exclude other threads'
                continue
            if gt.a[0] == 'try_lock':
                got = is_(mk('call', 'try_lock', (gt,)), 'Ok')
                if not entails(e.guard, got):
                    why = 'the lock is only tried, and this happens whether or not it was free'
                    opq = opq or any(x is gt for x in subterms(b(e.guard)))
                    continue
            gone = [d for d in drops if k.seq < d.seq < e.seq and any(x is gt for x in subterms(d.args[0])) and AND(d.guard, e.guard) != FALSE and
                    d.loops == e.loops[:len(d.loops)]]
            if gone:
                why = f'the lock is released before it ({gone[0].sp})'
                continue
            held = gt
            break
        c.need(held is not None, 'one-cluster-created-at-a-time', o, f'{short(e.res, 80)}: {why}', e.sp, opaque=opq)


def committed(c, R, o, bs, g, cl, claims):
    if R.state is None:
        c.open('returned-cluster-is-committed', o, 'no state')
        return
    st = fld(cl, R.state)
    env, Ls = binders_to_loops(o, bs, claims)
    effs = [e for e in o.effects if e.op == 'atomic' and e.recv is (subst(st, env) if env else st) and e.aop != 'load']
    init = st.a[1] if st.op == 'cellnew' else None
    fk = c.find('Cluster', 'is_commited', mod=R.mod) + c.find('Cluster', 'is_committed', mod=R.mod)
    com = None
    if fk:
        oc = c.summ(fk[0], anchors=())
        for x in subterms(oc.ret):
            if x.op == 'atomic' and x.a[0] == 'load':
                for n in range(0, 8):
                    if truth(oc.ret) == eq(x, ci(n)):
                        com = ci(n)
    done, vals, others = FALSE, [], []
    gi = subst_guard(g, env) if env else g
    for e in effs:
        a = e.res.a[2]
        if e.aop.startswith('compare_exchange'):
            new, cond = a[1], AND(e.guard, is_(e.res, 'Ok'))
            if init is not None and a[0].op == 'const' and init.op == 'const' and a[0] is not init:
                cond = FALSE
        elif e.aop in ('store', 'swap'):
            new, cond = a[0], e.guard
        else:
            continue
        hit = AND(gi, cond) != FALSE and entails(gi, cond)
        if hit and (com is None or new is com):
            done = OR(done, cond)
            vals.append(new)
        else:
            others.append((new, e))
    opq = opaque_in(st, b(gi)) or env is None
    c.need(done != FALSE and entails(gi, done), 'returned-cluster-is-committed', o, f'returned if {short(gi)}' + (f', committed is {short(com)}' if com is not None else ''), opaque=opq)
    for v in vals:
        if init is not None and v is init:
            c.bad('returned-cluster-is-committed', o, f'the committed state {short(v)} is the state of a new cluster')
        for w, e in others:
            c.need(w is not v, 'returned-cluster-is-committed', o, f'a failed cluster gets the committed state {short(w)} too', e.sp, opaque=opaque_in(w, v))


def rollback(c, R, o, bs, g, cl, claims, rels):
    env, Ls = binders_to_loops(o, bs, claims)
    if env is None:
        c.open('failed-attempt-releases', o, 'the loops of the attempt were not matched')
        return
    S = subst_guard(g, env)
    cid = subst(fld(cl, R.cid), env)
    for k in claims:
        if len(k.loops) != len(Ls) + 1:
            c.open('failed-attempt-releases', o, 'claims outside a loop over the points', k.sp)
            continue
        Lc = k.loops[-1]
        info = o.loops[Lc]
        i = mk('idx', Lc)
        N = info.count
        ptr = k.res.a[2][1]
        if ptr.op == 'agg' and fld(ptr, R.cid) is not cid:
            c.need(False, 'marked-with-its-own-cluster', o, f'points are marked with cluster {short(fld(ptr, R.cid))}, the cluster returned is {short(cid)}', k.sp, opaque=opaque_in(ptr))
        early = info.early
        # guard of the attempt as a whole, and of the single claim
        ab, cd = split_guard(k.guard, Lc)
        claimed_if = AND(cd, is_(k.res, 'Ok'))
        pt = k.recv.a[0]
        kk = 1 + max(bdd_bv(early), N.bv, 40)
        w = mk('bv', kk)
        cases = []
        if early != FALSE:
            ee = normg(early, o.loops)
            k0 = 1 + max(bdd_bv(ee), N.bv)
            bd = binder(k0, N, tuple(info.flags))
            left = exists(bd, subst_guard(ee, {i: mk('bv', k0)}))
            first = mk('first', bd, b(subst_guard(ee, {i: mk('bv', k0)})))
            cases.append(('stops at a point it cannot claim', left, first))
            cases.append(('goes through all points', NOT(left), N))
        else:
            cases.append(('goes through all points', TRUE, N))
        for what, kc, bound in cases:
            failing = AND(ab, kc, NOT(S))
            if failing == FALSE or entails(failing, FALSE):
                c.ok('failed-attempt-releases', o, f'{what}: returned')
                continue
            cover = FALSE
            whys = []
            opq = opaque_in(b(failing), bound)
            for r in rels:
                if r.seq < k.seq or len(r.loops) != len(Ls) + 1 or r.loops[:len(Ls)] != Ls:
                    continue
                a = r.res.a[2]
                own = r.aop.startswith('compare_exchange') and is_ptr_of(a[0], cid, R)
                if r.aop.startswith('compare_exchange') and not own:
                    whys.append(f'expects {short(a[0])}, not its own cluster')
                    opq = opq or opaque_in(a[0]) and a[0].op != 'agg'
                    continue
                ra, rd = split_guard(r.guard, r.loops[-1])
                if AND(ra, failing) == FALSE:
                    continue
                st = covers(o, r, rd, AND(ra, failing), pt, i, bound, claimed_if, exact=not own)
                if st is True:
                    cover = OR(cover, ra)
                else:
                    whys.append(f'{r.sp}: releases {short(r.recv.a[0])} for {short(o.loops[r.loops[-1]].count)} points; claimed {short(pt)} for {short(bound)}')
                    opq = opq or st is None
            c.need(entails(failing, cover), 'failed-attempt-releases', o, f'attempt that {what} and fails if {short(AND(failing, NOT(cover)))} keeps the points it claimed; ' + '; '.join(whys), k.sp, opaque=opq)


def split_guard(g, L):
    """guard = (part that does not depend on the loop index, the rest)"""
    outer = g
    for a in atoms_of(g):
        if L in a.fr:
            outer = OR(cofactor(outer, a, True), cofactor(outer, a, False))
    return outer, g


def covers(o, r, rd, ctx, pt, i, bound, claimed_if, exact):
    """every claimed point pt(i), i < bound, claimed_if(i), is among the points r releases"""
    seq, ix = at_index(r.recv.a[0])
    Lr = r.loops[-1]
    j = mk('idx', Lr)
    n = o.loops[Lr].count
    if seq is not None and seq.op in ('coll', 'phi') and n is ln(seq):
        seq = under(seq, ctx)
        n = ln(seq)
    if o.loops[Lr].early != FALSE:
        return False
    env = {i: j}
    inner = rd
    for a in atoms_of(rd):
        if Lr not in a.fr:
            inner = OR(cofactor(inner, a, True), cofactor(inner, a, False))
    if r.recv.a[0] is subst(pt, env):
        # by the same index
        if n is not bound and not (n is o.loops[[x for x in i.a][0]].count and not exact):
            return None if opaque_in(n) else False
        rel_if = inner
        return entails(subst_guard(claimed_if, env), rel_if)
    if seq is not None and seq.op == 'coll' and ix is j:
        if n is not ln(seq):
            return None if opaque_in(n) else False
        if inner != TRUE:
            return None if opaque_in(b(inner)) else False
        if len(seq.a[2]) != 1 or len(seq.a[2][0][0]) != 1:
            return None
        (bd,), h, e = seq.a[2][0]
        v = mk('bv', bd.a[0])
        ev = {i: v}
        if e is not subst(pt, ev):
            return None if opaque_in(e) else False
        full = o.loops[i.a[0]].count
        if bd.a[1] is not bound and not (bd.a[1] is full and not exact):
            return None if opaque_in(bd.a[1]) else False
        return entails(subst_guard(claimed_if, ev), h.a[0])
    return None if seq is None or opaque_in(seq) or seq.op not in ('coll', 'call', 'param', 'slice') else False


def callee(t):
    if t.get('t') != 'call':
        return ''
    return strip_generics((((t.get('f') or {}).get('ty') or {}).get('f') or {}).get('path') or '')


def no_foreign_deref(c, R):
    """no function dereferences a raw pointer to a cluster (it may belong to another thread)"""
    n = 0
    for k, f in c.P.fns.items():
        if R.mod not in f['path'] or f['crate'] != 'gaoya':
            continue
        n += 1
        boxed = set()
        bad = []

        def walk(x):
            if isinstance(x, list):
                for y in x:
                    walk(y)
            elif isinstance(x, dict):
                if 'l' in x and 'p' in x and isinstance(x['p'], list):
                    t = f['locals'][x['l']]
                    if '*' in x['p'] and t.get('k') == 'ptr' and x['l'] not in boxed and x['p'].index('*') == 0:
                        bad.append(x['l'])
                for y in x.values():
                    if isinstance(y, (list, dict)):
                        walk(y)
        for bb in f['bbs']:
            for s in bb['st'] if 'st' in bb else bb.get('stmts', []):
                rv = s.get('rv') or {}
                if rv.get('r') == 'cast' and rv.get('kind') == 'BoxDerefTransmute':
                    boxed.add((s.get('place') or {}).get('l'))
        walk(f['bbs'])
        for bb in f['bbs']:
            t = bb['term']
            nm = callee(t)
            if nm.split('::')[-1] in ('as_ref', 'as_mut', 'from_raw', 'read', 'as_ref_unchecked') and ('ptr' in nm or 'Box' in nm):
                bad.append(nm)
        if bad:
            # the cluster being built may be reached through its own pointer, which is not loaded from a point
            loads = any(callee(bb['term']).split('::')[-1] in ('load', 'get_cluster', 'swap') for bb in f['bbs'])
            c.need(False, 'no-foreign-dereference', k, f'raw pointer dereferenced ({bad[0]})', opaque=not loads)
        # the address stored in points is that of the cluster in its box, not of a local that is moved later
        refs = {}
        for bb in f['bbs']:
            for s in bb['st']:
                rv = s.get('rv') or {}
                if rv.get('r') in ('ref', 'rawptr') and not s['place']['p']:
                    pl = rv['place']
                    if not pl['p'] and tyname(f['locals'][pl['l']]) == 'Cluster':
                        if rv['r'] == 'rawptr':
                            c.bad('marked-with-its-own-cluster', k, 'address of a cluster that is a local variable')
                        refs[s['place']['l']] = pl['l']
                    elif rv['r'] == 'rawptr' and pl['p'] == ['*'] and pl['l'] in refs:
                        c.bad('marked-with-its-own-cluster', k, 'address of a cluster that is a local variable')
    c.ok('no-foreign-dereference', R.mod, f'{n} functions')
