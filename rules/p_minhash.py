"""C01-C05, C07 (MinHash part), C25 (MinHash part)."""
from .minhash import *
from . import graph as G


def query_of(r, q, items):
    """the query signature a result belongs to"""
    if items is None:
        return q
    if not r.outer:
        return None
    bs = r.outer[0]
    return at(items, mk('bv', bs[0].a[0]))


# ------------------------------------------------------------------ C01
def c01(c):
    M = MinHash(c)
    for name, o, me, q, items, kind in M.queries():
        rs = results(o.ret)
        if rs is None:
            c.open('result-shape', o, short(o.ret))
            continue
        for r in rs:
            x = r.id
            qq = query_of(r, q, items)
            if qq is None:
                c.need(False, 'bulk-result-per-query', o, short(r.term), opaque=opaque_in(o.ret))
                continue
            g = strip_g(r.guard)
            op = opaque_in(b(g), x)
            c.need(entails(g, isSome(M.stored(me, x))), 'returned-id-is-stored', o,
                   f'{short(x)} is returned under {short(g)}, which does not imply that it is stored', opaque=op)
            if kind == 'topk':
                continue
            st = unwrap(M.stored(me, x))
            ok = any(entails(g, p) for p in M.passes(st, qq, M.thr(me)))
            c.need(ok, 'similarity>=threshold', o,
                   f'{short(x)} is returned under {short(g)}, which does not imply similarity(stored, query) >= threshold', opaque=op)
    # the configured threshold is the constructor's and never changes
    for n in ('new', 'new_index', 'new_with_capacity'):
        o = c.summ(c.fn(OWNER, n))
        c.need(fld(o.ret, M.f_thr) is o.args[2], 'threshold-is-parameter', o, f'threshold is {short(fld(o.ret, M.f_thr))}',
               opaque=opaque_in(o.ret) and o.error is not None)
    config_frozen(c, M, (M.f_thr,))
    # the predicates used above mean what they say
    sim_def(c)


def strip_g(g):
    return strip_mapdel(b(g)).a[0]


def config_frozen(c, M, fields):
    """no method writes a configuration field of the index"""
    for k, f in sorted(c.P.fns.items()):
        im = f.get('implself') or {}
        if f['kind'] == 'Closure' or im.get('p', '').split('::')[-1] != OWNER or not f['inputs']:
            continue
        t = f['inputs'][0]
        if not (t.get('k') == 'ref' and t.get('m')):
            continue
        o = c.summ(k)
        me = o.args[0] if o.args else None
        for e in o.effects:
            if e.loc and e.loc[0] == ('V', me) and e.op not in ('capacity', 'read'):
                p = e.loc[1]
                if not p or (p[0][0] == 'f' and p[0][1] in fields):
                    if p and p[0][1] == M.f_bands and len(p) >= 3 and p[2][0] == 'f' and p[2][1] == M.f_table:
                        continue
                    c.bad('configuration-frozen', o, f'{e.op} of {showloc(*e.loc)}', e.sp)
                    continue
        c.ok('configuration-frozen', o)


def sim_def(c):
    """similarity = number of agreeing positions / length"""
    k = c.fn('', 'compute_minhash_similarity', mod='minhash')
    o = c.summ(k, anchors=())
    p, q = o.args[:2]
    c.need(is_match_ratio(o.ret, p, q), 'similarity-is-match-ratio', o, short(o.ret), opaque=opaque_in(o.ret))
    try:
        k2 = c.fn('', 'similarity_greater_than_threshold', mod='minhash')
    except Missing:
        return
    o2 = c.summ(k2)
    p, q, th = o2.args[:3]
    path = c.P.fns[k]['path']
    want = [b(NOT(flt(mk('call', path, xy), th))) for xy in ((p, q), (q, p))]
    got = b(truth(o2.ret)) if o2.ret.op in ('b', 'phi') else o2.ret
    ok = got in want
    if not ok:
        o3 = c.summ(k2, anchors=())
        r3 = o3.ret
        if r3.op == 'b' and r3.a[0] > 1:
            ats = atoms_of(r3.a[0])
            ok = len(ats) == 1 and ats[0].op == 'flt' and r3.a[0] == NOT(atom(ats[0])) and ats[0].a[1] is o3.args[2] \
                and is_match_ratio(ats[0].a[0], o3.args[0], o3.args[1])
            ok = ok or is_prefix_reach(r3.a[0], *o3.args[:3])
            for x in ats:
                # whatever it says for empty signatures
                if x.op == 'flt' and x.a[1] is o3.args[2] and is_match_ratio(x.a[0], o3.args[0], o3.args[1]):
                    ne = AND(pos(ln(o3.args[0])), pos(ln(o3.args[1])))
                    ok = ok or AND(r3.a[0], ne) == AND(NOT(atom(x)), ne)
        if not ok:
            c.need(False, 'predicate-is-similarity>=threshold', o2, short(r3), opaque=opaque_in(r3))
            return
    c.ok('predicate-is-similarity>=threshold', o2)


def is_match_ratio(t, p, q):
    """t = (number of positions where p and q agree) / (their common length), as floats"""
    if t.op != 'fdiv':
        return False
    n, d = t.a[0], t.a[1]
    n, d = uncast(n), uncast(d)
    if n is None or d is None:
        return False
    if d not in (ln(p), ln(q)):
        return False
    return is_match_count(n, p, q)


def is_prefix_reach(g, p, q, th):
    """some prefix of the positions already has a match ratio >= th: the same as the whole having it, counts being monotone"""
    for a in atoms_of(g):
        if a.op != 'exists' or g != atom(a):
            continue
        bd, cond = a.a[0], a.a[1].a[0]
        if bd.a[2] or bd.a[1] not in (ln(p), ln(q), minmax('min', ln(p), ln(q))):
            continue
        ats = atoms_of(cond)
        v = mk('bv', bd.a[0])
        fl = [x for x in ats if x.op == 'flt']
        if len(fl) != 1 or cond != NOT(atom(fl[0])) or fl[0].a[1] is not th:
            continue
        t = fl[0].a[0]
        if t.op != 'fdiv' or uncast(t.a[1]) not in (ln(p), ln(q)):
            continue
        n = uncast(t.a[0])
        m = eq(at(p, v), at(q, v))
        for s in subterms(n):
            if s.op == 'sum' and s.a[0].a[1] is v and s.a[2] is ci(1) and not s.a[0].a[2] and not (len(s.a) > 3 and s.a[3]):
                w = mk('bv', s.a[0].a[0])
                if s.a[1].a[0] == eq(at(p, w), at(q, w)) and n is phi([(m, add(s, ci(1))), (NOT(m), s)]):
                    return True
    return False


def uncast(t):
    while t.op in ('i2f', 'cast', 'tofloat', 'float'):
        t = t.a[0] if isinstance(t.a[0], T) else t.a[1]
    return t


def covered(n, p, q, miss):
    """the intervals of positions whose agreement n counts, when n is a sum of such counts (lengths taken as equal)"""
    n = subst(n, {ln(q): ln(p)})
    out, strided = [], {}
    for m, k in to_poly(n).items():
        if k != 1 or len(m) != 1 or m[0].op != 'sum':
            return None
        s = m[0]
        if len(s.a) > 3 and s.a[3] or s.a[0].a[2]:
            return None
        bds, g, d = [s.a[0]], s.a[1].a[0], s.a[2]
        if g == TRUE and d.op == 'sum' and not d.a[0].a[2] and not (len(d.a) > 3 and d.a[3]):
            bds.append(d.a[0])
            g, d = d.a[1].a[0], d.a[2]
        if d is not ci(1):
            return None
        ats = atoms_of(g)
        ix = {x.a[1] for a in ats for x in subterms(a) if x.op == 'at' and x.a[0] is p}
        if len(ix) != 1:
            return None
        ix = ix.pop()
        w = eq(at(p, ix), at(q, ix))
        if g != (NOT(w) if miss else w):
            return None
        v = mk('bv', bds[-1].a[0])
        P = to_poly(ix)
        k = P.get((v,), 0)
        if k > 1 and len(bds) == 1:
            strided.setdefault((k, bds[0].a[1]), set()).add(sub(ix, mul(v, ci(k))))
            continue
        if k != 1:
            return None
        off = from_poly({x: y for x, y in P.items() if x != (v,)})
        if v in subterms(off):
            return None
        cnt = bds[-1].a[1]
        if len(bds) == 2:
            # blocks of step positions, one after the other
            u = mk('bv', bds[0].a[0])
            step = to_poly(off).get((u,), 0)
            lo = sub(off, mul(u, ci(step)))
            if step < 1 or u in subterms(lo):
                return None
            if cnt is ci(step):
                hi = add(lo, mul(bds[0].a[1], ci(step)))
            elif lo is ci(0) and cnt is sub(minmax('min', ln(p), mul(add(u, ci(1)), ci(step))), mul(u, ci(step))) \
                    and bds[0].a[1] is div(add(ln(p), ci(step - 1)), ci(step)):
                hi = ln(p)
            else:
                return None
        else:
            lo, hi = off, add(off, cnt)
        out.append((lo, hi))
    for (k, cnt), offs in strided.items():
        # k interleaved progressions make one interval
        lo = min(offs, key=lambda x: to_poly(x).get((), 0))
        if {add(lo, ci(r)) for r in range(k)} != offs:
            return None
        out.append((lo, add(lo, mul(cnt, ci(k)))))
    return out


def is_match_count(n, p, q, miss=False):
    iv = covered(n, p, q, miss)
    if iv and chain(iv, ln(p)) and not any(chain(iv[:i] + iv[i + 1:], ln(p)) for i in range(len(iv))):
        return True
    if n.op == 'poly':
        # all minus the others (the lengths are equal)
        for N in (ln(p), ln(q)):
            m = sub(N, n)
            if m.op == 'sum' and is_match_count(m, p, q, not miss):
                return True
        return False
    if n.op != 'sum' or n.a[2] is not ci(1) or (len(n.a) > 3 and n.a[3]):
        return False
    bd = n.a[0]
    v = mk('bv', bd.a[0])
    if bd.a[2]:
        return False
    cnts = (ln(p), ln(q), minmax('min', ln(p), ln(q)))
    if bd.a[1] not in cnts:
        return False
    g = eq(at(p, v), at(q, v))
    return n.a[1].a[0] == (NOT(g) if miss else g)


# ------------------------------------------------------------------ C02
def key_slices(K):
    """(lo, hi) of the only part of SIG the key depends on"""
    inner = set()

    def f(x):
        if x.op == 'slice' and x.a[0] is SIG:
            inner.add((x.a[1], x.a[2]))
            return mk('param', -20, 'SL')
    t = rewrite(K, f)
    return inner, SIG in subterms(t)


def c02(c):
    M = MinHash(c)
    K, oi, me = M.key_model()
    if K is None:
        c.need(False, 'insert-adds-to-every-band', oi, 'no band table receives the id', opaque=any(opaque_in(*e.args) for e in oi.effects) or bool(oi.error))
        return
    sl, other = key_slices(K)
    nd = nondet_calls(K)
    c.need(not nd, 'key-deterministic', oi, f'the band key calls {nd}')
    c.need(not other and len(sl) >= 1, 'key-depends-only-on-band-rows', oi, short(K), opaque=opaque_in(K, extra=()) and not sl)
    # band ranges tile the signature
    for n in ('new', 'new_index', 'new_with_capacity'):
        o = c.summ(c.fn(OWNER, n))
        nb, w = o.args[0], o.args[1]
        bands = fld(o.ret, M.f_bands)
        c.need(ln(bands) is nb, 'one-band-per-requested-band', o, f'{short(ln(bands))} bands', opaque=opaque_in(bands))
        for lo, hi in sl:
            lo_, hi_ = (subst(x, {ME: o.ret}) for x in (lo, hi))
            okk = lo_ is mul(BAND, w) and hi_ is add(mul(BAND, w), w)
            c.need(okk, 'bands-tile-the-signature', o, f'band b covers rows {short(lo_)}..{short(hi_)}', opaque=opaque_in(lo_, hi_))
    config_frozen(c, M, (M.f_bands,))
    inserts(c, M, K)
    removal_local(c, M, K)
    keyeq(c, M)
    # queries
    for name, o, me, q, items, kind in M.queries():
        rs = results(o.ret)
        if rs is None:
            c.open('result-shape', o, short(o.ret))
            continue
        ivs, why = [], []
        for r in rs:
            qq = query_of(r, q, items)
            if qq is None:
                continue
            res = candidate(M, K, r, me, qq, kind, o.args[2] if kind == 'topk' else None)
            if res[0] == 'ok':
                ivs.append(res[1])
            else:
                why.append(res[1])
        lim = [t for r in rs for t in r.tags if t[0] == 'lossy' or t[0] == 'slice' and kind != 'topk']
        why += [f'results with the same {short(t[1])} are dropped' for t in lim if t[0] == 'lossy']
        if chain(ivs, ln(M.bands(me))) and not lim:
            if items is not None:
                bs = rs[0].outer[0]
                full = len(bs) == 1 and bs[0].a[1] is ln(items) and not (set(bs[0].a[2]) - {'par'})
                c.need(full, 'query-covers-all-bands', o, 'not every query of the batch is answered', opaque=opaque_in(o.ret))
            else:
                c.ok('query-covers-all-bands', o)
        else:
            c.need(False, 'query-covers-all-bands', o, '; '.join(why)[:600] or f'covered {[(short(x), short(y)) for x, y in ivs]}',
                   opaque=opaque_in(o.ret))
        if name == 'query_one':
            none_only_if_empty(c, o, rs)


def none_only_if_empty(c, o, rs):
    some = FALSE
    for g, t in parts_of(o.ret):
        if t.op == 'agg' and t.a[1] == 'Some':
            some = OR(some, g)
    w = FALSE
    for r in rs:
        w = OR(w, pos(ln(r.term)))
    c.need(entails(w, some), 'none-only-without-match', o, f'Some under {short(some)}', opaque=opaque_in(o.ret))


def candidate(M, K, r, me, q, kind, limit=None):
    """does this comprehension enumerate every entry of every band whose key equals that of q?"""
    x = strip_mapdel(r.id)
    bs = r.binders
    if not (x.op == 'at' and x.a[1].op == 'bv'):
        return 'no', f'element {short(x)} is not a member of a band container'
    C = x.a[0]
    b1 = [z for z in bs if z.a[0] == x.a[1].a[0]]
    if not b1 or b1[0].a[1] is not ln(C) or set(b1[0].a[2]) - {'set', 'par'}:
        return 'no', f'members visited: {short(b1[0]) if b1 else "?"}'
    if not (C.op == 'fld' and C.a[0].op == 'get'):
        return 'no', f'{short(C)} is not a band container'
    tab, key = C.a[0].a[0], C.a[0].a[1]
    if not (tab.op == 'fld' and tab.a[1] == M.f_table and tab.a[0].op == 'at' and tab.a[0].a[0] is M.bands(me)):
        return 'no', f'{short(tab)} is not a band table'
    ix = tab.a[0].a[1]
    b2 = [z for z in bs if mk('bv', z.a[0]) in subterms(ix)]
    if b2:
        if set(b2[0].a[2]) - {'set', 'par'}:
            return 'no', f'bands visited: {short(b2[0])}'
        iv = lin_index(ix, b2[0])
    else:
        iv = (ix, add(ix, ci(1)))
    if iv is None:
        return 'no', f'band index {short(ix)}'
    if set(bs) - set(b1) - set(b2):
        return 'no', 'another loop decides'
    want = subst(K, {SIG: q, BAND: ix, ME: me})
    if key is not want and M.kc(key, me) is not M.kc(want, me):
        return 'no', f'looked up under {short(key)}, inserted under {short(want)}'
    e = AND(isSome(get(tab, key)), isSome(M.stored(me, x)))
    w = AND(pos(ln(C)), pos(ln(M.bands(me))), pos(ln(M.ids(me))), pos(ln(tab)), pos(ln(r.term)))
    for z in bs:
        w = AND(w, pos(sub(z.a[1], mk('bv', z.a[0]))))
    for n in M.n_terms(me):
        w = AND(w, eq(ln(q), n))
    # a query by id has nothing to find when the id is not stored
    if q.op == 'fld' and q.a[0].op == 'get':
        e = AND(e, isSome(q.a[0]))
    g = strip_g(r.guard)
    if kind == 'topk':
        # nothing is asked for when k is 0
        if limit is not None:
            w = AND(w, pos(limit))
        if entails(AND(e, w), g):
            return 'ok', iv
    else:
        for p in M.passes(unwrap(M.stored(me, x)), q, M.thr(me)):
            if entails(AND(e, w, p), g):
                return 'ok', iv
    return 'no', f'an entry is skipped unless {short(restrict(g, AND(e, w)))}'


def route(o, names):
    return o


def inserts(c, M, K):
    """every insertion route adds (id, its signature) to the map and id to every band under the key of that signature"""
    for name in ('insert', 'par_bulk_insert', 'par_bulk_insert_pairs'):
        o = c.summ(c.fn(OWNER, name))
        me = o.args[0]
        if o.error:
            c.open('insert-route', o, o.error)
            continue
        effs = M.effs(o, me)
        # items: (id term, signature term) as stored in the map
        items = []
        for w, bi, k, e in effs:
            if w == 'ids' and e.op == 'insert':
                items.append((e.args[0], e.args[1], e))
        if name == 'insert':
            idt, sigt, n = o.args[1], o.args[2], None
        elif name == 'par_bulk_insert':
            idt, sigt = at(o.args[1], ITEM), at(o.args[2], ITEM)
            n = minmax('min', ln(o.args[1]), ln(o.args[2]))
        else:
            idt, sigt = fld(at(o.args[1], ITEM), 0), fld(at(o.args[1], ITEM), 1)
            n = ln(o.args[1])
        # band containers
        reach = FALSE          # condition under which the id is in the container of band bi
        badw = []
        for w, bi, k, e in effs:
            if w in ('ids',):
                continue
            if w == 'other' or w == 'ids-entry':
                badw.append((e, 'unexpected write'))
                continue
            env = item_env(o, e, bi)
            if env is None:
                badw.append((e, 'not for every item'))
                continue
            okn = covers(o, e, env, ln(M.bands(me)), n)
            key = k if w == 'container' else (e.args[0] if e.args else None)
            if key is None:
                badw.append((e, f'{e.op} of a whole band table'))
                continue
            key_ = subst(key, env)
            want = subst(K, {SIG: sigt, ME: me})
            g = subst_guard(e.guard, env)
            tab = subst(M.table(me, bi), env)
            here = isSome(get(tab, key_))
            if w == 'container' and e.op == 'push':
                if key_ is not want and M.kc(key_, me) is not M.kc(want, me):
                    badw.append((e, f'key {short(key_)} instead of {short(want)}'))
                elif subst(e.args[0], env) is not idt:
                    badw.append((e, f'pushes {short(e.args[0])}'))
                elif not okn:
                    badw.append((e, 'does not run for every band and item'))
                else:
                    reach = OR(reach, g)
            elif w == 'table' and e.op == 'insert':
                if not entails(g, NOT(here)):
                    badw.append((e, 'replaces the container of other ids'))
                elif key_ is not want and M.kc(key_, me) is not M.kc(want, me):
                    badw.append((e, f'key {short(key_)} instead of {short(want)}'))
                elif bag_has(subst(e.args[1], env), idt):
                    if okn:
                        reach = OR(reach, g)
                    else:
                        badw.append((e, 'does not run for every band and item'))
            elif w == 'container' and e.op == 'write' and bag_has(subst(e.args[0], env), idt):
                reach = OR(reach, g)
            elif w == 'container' and e.op == 'remove' and subst(e.args[0], env) is idt:
                pass
            else:
                badw.append((e, f'{e.op}'))
        for e, why in badw:
            c.need(False, 'insert-adds-to-every-band', o, f'{e.op} {showloc(*e.loc)[:80]}: {why}', e.sp,
                   opaque=opaque_in(b(e.guard), *e.args))
        if not badw:
            fx = length_facts(M, me, sigt)
            if n is not None:
                fx = AND(fx, pos(sub(n, ITEM)))
            c.entail(fx, reach, 'insert-adds-to-every-band', o, f'the id reaches its band container only if {short(reach)}')


def length_facts(M, me, sigt):
    f = TRUE
    for n in M.n_terms(me):
        f = AND(f, eq(ln(sigt), n))
    return f


def bag_has(t, x):
    for c_, leaf in parts_of(t):
        if not (leaf.op == 'coll' and any(not bs and g.a[0] == TRUE and e is x for bs, g, e in leaf.a[2])):
            return False
    return True


def item_env(o, e, bi):
    """canonical names for the loop over bands and the loop over items of an effect"""
    env = {}
    rest = list(e.loops)
    if bi is not None:
        if bi.op == 'idx':
            env[bi] = BAND
            if bi.a[0] in rest:
                rest.remove(bi.a[0])
        else:
            return None
    if len(rest) > 1:
        used = [L for L in rest if any(mk('idx', L) in subterms(a) for a in e.args)]
        if len(used) != 1:
            return None
        rest = used
    if rest:
        env[mk('idx', rest[0])] = ITEM
    return env


def covers(o, e, env, nb, n):
    ok = True
    for i, nm in env.items():
        inf = o.loops.get(i.a[0])
        if inf is None or inf.early != FALSE:
            return False
        want = nb if nm is BAND else n
        ok = ok and want is not None and inf.count is want
    for L in e.loops:
        if mk('idx', L) not in env:
            return False
    if n is not None and ITEM not in env.values():
        return False
    return ok


def removal_local(c, M, K):
    """removal takes out exactly the given ids from their own bands and drops a table entry only when it is empty"""
    for name in ('remove', 'bulk_remove'):
        o = c.summ(c.fn(OWNER, name))
        me = o.args[0]
        if o.error:
            c.open('removal-is-local', o, o.error)
            continue
        effs = M.effs(o, me)
        if name == 'remove':
            idt, n = o.args[1], None
        else:
            idt, n = at(o.args[1], ITEM), ln(o.args[1])
        for w, bi, k, e in effs:
            env = item_env(o, e, bi)
            if w == 'ids':
                okk = e.op == 'remove' and env is not None and subst(e.args[0], env) is idt
                c.need(okk, 'removal-is-local', o, f'{e.op} {short(e.args[0]) if e.args else ""} on the id map', e.sp, opaque=opaque_in(*e.args))
                continue
            if w == 'other' or w == 'ids-entry' or env is None:
                c.need(False, 'removal-is-local', o, f'{e.op} {showloc(*e.loc)[:120]}', e.sp, opaque=opaque_in(b(e.guard), *e.args))
                continue
            if w == 'container':
                args = tuple(norm(x, o.loops) for x in e.args)
                okk = e.op == 'remove' and strip_mapdel(subst(args[0], env)) is idt
                c.need(okk, 'removal-is-local', o, f'{e.op} {short(args[0]) if args else ""} on a band container', e.sp,
                       opaque=opaque_in(*args))
            elif w == 'table':
                if e.op == 'remove':
                    key = e.args[0]
                    g = e.guard
                    cont_empty = empties(g, M.table(me, bi), key)
                    c.need(cont_empty, 'removal-is-local', o, f'a band entry is dropped although it may hold other ids (under {short(g)})', e.sp,
                           opaque=opaque_in(b(g)))
                else:
                    c.need(False, 'removal-is-local', o, f'{e.op} on a band table', e.sp, opaque=opaque_in(b(e.guard), *e.args))


def empties(g, tab, key):
    """the guard implies that the container under key is empty"""
    for a in atoms_of(g):
        if a.op == 'pos' and a.a[0].op == 'len':
            if implies(g, NOT(atom(a))):
                src = a.a[0].a[0]
                if contains(src, key) or any(x is key for x in subterms(src)):
                    return True
    return False


def keyeq(c, M):
    """the key type of the band tables: equal keys hash equally, keys are equal when their contents are"""
    kt = M.table_ty['a'][0]
    if kt.get('k') != 'adt' or kt['key'] not in c.P.adts:
        c.ok('key-type', c.fn(OWNER, 'insert'), 'library key type')
        return
    nm = kt['p'].split('::')[-1]
    nf = len(c.P.adts[kt['key']]['variants'][0]['fields'])
    ek = c.find(nm, 'eq', 'PartialEq')
    hk = c.find(nm, 'hash', 'Hash')
    if not ek or not hk:
        c.open('key-type', c.fn(OWNER, 'insert'), nm)
        return
    o = c.summ(ek[0])
    me, ot = o.args[:2]
    want = AND(*[eq(fld(me, i), fld(ot, i)) for i in range(nf)])
    got = truth(o.ret)
    c.need(implies(want, got), 'keys-equal-when-contents-equal', o, short(o.ret), opaque=opaque_in(o.ret))
    h = c.summ(hk[0])
    used = set()
    st = subterms(tuple(x for e in h.effects for x in e.args) + (h.ret,))
    for i in range(nf):
        if fld(h.args[0], i) in st:
            used.add(i)
    nd = [n for e in h.effects for x in e.args for n in nondet_calls(x)]
    c.need(not nd, 'key-hash-deterministic', h, str(nd))
    for k in G.reach(c.P, [ek[0], hk[0]])[0]:
        ad = list(G.addresses(c.P.fns[k])) if k in c.P.fns else []
        c.need(not ad, 'key-hash-deterministic', k, 'a memory address becomes part of the key', ad[0] if ad else "")
    # the hash may only use fields that equality compares
    cmpd = {i for i in range(nf) if fld(me, i) in subterms(o.ret)}
    c.need(used <= cmpd, 'equal-keys-hash-equally', h, f'hash uses fields {sorted(used)}, eq compares {sorted(cmpd)}')


# ------------------------------------------------------------------ C03
def c03(c):
    M = MinHash(c)
    K, oi, _ = M.key_model()
    for name in ('remove', 'bulk_remove'):
        o = c.summ(c.fn(OWNER, name))
        me = o.args[0]
        if o.error:
            c.open('removal', o, o.error)
            continue
        effs = M.effs(o, me)
        if name == 'remove':
            idt, n = o.args[1], None
        else:
            idt, n = at(o.args[1], ITEM), ln(o.args[1])
        sig = unwrap(M.stored(me, idt))
        now = {e: tuple(norm(x, o.loops) for x in e.args) for _, _, _, e in effs}
        opq = any(opaque_in(*now[e]) for _, _, _, e in effs)
        gone = FALSE
        cont = FALSE
        for w, bi, k, e in effs:
            env = item_env(o, e, bi)
            if env is None:
                opq = True
                continue
            g = strip_g(subst_guard(e.guard, env))
            if w == 'ids' and e.op == 'remove' and subst(now[e][0], env) is idt and covers(o, e, env, None, n):
                gone = OR(gone, g)
            if w == 'container' and e.op == 'remove' and strip_mapdel(subst(now[e][0], env)) is idt:
                want = subst(K, {SIG: sig, ME: me}) if K is not None else None
                key_ = strip_mapdel(subst(k, env))
                if want is None or key_ is not want and M.kc(key_, me) is not M.kc(want, me):
                    c.need(False, 'removed-from-its-own-bands', o, f'key {short(key_)} instead of {short(want) if want else "?"}', e.sp,
                           opaque=opaque_in(key_))
                elif not covers(o, e, env, ln(M.bands(me)), n):
                    c.need(False, 'removed-from-its-own-bands', o, 'not for every band and every id', e.sp, opaque=opaque_in(*e.args))
                else:
                    cont = OR(cont, restrict(g, isSome(get(subst(M.table(me, bi), env), key_))))
        st = isSome(M.stored(me, idt))
        c.entail(st, gone, 'removed-from-id-map', o, f'the id leaves the map only if {short(gone)}', opaque=opq)
        # a removed id whose band entries stay is not found any more (C01) but the bands must not grow without bound
        c.entail(st, cont, 'removed-from-its-own-bands', o, f'the id leaves its bands only if {short(cont)}', opaque=opq)
        # the removed signatures are returned
        if name == 'remove':
            want = M.stored(me, idt)
            got = subst(o.ret, {})
            same = entails(TRUE, eq_opt(got, want))
            c.need(same, 'removed-signature-returned', o, short(o.ret), opaque=opaque_in(o.ret))
        else:
            rs = results(strip_mapdel(o.ret))
            okk = rs is not None and len(rs) == 1 and len(rs[0].binders) == 1 and not [t for t in rs[0].tags if t[0] in ('rev', 'sorted', 'slice')]
            if okk:
                r = rs[0]
                v = mk('bv', r.binders[0].a[0])
                sg = M.stored(me, at(o.args[1], v))
                okk = r.elem is unwrap(sg) and strip_g(r.guard) == isSome(sg) and r.binders[0].a[1] is n and not set(r.binders[0].a[2]) - {'par'}
            c.need(okk, 'removed-signature-returned', o, short(o.ret), opaque=opaque_in(o.ret))
    # clear
    o = c.summ(c.fn(OWNER, 'clear'))
    me = o.args[0]
    idsdone = tabs = False
    for w, bi, k, e in M.effs(o, me):
        if w == 'ids' and e.op == 'clear' and e.guard == TRUE and not e.loops:
            idsdone = True
        elif w == 'ids' and e.op == 'write' and e.guard == TRUE and e.args[0].op == 'mnew':
            idsdone = True
        elif w == 'table' and e.guard == TRUE and (e.op == 'clear' or e.op == 'write' and e.args[0].op == 'mnew'):
            if bi.op == 'idx' and M.cover(o, me, bi, ln(M.bands(me))):
                tabs = True
    c.need(idsdone, 'clear-empties-the-id-map', o, 'the id map is not cleared', opaque=bool(o.error))
    c.need(tabs, 'clear-empties-every-band', o, 'not every band table is cleared', opaque=bool(o.error))
    # queries only return stored ids (with removal from the map this makes a removed id invisible)
    for name, o, me, q, items, kind in M.queries():
        rs = results(o.ret)
        if rs is None:
            c.open('result-shape', o, short(o.ret))
            continue
        for r in rs:
            g = strip_g(r.guard)
            c.need(entails(g, isSome(M.stored(me, r.id))), 'queries-skip-removed-ids', o, f'{short(r.id)} under {short(g)}',
                   opaque=opaque_in(b(g), r.id))
    removal_local(c, M, K) if K is not None else None
    # no panic
    outs = [(o, me) for _, o, me, _, _, _ in M.queries()]
    for n in ('remove', 'bulk_remove', 'clear', 'size', 'get_signature', 'insert', 'par_bulk_insert', 'par_bulk_insert_pairs'):
        o = c.summ(c.fn(OWNER, n))
        outs.append((o, o.args[0]))
    for o, me in outs:
        for e in o.panics:
            v, why = discharge(c, M, o, e, me)
            c.ob('no-panic', o, v, f'{e.kind}: {why}', e.sp)
        lens = [ln(x) for x in o.args]
        underflows(c, o, 'no-panic', deny=lens)


def eq_opt(x, y):
    """guard: two Option terms denote the same value (syntactically per case)"""
    r = FALSE
    for g, t in parts_of(x):
        if t.op == 'agg':
            if t.a[1] == 'None':
                r = OR(r, AND(g, NOT(isSome(y))))
            elif t.a[1] == 'Some' and t.a[2][0] is unwrap(y):
                r = OR(r, AND(g, isSome(y)))
        elif t is y:
            r = OR(r, g)
    return r


def discharge(c, M, o, e, me):
    """can this panic site be reached in a well-formed index with arguments of the right length?"""
    k = e.kind
    g = strip_g(e.guard)
    if k == 'explicit' or k.startswith(('assert', 'panic')):
        # the documented length check
        for x in atoms_of(g):
            if x.op == 'eqz':
                for n in M.n_terms(me):
                    for y in subterms(x):
                        if y.op == 'len' and x is atoms_eq(y, n):
                            if implies(g, NOT(atom(x))):
                                return 'ok', 'documented length check'
            if x.op == 'exists':
                return 'ok', 'documented length check'
        if k == 'assert_failed' or 'assert' in k:
            if opaque_in(b(g)):
                return 'open', short(g)
            return 'bad', f'reachable when {short(g)}'
    if k == 'slice-index':
        s, lo, hi = e.args
        s, lo, hi = (strip_mapdel(x) for x in (s, lo, hi))
        while s.op == 'slice' and s.a[2] is ln(s.a[0]):
            lo, hi, s = add(lo, s.a[1]), add(hi, s.a[1]), s.a[0]
        if well_formed_sig(M, o, me, s):
            ME_ = o.args[0]
            env = band_idx_env(M, me, lo, hi)
            lo_, hi_ = (M.at_ctor(subst(x, env), me) for x in (lo, hi))
            ct = M.ctor_ret()
            nb, w = ct.args[0], ct.args[1]
            lo_, hi_ = (subst(x, {ln(s): mul(nb, w)}) for x in (lo_, hi_))
            if range_inside(lo_, hi_, nb, w):
                return 'ok', 'band rows lie inside a signature of the right length'
            return ('open' if opaque_in(lo_, hi_) else 'bad'), f'{short(lo_)}..{short(hi_)} of {short(s)}'
        if s.op == 'sorted' or s.op == 'coll':
            return 'open', short(g)
        return 'open', short(g)
    if k in ('unwrap', 'expect', 'unwrap_none', 'map-index', 'index-missing') or k.startswith(('unwrap', 'expect')):
        t = e.args[0] if e.args else None
        if t is not None and t.op == 'cmp' or t is not None and any(x.op == 'cmp' for x in subterms(t)) and t.op != 'get':
            return 'ok', 'similarities are never NaN for n > 0'
        if t is not None:
            t = strip_mapdel(t)
            for cnd, leaf in parts_of(t):
                if leaf.op == 'get':
                    return 'bad', f'the looked-up key may be missing: {short(t)} under {short(g)}'
            if all(leaf.op == 'agg' for _, leaf in parts_of(t)) and not opaque_in(t, b(g)):
                return 'open', short(g)
        return 'open', short(g)
    if k in ('bounds', 'index'):
        return 'open', short(g)
    if k.startswith('overflow') or k in ('divzero', 'div-by-zero'):
        return 'open', short(g)
    return 'open', short(g)


def atoms_eq(y, n):
    g = eq(y, n)
    a = atoms_of(g)
    return a[0] if len(a) == 1 else None


def well_formed_sig(M, o, me, s):
    """s is a stored signature, or a query/inserted signature whose length has been checked"""
    if s.op == 'fld' and s.a[0].op == 'get' and s.a[0].a[0] is M.ids(me):
        return True
    for e in o.panics:
        for x in atoms_of(e.guard):
            if x.op == 'eqz' and e.kind.startswith(('assert', 'panic')):
                for y in subterms(x):
                    if y.op == 'len' and same_item(y.a[0], s):
                        return True
            if x.op == 'exists' and e.kind.startswith(('assert', 'panic')):
                return True
    return False


def same_item(x, y):
    """same signature up to the loop index"""
    if x is y:
        return True
    f = lambda z: subst(z, {i: ITEM for i in subterms(z) if i.op in ('idx', 'bv')})
    return f(x) is f(y)


def band_idx_env(M, me, *ts):
    env = {}
    for t in ts:
        for x in subterms(t):
            if x.op == 'at' and x.a[0] is M.bands(me):
                env[x.a[1]] = BAND
    return env


def range_inside(lo, hi, nb, w):
    """0 <= lo <= hi <= nb*w for every 0 <= BAND < nb"""
    # lo and hi linear in BAND with coefficient w: worst case BAND = nb-1
    if not nonneg(lo):
        return False
    d = sub(hi, lo)
    if not nonneg(d) and not all(nonneg(subst(d, {BAND: x})) for x in (ci(0), sub(nb, ci(1)))):
        return False
    worst = subst(hi, {BAND: sub(nb, ci(1))})
    rest = sub(mul(nb, w), worst)
    return rest is ci(0) or nonneg(rest)


# ------------------------------------------------------------------ C05
def c05(c):
    M = MinHash(c)
    for n in ('new', 'new_index', 'new_with_capacity'):
        o = c.summ(c.fn(OWNER, n))
        want = mul(o.args[0], o.args[1])
        ns = M.n_terms(ME)
        c.need(bool(ns) and any(subst(t, {ME: o.ret}) is want for t in ns), 'signature-length-is-bands-x-width', o, '', opaque=opaque_in(o.ret))
    sites = []
    for name, o, me, q, items, kind in M.queries():
        if name in ('query_by_id', 'query_by_id_owned', 'QueryIndex::query'):
            continue
        sites.append((o, me, q, items, None))
    for name in ('insert', 'par_bulk_insert', 'par_bulk_insert_pairs'):
        o = c.summ(c.fn(OWNER, name))
        if name == 'insert':
            sites.append((o, o.args[0], o.args[2], None, None))
        elif name == 'par_bulk_insert':
            sites.append((o, o.args[0], None, o.args[2], None))
        else:
            sites.append((o, o.args[0], None, o.args[1], 1))
    for o, me, q, items, f in sites:
        if o.error:
            c.open('length-checked', o, o.error)
            continue
        muts = [e for _, _, _, e in M.effs(o, me)]
        first = min([e.seq for e in muts], default=10**9)
        found, late = False, None
        opq = False
        for e in o.panics:
            if not (e.kind.startswith(('assert', 'panic', 'explicit'))):
                continue
            opq = opq or opaque_in(b(e.guard))
            for n in M.n_terms(me):
                if checks_length(o, e, q, items, f, n):
                    if e.seq > first:
                        late = e
                    else:
                        found = True
        if not found and muts and late is None:
            # a check that happens inside a loop that also writes
            pass
        if found:
            c.ok('length-checked-before-any-change', o)
        elif late is not None:
            c.bad('length-checked-before-any-change', o, 'the index is modified before the length of the signature is checked', late.sp)
        else:
            c.need(False, 'length-checked-before-any-change', o, 'no check that every signature has bands x width hashes', opaque=opq)


def checks_length(o, e, q, items, f, n):
    if items is None:
        return entails(NOT(eq(ln(q), n)), e.guard)
    it = lambda i: fld(at(items, i), f) if f is not None else at(items, i)
    # loop over the items
    idx = [L for L in e.loops if o.loops[L].early == FALSE or o.loops[L].early == e.pcond]
    if len(e.loops) == 1:
        L = e.loops[0]
        i = mk('idx', L)
        inf = o.loops[L]
        oth = [ln(a) for a in o.args[1:] if a is not items]
        full = inf.count is ln(items) or any(inf.count is minmax('min', ln(items), x) for x in oth)
        if full and inf.early == FALSE and entails(NOT(eq(ln(it(i)), n)), e.guard):
            return True
    if not e.loops:
        for k in range(1, 4):
            bd = binder(k, ln(items))
            g = exists(bd, NOT(eq(ln(it(mk('bv', k))), n)))
            if entails(g, e.guard):
                return True
    return False


# ------------------------------------------------------------------ C25 (MinHash)
CAPOPS = ('capacity',)


def c25(c):
    M = MinHash(c)
    for n in ('shrink_to_fit', 'shrink_to', 'capacity'):
        for k in c.find(OWNER, n, ''):
            o = c.summ(k)
            capacity_only(c, o)
    a = c.summ(c.fn(OWNER, 'new_index'))
    for n in ('new', 'new_with_capacity'):
        o = c.summ(c.fn(OWNER, n))
        want = subst(a.ret, {a.args[i]: o.args[i] for i in range(3)})
        c.need(o.ret is want, 'capacity-affects-memory-only', o, f'{short(o.ret)} instead of {short(want)}', opaque=opaque_in(o.ret))
        capacity_only(c, o, ctor=True)
    from . import simhash
    simhash.c25(c)


def capacity_only(c, o, ctor=False):
    if o.error:
        c.open('capacity-affects-memory-only', o, o.error)
        return
    bad = False
    underflows(c, o, 'capacity-op-does-not-panic')
    for e in o.effects:
        if e.op in ('capacity', 'call', 'read'):
            continue
        if e.op == 'panic':
            if dead_panic(e):
                continue
            c.ob('capacity-op-does-not-panic', o, 'open' if opaque_in(b(e.guard)) else 'bad', f'{e.kind} when {short(e.guard)}', e.sp)
            bad = True
            continue
        if ctor:
            continue
        c.need(False, 'capacity-affects-memory-only', o, f'{e.op} {showloc(*e.loc) if e.loc else ""}', e.sp, opaque=e.op == 'havoc')
        bad = True
    if not bad:
        c.ok('capacity-affects-memory-only', o)


def dead_panic(e):
    return e.guard == FALSE
