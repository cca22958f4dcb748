"""C04 (last write per id), C06 (bulk = one by one, native part), C07 (ranked results) for both indexes."""
from .minhash import *
from . import p_minhash as PM
from . import simhash as SH
from .p_minhash import query_of

ROUTES = ('insert', 'par_bulk_insert', 'par_bulk_insert_pairs')


# ------------------------------------------------------------------ C04
def c04_minhash(c):
    M = MinHash(c)
    last_write(c, M, OWNER)
    # removal takes the id out of the map (and nothing else), clear empties it
    for name in ('remove', 'bulk_remove'):
        o = c.summ(c.fn(OWNER, name))
        me = o.args[0]
        idt, n = (o.args[1], None) if name == 'remove' else (at(o.args[1], ITEM), ln(o.args[1]))
        gone, opq = FALSE, bool(o.error)
        for w, bi, k, e in M.effs(o, me):
            if w not in ('ids', 'ids-entry'):
                continue
            env = PM.item_env(o, e, None)
            if e.op == 'remove' and env is not None and subst(e.args[0], env) is idt and PM.covers(o, e, env, None, n):
                gone = OR(gone, PM.strip_g(subst_guard(e.guard, env)))
            else:
                opq = opq or opaque_in(*e.args) or env is None
                c.need(False, 'removal-takes-out-the-given-ids', o, f'{e.op} on the id map', e.sp, opaque=opaque_in(*e.args) or env is None)
        c.entail(isSome(M.stored(me, idt)), gone, 'removal-takes-out-the-given-ids', o, f'only if {short(gone)}', opaque=opq)
    o = c.summ(c.fn(OWNER, 'clear'))
    me = o.args[0]
    cl = any(w == 'ids' and e.guard == TRUE and not e.loops and (e.op == 'clear' or e.op == 'write' and e.args[0].op == 'mnew')
             for w, bi, k, e in M.effs(o, me))
    c.need(cl, 'clear-empties-the-id-map', o, '', opaque=bool(o.error))
    g = c.summ(c.fn(OWNER, 'get_signature'))
    c.need(g.ret is M.stored(g.args[0], g.args[1]), 'get_signature-reads-the-id-map', g, short(g.ret), opaque=opaque_in(g.ret))
    g = c.summ(c.fn(OWNER, 'get_id_signature_map'))
    c.need(g.ret is M.ids(g.args[0]), 'get_id_signature_map-is-the-id-map', g, short(g.ret), opaque=opaque_in(g.ret))
    others(c, M, OWNER, ROUTES + ('remove', 'bulk_remove', 'clear'))
    compared(c, M)


def c04_simhash(c):
    M = SH.SimHash(c)
    last_write(c, M, SH.SOWNER)
    others(c, M, SH.SOWNER, ROUTES + ('remove', 'bulk_remove', 'clear'))
    compared(c, M)


def last_write(c, M, own):
    o = c.summ(c.fn(own, 'size'))
    c.need(o.ret is ln(M.ids(o.args[0])), 'size-is-number-of-stored-ids', o, short(o.ret), opaque=opaque_in(o.ret))
    for name in ROUTES:
        o = c.summ(c.fn(own, name))
        if o.error:
            c.open('last-signature-is-stored', o, o.error)
            continue
        SH.map_insert(c, M, o, o.args[0], name, 'last-signature-is-stored')
    ct = M.ctor_ret()
    for n in ('new', 'new_index', 'new_with_capacity'):
        for k in c.find(own, n, ''):
            o = c.summ(k)
            m = fld(o.ret, M.f_ids)
            c.need(m.op in ('mnew',) or ln(m) is ci(0), 'new-index-is-empty', o, short(m), opaque=opaque_in(m))


def others(c, M, own, allowed):
    """no other method writes the id map"""
    for k, f in sorted(c.P.fns.items()):
        im = f.get('implself') or {}
        if f['kind'] == 'Closure' or im.get('p', '').split('::')[-1] != own or not f['inputs'] or f['name'] in allowed:
            continue
        t = f['inputs'][0]
        if not (t.get('k') == 'ref' and t.get('m')):
            continue
        o = c.summ(k)
        me = o.args[0]
        bad = [e for w, bi, kk, e in M.effs(o, me) if w in ('ids', 'ids-entry')]
        if f['name'] == 'fmt':
            continue
        for e in bad:
            c.need(False, 'id-map-written-only-by-insert-and-remove', o, f'{e.op} on the id map', e.sp, opaque=e.op == 'havoc')
        if not bad:
            c.ok('id-map-written-only-by-insert-and-remove', o)


def compared(c, M):
    """queries compare the stored signature of the id they return, not another copy"""
    for name, o, me, q, items, kind in M.queries():
        rs = results(o.ret)
        if rs is None:
            c.open('result-shape', o, short(o.ret))
            continue
        SH.ME_OF[0] = me
        for r in rs:
            qq = query_of(r, q, items)
            if qq is None or kind == 'topk':
                continue
            st = unwrap(M.stored(me, r.id))
            g = PM.strip_g(r.guard)
            c.need(any(entails(g, p) for p in M.passes(st, qq, M.thr(me))), 'current-signature-is-compared', o, short(g), opaque=opaque_in(b(g), r.id))


# ------------------------------------------------------------------ C06
PAIRS = ((OWNER, 'par_bulk_query', 'query_owned'), (OWNER, 'par_bulk_query_return_similarity', 'query_owned_return_similarity'),
         (SH.SOWNER, 'par_bulk_query', 'query_owned'), (SH.SOWNER, 'par_bulk_query_return_distance', 'query_return_distance'))


def c06_queries(c):
    for own, bulk, single in PAIRS:
        bo, so = c.summ(c.fn(own, bulk)), c.summ(c.fn(own, single))
        M = MinHash(c) if own == OWNER else SH.SimHash(c)
        same_as_single(c, M, bo, so)


def same_as_single(c, M, bo, so, rule='bulk-query-equals-single-queries'):
    me, items = bo.args[0], bo.args[1]
    op = opaque_in(bo.ret, so.ret)
    one = subst(so.ret, {so.args[0]: me, so.args[1]: at(items, ITEM)})
    if not (bo.ret.op == 'coll' and bo.ret.a[0] == 'vec' and bo.ret.a[1] is EMPTY and len(bo.ret.a[2]) == 1):
        c.need(False, rule, bo, short(bo.ret), opaque=op)
        return
    bs, g, e = bo.ret.a[2][0]
    if len(bs) != 1 or bs[0].a[1] is not ln(items) or set(bs[0].a[2]) - {'par'} or g.a[0] != TRUE:
        c.need(False, rule, bo, f'results for {[short(x) for x in bs]} if {short(g)}, not one per input in order', opaque=op)
        return
    got = subst(e, {mk('bv', bs[0].a[0]): ITEM})
    if got is one:
        c.ok(rule, bo)
        return
    ra, rb = results(got), results(one)
    if ra is None or rb is None or len(ra) != len(rb):
        c.need(False, rule, bo, f'{short(got)} instead of {short(one)}', opaque=op or ra is None or rb is None)
        return
    SH.ME_OF[0] = me
    for x, y in zip(ra, rb):
        tg = lambda r: tuple(t for t in r.tags if t[0] in ('sorted', 'rev', 'slice', 'best'))
        bf = lambda r: [(z.a[0], z.a[1]) for z in r.binders]
        fx = PM.length_facts(M, me, at(items, ITEM))
        okk = x.elem is y.elem and tg(x) == tg(y) and bf(x) == bf(y) and entails(AND(x.guard, fx), y.guard) and entails(AND(y.guard, fx), x.guard)
        okk = okk and dict(t[:2] for t in x.tags if t[0] == 'kind') == dict(t[:2] for t in y.tags if t[0] == 'kind')
        c.need(okk, rule, bo, f'{short(x.elem)} if {short(x.guard)} instead of {short(y.elem)} if {short(y.guard)}', opaque=op)


def c06_inserts(c):
    M = MinHash(c)
    K, oi, _ = M.key_model()
    if K is None:
        c.need(False, 'insert-adds-to-every-band', oi, '', opaque=bool(oi.error))
    else:
        PM.inserts(c, M, K)
    S = SH.SimHash(c)
    K2, oi, _ = S.key_model()
    if K2 is None:
        c.need(False, 'insert-adds-to-every-band', oi, '', opaque=bool(oi.error))
    else:
        SH.PM_OWN(c, S, K2)
    for M_, own in ((M, OWNER), (S, SH.SOWNER)):
        for name in ROUTES:
            o = c.summ(c.fn(own, name))
            if o.error:
                c.open('stored-in-order', o, o.error)
                continue
            SH.map_insert(c, M_, o, o.args[0], name, 'stored-in-order')


def c06_signatures(c):
    ks = [k for k, f in c.P.fns.items() if f['kind'] != 'Closure' and f['name'] in ('bulk_create_signature', 'bulk_create_signature_refs') and f['crate'] == 'gaoya']
    if len(ks) < 2:
        raise Missing('MinHasher::bulk_create_signature')
    for k in ks:
        o = c.summ(k)
        me, batch = o.args[:2]
        r = o.ret
        okk = False
        if r.op == 'coll' and r.a[0] == 'vec' and r.a[1] is EMPTY and len(r.a[2]) == 1:
            bs, g, e = r.a[2][0]
            v = mk('bv', bs[0].a[0]) if len(bs) == 1 else None
            okk = v is not None and bs[0].a[1] is ln(batch) and not (set(bs[0].a[2]) - {'par'}) and g.a[0] == TRUE
            if okk:
                okk = e.op == 'call' and strip_generics(e.a[0]).endswith('create_signature') and e.a[1][0] is me and whole_iter(e.a[1][1], at(batch, v))
                if not okk:
                    h = (c.P.fns[k].get('implself') or {}).get('p', '').split('::')[-1]
                    for s in c.find(h, 'create_signature', 'MinHasher') if h else ():
                        so = c.summ(s)
                        okk = okk or subst(so.ret, {so.args[0]: me, so.args[1]: at(batch, v)}) is e
        c.need(okk, 'bulk-signatures-equal-single-signatures', o, short(r), opaque=opaque_in(r))


def whole_iter(t, src):
    while t.op == 'it' and t.a[0] in ('seq', 'ref', 'iter'):
        t = t.a[1]
    return t is src


# ------------------------------------------------------------------ C07
def c07_minhash(c):
    M = MinHash(c)
    ranked(c, M, lambda st, q: M.sims(st, q), 'desc', 'similarity')


def c07_simhash(c):
    M = SH.SimHash(c)
    ranked(c, M, lambda st, q: M.dists(st, q), 'asc', 'distance')


def direction(cm, i=1):
    """asc / desc when the comparator orders by field i of the elements"""
    if cm.op != 'cmp':
        return None
    x, y = cm.a[0], cm.a[1]
    p1, p2 = fld(mk('ph', 1), i), fld(mk('ph', 2), i)
    if (x, y) == (p1, p2):
        return 'asc'
    if (x, y) == (p2, p1):
        return 'desc'
    return None


FLIP = {'asc': 'desc', 'desc': 'asc', None: None}


def ranked(c, M, scores, best, what):
    for name, o, me, q, items, kind in M.queries():
        if kind == 'ids':
            continue
        rs = results(o.ret)
        if rs is None:
            why = first_not_best(o.ret) if kind == 'best' else None
            if why:
                c.bad('best-match-is-best', o, why)
            else:
                c.open('result-shape', o, short(o.ret))
            continue
        op = opaque_in(o.ret)
        c.need(len(rs) == 1, 'one-source-of-results', o, f'{len(rs)} sources', opaque=True)
        for r in rs:
            qq = query_of(r, q, items)
            if qq is None or r.score is None:
                c.need(False, 'true-score', o, short(r.elem), opaque=op)
                continue
            st = unwrap(M.stored(me, PM.strip_mapdel(r.id)))
            good = scores(st, qq)
            want = best
            if kind == 'topk':
                good = [fop('fsub', cf(1.0), x) for x in good]
                want = 'asc'
            c.need(r.score in good, 'true-score', o, f'{short(r.score)} is not the {what} of the query and the stored signature of {short(r.id)}',
                   opaque=opaque_in(r.score))
            dup = any('set' in z.a[2] for z in r.binders) or dict(t[:2] for t in r.tags if t[0] == 'kind').get('kind') == 'set'
            c.need(dup, 'each-id-once', o, 'an id found in several bands is reported several times', opaque=op)
            order = None
            rv = False
            for t in r.tags:
                if t[0] == 'rev':
                    rv = not rv
                if t[0] == 'sorted' and order is None:
                    order = direction(t[1])
                    if rv:
                        order = FLIP[order]
            cut = [t for t in r.tags if t[0] == 'slice']
            if kind in ('scored', 'topk'):
                c.need(order == want, 'best-first', o, f'sorted {[tuple(short(y) if isinstance(y, T) else y for y in t) for t in r.tags if t[0] in ("sorted", "rev")]}', opaque=op)
            if kind == 'scored':
                c.need(not cut, 'nothing-cut', o, str(cut), opaque=op)
            if kind == 'topk':
                k_ = o.args[2]
                okk = len(cut) == 1 and cut[0][1] is ci(0) and cut[0][2] is minmax('min', k_, cut[0][3]) and not rv_before(r.tags)
                c.need(okk, 'cut-to-k', o, str([tuple(short(y) if isinstance(y, T) else y for y in t) for t in cut]), opaque=op and not cut)
            if kind == 'best':
                bt = [t for t in r.tags if t[0] == 'best']
                fo = [t for t in r.tags if t[0] == 'firstof']
                if bt:
                    d = direction(bt[0][2])
                    pick = {('max', 'asc'): 'desc', ('max', 'desc'): 'asc', ('min', 'asc'): 'asc', ('min', 'desc'): 'desc'}.get((bt[0][1], d))
                    c.need(pick == best, 'best-match-is-best', o, f'{bt[0][1]} by {short(bt[0][2])}', opaque=op)
                elif fo:
                    c.need(order == best, 'best-match-is-best', o, f'first of a list sorted {order}', opaque=op)
                else:
                    c.need(False, 'best-match-is-best', o, short(o.ret), opaque=op)
        if kind == 'best':
            PM.none_only_if_empty(c, o, rs)
            # the filter is the same as that of the other queries
            for r in rs:
                qq = query_of(r, q, items)
                SH.ME_OF[0] = me
                K, _, _ = M.key_model()
                if K is not None and qq is not None:
                    x = PM.candidate(M, K, r, me, qq, kind)
                    c.need(x[0] == 'ok', 'every-accepted-candidate-competes', o, x[1] if x[0] != 'ok' else '', opaque=op)
        if kind == 'topk':
            K, _, _ = M.key_model()
            for r in rs:
                if K is not None:
                    x = PM.candidate(M, K, r, me, q, kind, o.args[2])
                    c.need(x[0] == 'ok', 'every-candidate-competes', o, x[1] if x[0] != 'ok' else '', opaque=op)


AGGREGATES = {'best', 'over', 'sum', 'rec', 'min', 'max', 'sorted', 'forall', 'coll'} | OPAQUE


def first_not_best(t):
    """the answer is the first element that passes a test of that element alone"""
    for x in subterms(t):
        if x.op == 'first' and not any(y.op in AGGREGATES for y in subterms(x)):
            return f'the first candidate under {short(x.a[1])} is returned, whatever the others score'
    return None


def rv_before(tags):
    """a reversal applied after the cut"""
    for t in tags:
        if t[0] == 'rev':
            return True
        if t[0] == 'slice':
            return False
    return False


def c07_sims(c):
    PM.sim_def(c)
    from . import p_sig
    p_sig.distance(c)
