"""The SimHash index (C13, C14) on top of the same table model, and the SimHash signature (C15)."""
from .minhash import *
from . import p_minhash as PM

SOWNER = 'SimHashIndex'


class SimHash(MinHash):
    def __init__(s, c):
        s.c = c
        a = c.adt(SOWNER)
        s.f_bands = s.f_ids = None
        band = None
        s.fields = a['variants'][0]['fields']
        for i, f in enumerate(s.fields):
            t = f['ty']
            if t.get('k') == 'adt' and t['p'].endswith('Vec') and t['a'] and t['a'][0].get('k') == 'adt' and t['a'][0]['key'] in c.P.adts:
                s.f_bands, band = i, t['a'][0]['key']
            elif t.get('k') == 'adt' and 'HashMap' in t['p']:
                s.f_ids = i
        if s.f_bands is None or s.f_ids is None:
            raise Missing('SimHashIndex fields')
        for i, f in enumerate(c.P.adts[band]['variants'][0]['fields']):
            t = f['ty']
            if t.get('k') == 'adt' and 'HashMap' in t['p']:
                s.f_table = i
                s.table_ty = t
        s.ctor = None
        s.band_key, s.band_inv = band, {}
        o = s.ctor_ret()
        s.f_max = [i for i in range(len(s.fields)) if fld(o.ret, i) is o.args[1]]

    def ctor_ret(s):
        if s.ctor is None:
            s.ctor = s.c.summ(s.c.fn(SOWNER, 'new'))
        return s.ctor

    def n_terms(s, me):
        return []

    def thr(s, me):
        return fld(me, s.f_max[0]) if s.f_max else UNDEF

    def dists(s, p, q):
        path = 'simhash::SimHashBits::hamming_distance'
        out = []
        for k, f in s.c.P.fns.items():
            pass
        for x, y in ((p, q), (q, p)):
            out.append(mk('call', path, (x, y)))
            out.append(mk('call', 'simhash::SimHashBits::count_ones', (bitxor(x, y),)))
            out.append(mk('popcount', bitxor(x, y)))
        return list(dict.fromkeys(out))

    def passes(s, p, q, thr):
        return [NOT(lt(fld(ME_OF[0], i), d)) for i in s.f_max for d in s.dists(p, q)]

    def queries(s):
        c = s.c
        out = []
        for name, kind in (('query', 'ids'), ('query_owned', 'ids'), ('query_one', 'best'), ('query_return_distance', 'scored')):
            o = c.summ(c.fn(SOWNER, name))
            out.append((name, o, o.args[0], o.args[1], None, kind))
        for name, kind in (('par_bulk_query', 'ids'), ('par_bulk_query_return_distance', 'scored')):
            o = c.summ(c.fn(SOWNER, name))
            out.append((name, o, o.args[0], None, o.args[1], kind))
        return out

    def key_model(s):
        c = s.c
        o = c.summ(c.fn(SOWNER, 'insert'))
        me = o.args[0]
        for w, bi, k, e in s.effs(o, me):
            key = k if w == 'container' else (e.args[0] if w == 'table' and e.op == 'insert' else None)
            if key is None or bi.op != 'idx':
                continue
            return subst(key, {bi: BAND, o.args[2]: SIG, me: ME}), o, me
        return None, o, me


ME_OF = [None]


# ------------------------------------------------------------------ C13
def c13(c):
    M = SimHash(c)
    if not M.f_max:
        c.bad('maximum-is-parameter', M.ctor_ret(), 'no field holds the configured maximum distance')
        return
    c.ok('maximum-is-parameter', M.ctor_ret())
    for name, o, me, q, items, kind in M.queries():
        ME_OF[0] = me
        rs = results(o.ret)
        if rs is None:
            c.open('result-shape', o, short(o.ret))
            continue
        for r in rs:
            x = r.id
            qq = PM.query_of(r, q, items)
            if qq is None:
                c.need(False, 'bulk-result-per-query', o, short(r.term), opaque=opaque_in(o.ret))
                continue
            g = r.guard
            op = opaque_in(b(g), x)
            st = M.stored(me, x)
            stored = entails(g, isSome(st)) or looked_up(o, M, me, x) or from_table(M, me, x)
            c.need(stored, 'returned-id-is-stored', o, f'{short(x)} under {short(g)}', opaque=op)
            okk = any(entails(g, p) for p in M.passes(unwrap(st), qq, None))
            c.need(okk, 'distance<=maximum', o, f'{short(x)} is returned under {short(g)}, which does not imply distance(stored, query) <= maximum', opaque=op)
    frozen(c, M)
    both(c, M)


def looked_up(o, M, me, x):
    """an unconditional lookup of x in the id map would have panicked"""
    for e in o.panics:
        if e.kind.startswith(('unwrap', 'expect', 'map-index')) and e.args and e.args[0].op == 'get' and e.args[0].a[0] is M.ids(me):
            if PM.same_item(e.args[0].a[1], x):
                return True
    return False


def from_table(M, me, x):
    """ids in the tables are always also in the map: nothing is ever removed (checked by 'both')"""
    return x.op == 'at' and x.a[0].op == 'fld' and x.a[0].a[0].op == 'get'


def frozen(c, M):
    for k, f in sorted(c.P.fns.items()):
        im = f.get('implself') or {}
        if f['kind'] == 'Closure' or im.get('p', '').split('::')[-1] != SOWNER or not f['inputs']:
            continue
        t = f['inputs'][0]
        if not (t.get('k') == 'ref' and t.get('m')):
            continue
        o = c.summ(k)
        me = o.args[0] if o.args else None
        bad = False
        for w, bi, kk, e in M.effs(o, me):
            if w == 'other':
                c.need(False, 'configuration-frozen', o, f'{e.op} of {showloc(*e.loc)[:100]}', e.sp, opaque=e.op == 'havoc')
                bad = True
        if not bad:
            c.ok('configuration-frozen', o)


def both(c, M):
    """every insertion route stores the id in the map under its own signature; nothing is removed from the map alone"""
    for name in ('insert', 'par_bulk_insert', 'par_bulk_insert_pairs'):
        o = c.summ(c.fn(SOWNER, name))
        me = o.args[0]
        if o.error:
            c.open('stored-under-own-signature', o, o.error)
            continue
        map_insert(c, M, o, me, name)


def map_insert(c, M, o, me, name, rule='stored-under-own-signature'):
    if name == 'insert':
        idt, sigt, n = o.args[1], o.args[2], None
    elif name == 'par_bulk_insert':
        idt, sigt = at(o.args[1], ITEM), at(o.args[2], ITEM)
        n = minmax('min', ln(o.args[1]), ln(o.args[2]))
    else:
        idt, sigt = fld(at(o.args[1], ITEM), 0), fld(at(o.args[1], ITEM), 1)
        n = ln(o.args[1])
    got = FALSE
    opq = False
    for w, bi, k, e in M.effs(o, me):
        if w not in ('ids', 'ids-entry'):
            continue
        env = PM.item_env(o, e, None)
        opq = opq or opaque_in(*e.args) or env is None
        if w == 'ids' and e.op in ('insert', 'extend') and env is not None and len(e.args) == 2:
            i_, s_ = subst(e.args[0], env), subst(e.args[1], env)
            if i_ is idt and s_ is sigt and PM.covers(o, e, env, None, n):
                par = any(o.loops[L].par for L in e.loops)
                got = OR(got, subst_guard(e.guard, env))
                if par:
                    c.need(False, rule, o, 'the map is written in no defined order', e.sp, opaque=True)
                continue
            c.need(False, rule, o, f'stores {short(i_)} -> {short(s_)}', e.sp, opaque=opaque_in(i_, s_) or env is None)
            continue
        if w == 'ids-entry' and e.op == 'write' and k is not None and env is not None:
            if subst(k, env) is idt and subst(e.args[0], env) is sigt and PM.covers(o, e, env, None, n):
                got = OR(got, subst_guard(e.guard, env))
                continue
        if w == 'ids' and e.op == 'extend':
            fin = final(o, me)
            m = fld(fin, M.f_ids)
            if m.op == 'mapgen' and m.a[0] is M.ids(me) and m.a[2].a[0] == TRUE and m.a[1].a[1] is n:
                v = mk('bv', m.a[1].a[0])
                if subst(m.a[3], {v: ITEM}) is idt and subst(m.a[4], {v: ITEM}) is sigt:
                    got = TRUE
                    continue
        if w == 'ids' and e.op == 'remove' and env is not None and subst(e.args[0], env) is idt:
            continue
        c.need(False, rule, o, f'{e.op} on the id map', e.sp, opaque=True if env is None or opaque_in(*e.args) else False)
    fx = PM.length_facts(M, me, sigt)
    c.entail(fx, got, rule, o, f'the last signature of an id is stored only if {short(got)}', opaque=opq)


# ------------------------------------------------------------------ C14
def c14(c):
    M = SimHash(c)
    if not M.f_max:
        c.bad('maximum-is-parameter', M.ctor_ret(), 'no field holds the configured maximum distance')
        return
    K, oi, me = M.key_model()
    if K is None:
        c.need(False, 'insert-adds-to-every-table', oi, 'no table receives the id', opaque=bool(oi.error) or any(opaque_in(*e.args) for e in oi.effects))
        return
    nd = nondet_calls(K)
    c.need(not nd, 'key-deterministic', oi, str(nd))
    partition(c, M, K)
    frozen(c, M)
    PM_OWN(c, M, K)
    for name, o, me, q, items, kind in M.queries():
        ME_OF[0] = me
        rs = results(o.ret)
        if rs is None:
            c.open('result-shape', o, short(o.ret))
            continue
        ivs, why = [], []
        for r in rs:
            qq = PM.query_of(r, q, items)
            if qq is None:
                continue
            res = PM.candidate(M, K, r, me, qq, kind)
            (ivs if res[0] == 'ok' else why).append(res[1])
        lim = [t for r in rs for t in r.tags if t[0] in ('lossy', 'slice')]
        why += [f'results with the same {short(t[1])} are dropped' for t in lim if t[0] == 'lossy']
        if chain(ivs, ln(M.bands(me))) and not lim:
            if items is not None:
                bs = rs[0].outer[0]
                c.need(len(bs) == 1 and bs[0].a[1] is ln(items) and not (set(bs[0].a[2]) - {'par'}), 'query-covers-all-tables', o,
                       'not every query of the batch is answered', opaque=opaque_in(o.ret))
            else:
                c.ok('query-covers-all-tables', o)
        else:
            c.need(False, 'query-covers-all-tables', o, '; '.join(why)[:600] or str([(short(x), short(y)) for x, y in ivs]), opaque=opaque_in(o.ret))
        if name == 'query_one':
            PM.none_only_if_empty(c, o, rs)


def PM_OWN(c, M, K):
    old = PM.OWNER
    PM.OWNER = SOWNER
    try:
        PM.inserts(c, M, K)
    finally:
        PM.OWNER = old


def partition(c, M, K):
    """the key of a table is the signature restricted to its choice of blocks; the blocks partition the bits"""
    o = M.ctor_ret()
    nb, d = o.args[0], o.args[1]
    key = subst(K, {ME: o.ret})
    tables = fld(o.ret, M.f_bands)
    if not (key.op == 'bitand' and SIG in key.a):
        c.need(False, 'key-is-masked-signature', o, short(key), opaque=opaque_in(key))
        return
    mask = key.a[1] if key.a[0] is SIG else key.a[0]
    n = ln(tables)
    combos = [x for x in subterms(mask) if x.op == 'combos']
    if not combos:
        c.need(False, 'one-table-per-choice', o, short(mask), opaque=opaque_in(mask))
        return
    for cb in combos:
        masks, k = cb.a[0], cb.a[1]
        drop = dropped(tables)
        c.need(n is ln(cb), 'one-table-per-choice', o, f'choices without a table unless {short(drop)}' if drop is not None else f'{short(n)} tables', opaque=opaque_in(n) and drop is None)
        c.need(sub(sub(nb, d), k) is ci(0), 'choices-have-blocks-minus-distance-members', o, f'choices of {short(k)} blocks', opaque=opaque_in(k))
        more = longer(mask, at(cb, BAND))
        c.need(is_or_of(mask, at(cb, BAND)), 'table-mask-is-union-of-its-choice', o, 'the mask has more blocks than the choice' if more else short(mask), opaque=opaque_in(mask) and not more)
        c.need(ln(masks) is nb, 'one-mask-per-block', o, short(ln(masks)), opaque=opaque_in(masks))
        blk = at(masks, BAND)
        rng = bit_range(blk)
        if rng is None:
            c.need(False, 'blocks-partition-the-bits', o, short(blk), opaque=opaque_in(blk))
            continue
        lo, hi = rng
        bl = [x for x in subterms(hi) if is_call(x, 'bit_length')]
        # float division, negative counts etc. are not accepted
        first = subst(lo, {BAND: ci(0)})
        nxt = subst(lo, {BAND: add(BAND, ci(1))})
        last = subst(hi, {BAND: sub(nb, ci(1))})
        good = bool(bl) and first is ci(0) and nxt is hi and last is bl[0]
        if not good and bl:
            good = folds(lo, hi, nb, bl[0])
        c.need(good, 'blocks-partition-the-bits', o, f'block b covers bits {short(lo)}..{short(hi)}', opaque=opaque_in(lo, hi))


def dropped(tables):
    """the condition on which a choice of blocks gets a table, when there is one"""
    for x in subterms(ln(tables)):
        if x.op == 'dedupk' and x.a[1].op == 'fld':
            return mk('distinct', x.a[1])
    if tables.op == 'coll' and len(tables.a[2]) == 1 and tables.a[1] is EMPTY:
        bs, g, e = tables.a[2][0]
        if g.a[0] != TRUE:
            return g
    return None


def longer(mask, choice):
    """the mask is the union of a list that starts with the choice and is extended by blocks that are not in it"""
    if mask.op == 'over' and mask.a[0] == 'or':
        e = mask.a[3]
        src = e.a[0] if e.op == 'at' else None
        if src is not None and src.op == 'rec' and src.a[1][0] is choice:
            st = src.a[2][0]
            mv = mk('mv', src.a[0].a[0], 0)
            return all(x is mv or x.op == 'coll' and x.a[1] is mv for _, x in parts_of(st)) and st is not mv
        if src is not None and src.op == 'coll' and src.a[1] is choice and src.a[2]:
            return True
    return False


def folds(lo, hi, nb, bl):
    """constant folding of the block bounds for both widths and every number of blocks"""
    for w in (64, 128):
        for n in range(1, w + 1):
            at_ = 0
            for i in range(n):
                env = {nb: ci(n), bl: ci(w), BAND: ci(i)}
                x, y = subst(lo, env), subst(hi, env)
                if not (x.op == 'const' and y.op == 'const') or x.a[1] != at_ or y.a[1] < at_:
                    return False
                at_ = y.a[1]
            if at_ != w:
                return False
    return True


def is_or_of(t, coll_):
    """t = OR of all members of coll_"""
    if t.op == 'over' and t.a[0] == 'or':
        bd, g, e, v0 = t.a[1], t.a[2], t.a[3], t.a[4]
        return g.a[0] == TRUE and v0 is ci(0) and not bd.a[2] and bd.a[1] is ln(coll_) and e is at(coll_, mk('bv', bd.a[0]))
    return False


def bit_range(t):
    """t has exactly the bits lo..hi set"""
    if t.op == 'over' and t.a[0] in ('or', 'xor'):
        bd, g, e, v0 = t.a[1], t.a[2], t.a[3], t.a[4]
        if g.a[0] == TRUE and v0 is ci(0) and not bd.a[2] and e.op == 'shl' and e.a[0] is ci(1):
            iv = lin_index(e.a[1], bd)
            return iv
    return None


def c25(c):
    pass
