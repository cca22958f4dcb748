"""C24: the string index (text -> id -> signature), its loaders and counters."""
from .common import *
from .minhash import results

OWNER = 'MinHashStringIndex'
ITEM = mk('param', -31, 'ITEM')
SRC = mk('param', -32, 'LINES')


def fields(c):
    a = c.adt(OWNER)
    out = {}
    for n, f in enumerate(a['variants'][0]['fields']):
        t = f['ty']
        nm = (t.get('p') or t.get('n') or '').split('::')[-1]
        if nm == 'MinHashIndex':
            out['lsh'] = n
        elif nm.startswith(('MinHasher', 'SuperMinHash')):
            out['hasher'] = n
        elif nm in ('HashMap', 'AHashMap', 'BTreeMap'):
            out['doc'] = n
        elif t.get('k') == 'prim' or nm in ('u64', 'usize', 'u32'):
            out.setdefault('counter', n)
    return out


def lsh_ids(c):
    for n, f in enumerate(c.adt('MinHashIndex')['variants'][0]['fields']):
        if (f['ty'].get('p') or '').split('::')[-1] in ('HashMap', 'AHashMap'):
            return n


def cases(*ts):
    """joint case split of several terms"""
    out = [(TRUE, ())]
    for t in ts:
        nxt = []
        for g, xs in out:
            for h, x in parts_of(t):
                gg = AND(g, h)
                if gg != FALSE:
                    nxt.append((gg, xs + (x,)))
        out = nxt
    return out


def added(m, old):
    """how a map grew: (binder count | None for one entry, guard, key, value), [] if unchanged, None if not understood"""
    if m is old:
        return []
    if m.op == 'mins':
        r = added(m.a[0], old)
        return None if r is None else r + [(None, TRUE, m.a[1], m.a[2])]
    if m.op == 'mapgen':
        r = added(m.a[0], old)
        if r is None:
            return None
        env = {mk('bv', m.a[1].a[0]): ITEM}
        return r + [(m.a[1].a[1], subst_guard(m.a[2].a[0], env), subst(m.a[3], env), subst(m.a[4], env))]
    return None


def skipped(m, old):
    """a step of the loop that leaves the map as it was although its line could be read, because of what the line says"""
    if m.op != 'rec' or m.a[1][0] is not old:
        return None
    k = m.a[0].a[0]
    mv0, v = mk('mv', k, 0), mk('bv', k)
    for h, x in parts_of(m.a[2][0]):
        if x is not mv0:
            continue
        for a in atoms_of(h):
            for l in [y for y in subterms(a) if y.op == 'at' and y.a[1] is v]:
                if AND(h, is_(l, 'Ok')) == FALSE or a in atoms_of(is_(l, 'Ok')):
                    continue
                if any(y.op == 'mv' for y in subterms(a)) or not any(y.op != 'at' and l in subterms(y) and 'Ok' in [z for z in y.a if isinstance(z, str)] for y in subterms(a)):
                    continue
                return f'the text {short(l)} is not stored if {short(h)}'
    return None


def find_sum(t):
    """c + number of items before ITEM that satisfy a guard -> (c, guard) ; c + ITEM -> (c, TRUE)"""
    p = to_poly(t)
    rest, rank = {}, None
    for m, k in p.items():
        if len(m) == 1 and k == 1 and rank is None and m[0].op == 'sum' and m[0].a[0].a[1] is ITEM and m[0].a[2] is ci(1):
            rank = subst_guard(m[0].a[1].a[0], {mk('bv', m[0].a[0].a[0]): ITEM})
        elif m == (ITEM,) and k == 1 and rank is None:
            rank = TRUE
        else:
            rest[m] = k
    return from_poly(rest), rank


def count_of(n, g):
    """number of items below n that satisfy g"""
    if n is None:
        return ci(1) if g == TRUE else None
    k = 1 + max(bdd_bv(g), n.bv)
    k = max(k, 1)
    return ssum(binder(k, n), subst_guard(g, {ITEM: mk('bv', k)}), ci(1))


def src_abs(t):
    def f(x):
        if x.op == 'call' and strip_generics(x.a[0]).split('::')[-1] == 'lines':
            return SRC
    return rewrite(t, f)


def src_guard(g):
    return src_abs(b(g)).a[0] if g not in (TRUE, FALSE) else g


def bad_line(c):
    """exists a line that could not be read (other than for not being UTF-8)"""
    k = 1
    v = mk('bv', k)
    e = at(SRC, v)
    return k, v, e


def c24(c):
    F = fields(c)
    if set(F) != {'lsh', 'hasher', 'doc', 'counter'}:
        c.open('string-index-state', c.fn(OWNER, 'insert'), f'fields {sorted(F)}')
        return
    II = lsh_ids(c)
    NH = None
    # ---- constructor
    o = c.summ(c.fn(OWNER, 'new'), anchors=())
    r = o.ret
    if o.error or r.op != 'agg':
        c.open('new-index-is-empty', o, o.error or short(r))
        start = None
    else:
        start = fld(r, F['counter'])
        c.need(fld(r, F['doc']).op == 'mnew', 'new-index-is-empty', o, short(fld(r, F['doc'])), opaque=opaque_in(fld(r, F['doc'])))
        c.need(start.op == 'const', 'new-index-is-empty', o, f'first id counter {short(start)}', opaque=opaque_in(start))
        on = c.summ(c.fn('MinHashIndex', 'num_hashes'), args=(fld(r, F['lsh']),))
        want = on.ret
        hs = fld(r, F['hasher'])
        lens = [ln(x) for x in hs.a[2] if x.op in ('coll', 'rec', 'rep')] if hs.op == 'agg' else []
        ints = [x for x in hs.a[2] if is_int(x)] if hs.op == 'agg' else []
        okk = bool(lens) and all(x is want for x in lens) and all(x is want for x in ints)
        c.need(okk, 'hasher-matches-index', o, f'index takes {short(want)} hashes, hasher makes {[short(x) for x in lens + ints]}',
               opaque=not lens or opaque_in(want, *[x for x in lens if x is not want]))
    # ---- insert defines the signature of a text
    oi = c.summ(c.fn(OWNER, 'insert'))
    sigf = None
    routes = {}
    ranks_ok = True
    for name in ('insert', 'load_from_lines', 'load_from_file', 'load_from_file_parallel'):
        o = c.summ(c.fn(OWNER, name))
        if o.error:
            c.open('every-text-stored', o, o.error)
            continue
        me = o.args[0]
        fin = final(o, me)
        D, I, C = fld(fin, F['doc']), fld(fld(fin, F['lsh']), II), fld(fin, F['counter'])
        D0, I0, C0 = fld(me, F['doc']), fld(fld(me, F['lsh']), II), fld(me, F['counter'])
        if fld(fin, F['hasher']) is not fld(me, F['hasher']):
            c.need(False, 'hasher-unchanged', o, short(fld(fin, F['hasher'])), opaque=opaque_in(fld(fin, F['hasher'])))
        okg, why_ok = [], None
        for g, (d, i, cn, r) in cases(D, I, C, o.ret):
            ad, ai = added(d, D0), added(i, I0)
            opq = opaque_in(d, i, cn) or ad is None or ai is None
            if ad is None or ai is None or len(ad) != len(ai) or len(ad) > 1:
                why = skipped(d, D0) or skipped(i, I0)
                c.need(False, 'every-text-stored', o, why or f'texts {short(d)} / signatures {short(i)} if {short(g)}', opaque=opq and not why)
                continue
            isok = name == 'insert' or (r.op == 'agg' and r.a[1] == 'Ok') or (r is UNIT)
            if not isok and not (r.op == 'agg' and r.a[1] == 'Err'):
                c.need(False, 'errors-are-returned', o, short(r), opaque=True)
            if not ad:
                c.need(cn is C0, 'ids-are-unique', o, f'counter becomes {short(cn)} although nothing is added', opaque=opaque_in(cn))
                if isok:
                    okg.append((g, ci(0), FALSE, r, None))
                continue
            (n1, g1, k1, v1), (n2, g2, k2, v2) = ad[0], ai[0]
            c.need(k1 is k2 and n1 is n2 and g1 == g2, 'text-and-signature-under-one-id', o,
                   f'text under {short(k1)} if {short(g1)}, signature under {short(k2)} if {short(g2)}', opaque=opaque_in(k1, k2, b(g1), b(g2)))
            # signature of that very text
            if name == 'insert':
                if v1 is o.args[1]:
                    sigf = (o.args[1], v2, me)
                else:
                    c.need(False, 'every-text-stored', o, f'stores {short(v1)}', opaque=opaque_in(v1))
            elif sigf:
                want = subst(sigf[1], {sigf[0]: v1, sigf[2]: me})
                c.need(v2 is want, 'signature-of-its-own-text', o, f'{short(v2)} for the text {short(v1)}', opaque=opaque_in(v2))
            # fresh ids
            base, rank = find_sum(k1) if n1 is not None else (k1, TRUE)
            delta = sub(base, C0)
            num = count_of(n1, g1)
            if n1 is None:
                fresh = cn is add(C0, ci(1)) and delta.op == 'const'
            else:
                fresh = rank is not None and delta.op == 'const' and (
                    rank == g1 and cn is add(C0, num) or rank == TRUE and cn is add(C0, n1))
            c.need(fresh, 'ids-are-unique', o, f'ids {short(k1)}, next counter {short(cn)}', opaque=opaque_in(cn, k1) or (rank is None and n1 is not None and 'sum' in {x.op for x in subterms(k1)}))
            if fresh:
                routes[(name, g)] = (delta, o)
                if n1 is not None and rank != g1:
                    ranks_ok = False
            if isok:
                okg.append((g, num, g1, r, (n1, v1)))
        if name == 'insert':
            c.need(len(okg) == 1 and okg[0][4] is not None and okg[0][2] == TRUE, 'every-text-stored', o,
                   f'the text is stored only if {short(OR(*[g for g, _, gg, _, x in okg if x]) if okg else FALSE)}', opaque=opaque_in(D, I))
        else:
            loader(c, o, name, okg, C, C0, F, D0)
    ds = {d for d, _ in routes.values()}
    if ds:
        c.need(len(ds) == 1, 'ids-are-unique', oi, f'the routes number texts from different offsets {[ (k[0], short(v[0])) for k, v in routes.items()]}')
    loaders_agree(c)
    # ---- size
    o = c.summ(c.fn(OWNER, 'size'))
    me = o.args[0]
    by_counter = o.ret is fld(me, F['counter']) and ranks_ok and start is ci(0)
    by_len = o.ret in (ln(fld(me, F['doc'])), ln(fld(fld(me, F['lsh']), II)))
    c.need(by_counter or by_len, 'size-is-number-of-texts', o, short(o.ret), opaque=opaque_in(o.ret) or bool(o.error))
    # ---- query
    o = c.summ(c.fn(OWNER, 'query'))
    me, txt = o.args[0], o.args[1]
    if sigf and not o.error:
        sig = subst(sigf[1], {sigf[0]: txt, sigf[2]: me})
        ol = c.summ(c.fn('MinHashIndex', 'query'), args=(fld(me, F['lsh']), sig))
        want = ol.ret
        got, exp = results(o.ret), results(want)
        if got is None or exp is None or len(exp) != 1:
            c.open('query-returns-the-matched-texts', o, short(o.ret))
        elif len(got) != 1:
            c.need(False, 'query-returns-the-matched-texts', o, short(o.ret), opaque=opaque_in(o.ret))
        else:
            x, y = got[0], exp[0]
            dm = fld(me, F['doc'])
            g = restrict_some(x.guard, dm)
            bands = fld(me, F['lsh'])

            def members(t):
                # the members of an id container, whichever container it is
                if t.op == 'fld' and t.a[0].op == 'fld' and t.a[0].a[0].op == 'get' and bands in subterms(t.a[0].a[0].a[0]) and len(t.a) > 2 and t.a[2] is None:
                    return t.a[0]
            bs1, bs2 = [rewrite(q.a[1], members) for q in x.binders], [q.a[1] for q in y.binders]
            idt = y.elem
            g = rewrite_guard(g, members)
            x.elem = rewrite(x.elem, members)
            good = x.elem in (unwrap(get(dm, idt)), get(dm, idt)) and bs1 == bs2 and same(g, y.guard)
            c.need(good, 'query-returns-the-matched-texts', o,
                   f'{short(x.elem)} if {short(g)} instead of the text of {short(idt)} if {short(y.guard)}', opaque=opaque_in(x.elem, b(g)))
    # every panic of a query or insertion is excluded by: maps have the same keys, hasher length = index length
    for name in ('insert', 'query', 'load_from_lines', 'load_from_file', 'load_from_file_parallel'):
        o = c.summ(c.fn(OWNER, name))
        me = o.args[0]
        for e in o.panics:
            if not e.sp.startswith('gaoya/src/minhash/string_index.rs'):
                continue
            g = e.guard
            if e.kind in ('unwrap', 'map-index') and e.args and e.args[0].op == 'get' and e.args[0].a[0] is fld(me, F['doc']):
                st = isSome(get(fld(fld(me, F['lsh']), II), e.args[0].a[1]))
                c.need(entails(g, st), 'no-panic-on-read-or-query', o, f'the text of an id that is not indexed is unwrapped if {short(g)}', e.sp, opaque=opaque_in(b(g)))
                continue
            if g == FALSE:
                continue
            if e.kind == 'unwrap' or e.kind in ('expect', 'unwrap_err', 'panic'):
                c.need(entails(g, FALSE), 'no-panic-on-read-or-query', o, f'{e.kind} if {short(g)}', e.sp, opaque=opaque_in(b(g)))


def is_int(x):
    return x.op in ('poly', 'param') or x.op == 'const' and isinstance(x.a[0], int)


def restrict_some(g, dm):
    """drop 'the text of the id is there' tests from a guard: a fact by the invariant that both maps have the same ids"""
    for a in atoms_of(g):
        if a.op == 'is' and a.a[0].op == 'get' and a.a[0].a[0] is dm:
            g = cofactor(g, a, True)
    return g


def same(a, bb):
    return a == bb or entails(a, bb) and entails(bb, a)


def loader(c, o, name, okg, C, C0, F, D0):
    """a load adds every readable line, reports how many, and reports errors"""
    okall = FALSE
    for g, num, g1, r, x in okg:
        okall = OR(okall, g)
        if x is not None:
            n1, v1 = x
            src = [y for y in subterms(v1) if y.op == 'call' and strip_generics(y.a[0]).split('::')[-1] == 'lines']
            if len(src) == 1 and n1 is not None:
                L = src[0]
                line = at(L, ITEM)
                okline = is_(line, 'Ok')
                c.need(v1 is fld(line, 0, 'Ok'), 'every-line-is-loaded', o, f'stores {short(v1)}', opaque=opaque_in(v1))
                c.need(n1 is ln(L), 'every-line-is-loaded', o, f'only the first {short(n1)} lines', opaque=opaque_in(n1))
                gg = restrict(g1, okline) if entails(g1, okline) else None
                c.need(same(g1, okline), 'every-line-is-loaded', o, f'a line is added only if {short(g1)}', opaque=opaque_in(b(g1)) or opaque_in(v1))
            else:
                c.need(False, 'every-line-is-loaded', o, short(v1), opaque=True)
        if r.op == 'agg' and r.a[1] == 'Ok' and r.a[2][0] is not UNIT:
            got = phi_under(r.a[2][0], g)
            if num is not None:
                # the ids added are new, so a map grows by their number
                got = rewrite(got, lambda t: add(ln(D0), num) if t.op == 'len' and t.a[0].op in ('mapgen', 'mins') and t.a[0].a[0] is D0 else None)
            c.need(got is num, 'count-is-number-added', o, f'{short(got)} reported, {short(num)} added', opaque=opaque_in(got))
    # success only without a read error
    srcs = {y for t in (o.ret, C) for y in subterms(t) if y.op == 'call' and strip_generics(y.a[0]).split('::')[-1] == 'lines'}
    if len(srcs) == 1:
        L = next(iter(srcs))
        k = 1 + L.bv
        line = at(L, mk('bv', k))
        kinds = {y for t in atoms_of(okall) for y in subterms(t) if y.op == 'is' and y.a[1] == 'InvalidData'}
        notok = NOT(is_(line, 'Ok'))
        broken = exists(binder(k, ln(L)), notok)
        # a line that fails for another reason than its encoding
        res = [a for a in atoms_of(okall) if a.op == 'exists' and a.a[0].a[1] is ln(L)]
        okk = entails(okall, NOT(broken))
        for a in res:
            v = mk('bv', a.a[0].a[0])
            ln_ = at(L, v)
            cond = a.a[1].a[0]
            ats = [y for y in atoms_of(cond) if y.op == 'is' and y.a[1] == 'InvalidData']
            rest = cond
            for y in ats:
                rest = cofactor(rest, y, False)
            if same(rest, NOT(is_(ln_, 'Ok'))) and entails(okall, NOT(atom(a))):
                okk = True
        c.need(okk, 'errors-are-returned', o, f'reports success if {short(okall)}', opaque=opaque_in(b(okall)))
    else:
        c.need(False, 'errors-are-returned', o, 'no line source', opaque=True)
    # failing to open the file is an error
    opens = {y for t in (o.ret,) for y in subterms(t) if y.op == 'call' and strip_generics(y.a[0]).split('::')[-1] == 'open'}
    for y in opens:
        c.need(entails(okall, is_(y, 'Ok')), 'errors-are-returned', o, f'success although {short(y)} failed', opaque=opaque_in(b(okall)))
    # the error passed on is the one that happened
    for g, r in parts_of(o.ret):
        if r.op == 'agg' and r.a[1] == 'Err':
            e = r.a[2][0]
            good = e.op == 'fld' and e.a[2] == 'Err' if len(e.a) > 2 else e.op == 'fld'
            c.need(good, 'errors-are-returned', o, f'Err({short(e)})', opaque=True)
    for e in o.panics:
        if e.kind in ('unwrap', 'expect') and e.args and any(y.op == 'call' and strip_generics(y.a[0]).split('::')[-1] in ('lines', 'open') for y in subterms(e.args[0])):
            c.need(e.guard == FALSE or entails(e.guard, FALSE), 'errors-are-returned', o, f'panics on a failed read ({short(e.guard)})', e.sp)


def loaders_agree(c):
    a, bb = c.summ(c.fn(OWNER, 'load_from_file')), c.summ(c.fn(OWNER, 'load_from_file_parallel'))
    if a.error or bb.error:
        return
    env = {bb.args[0]: a.args[0], bb.args[1]: a.args[1]}

    def okguard(o, sb):
        g = FALSE
        for h, r in parts_of(o.ret):
            if r.op == 'agg' and r.a[1] == 'Ok':
                g = OR(g, h)
        return subst_guard(g, sb)
    g1, g2 = src_guard(okguard(a, {})), src_guard(okguard(bb, env))
    c.need(same(g1, g2), 'loaders-accept-the-same-files', bb, f'{short(g1)} against {short(g2)}', opaque=opaque_in(b(g1), b(g2)))
