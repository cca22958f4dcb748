"""Signatures: C08 (similarity functions), C09 (reproducible), C10 (MinHash), C12 (band parameters), C15 (SimHash)."""
import math
from .common import *
from . import graph as G
from . import p_minhash as PM

HASHERS = ('MinHasher8', 'MinHasher16', 'MinHasher32', 'MinHasher64V1')
WIDTH = {'MinHasher8': 'u8', 'MinHasher16': 'u16', 'MinHasher32': 'u32', 'MinHasher64V1': 'u64'}


def no_narrow(c, o, rule='no-narrow-arithmetic'):
    for fn, sp, text in getattr(o, 'narrow', []):
        c.bad(rule, o, f'{text} can wrap around', sp)
    if not getattr(o, 'narrow', []):
        c.ok(rule, o)


# ------------------------------------------------------------------ C08
def c08(c):
    PM.sim_def(c)
    k = c.fn('', 'compute_minhash_similarity', mod='minhash')
    o = c.summ(k, anchors=())
    p, q = o.args[:2]
    length_guard(c, o, p, q)
    no_narrow(c, o)
    only_reject(c, o, p, q)
    path = c.P.fns[k]['path']
    d = c.summ(c.fn('', 'compute_minhash_distance', mod='minhash'))
    p, q = d.args[:2]
    okd = d.ret.op == 'fsub' and d.ret.a[0] is cf(1.0) and (
        (d.ret.a[1].op == 'call' and d.ret.a[1].a[0] == path and set(d.ret.a[1].a[1]) == {p, q}) or PM.is_match_ratio(d.ret.a[1], p, q))
    if not okd:
        d2 = c.summ(d.fn.key, anchors=())
        okd = d2.ret.op == 'fsub' and d2.ret.a[0] is cf(1.0) and PM.is_match_ratio(d2.ret.a[1], *d2.args[:2])
        okd = okd or is_miss_ratio(d2.ret, *d2.args[:2])
    c.need(okd, 'distance-is-one-minus-similarity', d, short(d.ret), opaque=opaque_in(d.ret))
    d3 = c.summ(d.fn.key, anchors=())
    length_guard(c, d3, *d3.args[:2])
    s = c.summ(c.fn('', 'similarity_greater_than_threshold', mod='minhash'), anchors=())
    length_guard(c, s, *s.args[:2])
    only_reject(c, s, *s.args[:2])
    no_narrow(c, s)
    # MinHasher::compute_similarity compares the signatures of the two inputs
    for kk in [k2 for k2, f in c.P.fns.items() if f['kind'] != 'Closure' and f['name'] == 'compute_similarity' and '::minhash::' in f['key']]:
        m = c.summ(kk)
        i1, i2 = m.args[1], m.args[2]
        okm = False
        if m.ret.op == 'call' and m.ret.a[0] == path:
            x, y = m.ret.a[1][:2]
            okm = {sig_of(x), sig_of(y)} == {i1, i2}
        c.need(okm, 'compute_similarity-compares-both-signatures', m, short(m.ret), opaque=opaque_in(m.ret))
    # Jaccard
    j = c.summ(c.fn('', 'compute_jaccard_similarity', mod='minhash'))
    c.need(is_jaccard(j.ret, j.args[0], j.args[1]), 'jaccard-is-intersection-over-union', j, short(j.ret), opaque=opaque_in(j.ret))
    no_narrow(c, j)
    jd = c.summ(c.fn('', 'compute_jaccard_distance', mod='minhash'))
    c.need(jd.ret.op == 'fsub' and jd.ret.a[0] is cf(1.0) and is_jaccard(jd.ret.a[1], jd.args[0], jd.args[1]), 'jaccard-distance-is-one-minus', jd,
           short(jd.ret), opaque=opaque_in(jd.ret))


def sig_of(t):
    """the input a signature was created from"""
    if t.op == 'call' and strip_generics(t.a[0]).endswith('create_signature'):
        x = t.a[1][1]
        while x.op == 'it':
            x = x.a[1]
        return x
    return None


def is_miss_ratio(t, p, q):
    if t.op != 'fdiv' or PM.uncast(t.a[1]) not in (ln(p), ln(q)):
        return False
    return PM.is_match_count(PM.uncast(t.a[0]), p, q, miss=True)


def length_guard(c, o, p, q):
    want = NOT(eq(ln(p), ln(q)))
    got = FALSE
    for e in o.panics:
        if not e.loops:
            got = OR(got, e.guard)
    c.entail(want, got, 'unequal-lengths-rejected', o, f'rejected only if {short(got)}', opaque=bool(o.error))


def only_reject(c, o, p, q):
    """equal lengths never panic (n > 0)"""
    ok_ = AND(eq(ln(p), ln(q)), pos(ln(p)))
    for e in o.panics:
        g = AND(e.guard, ok_)
        if entails(g, FALSE) or e.kind.startswith('assert:') and 'overflow' in e.kind:
            continue
        if e.kind in ('index', 'bounds', 'slice-index') or e.loops:
            continue
        c.need(False, 'equal-lengths-accepted', o, f'{e.kind} when {short(g)}', e.sp, opaque=opaque_in(b(g)))
        return
    c.ok('equal-lengths-accepted', o)


def is_jaccard(t, a, b_):
    if t.op != 'fdiv':
        return False
    n, d = t.a
    if n.op not in ('i2f', 'i2f32') or d.op not in ('i2f', 'i2f32'):
        return False
    n, d = n.a[0], d.a[0]
    sets = [x for x in subterms(t) if x.op == 'coll' and x.a[0] == 'set']
    A = [x for x in sets if full_set(x, a)]
    B = [x for x in sets if full_set(x, b_)]
    if not A or not B:
        return False
    A, B = A[0], B[0]
    inter = [mk('len', x) for x in subterms(n) if x.op == 'call' or x.op in ('intersection', 'setop')]
    okn = is_inter_count(n, A, B)
    if not okn:
        return False
    uni = sub(add(ln(A), ln(B)), n)
    return d is uni or is_union_count(d, A, B)


def full_set(x, src):
    if x.a[1] is not EMPTY or len(x.a[2]) != 1:
        return False
    bs, g, e = x.a[2][0]
    return len(bs) == 1 and not (set(bs[0].a[2]) - {'par'}) and g.a[0] == TRUE and bs[0].a[1] is ln(src) and e is at(src, mk('bv', bs[0].a[0]))


def is_inter_count(n, A, B):
    if n.op == 'len':
        x = n.a[0]
        return x.op in ('intersection',) and set(x.a) == {A, B} or x.op == 'call' and strip_generics(x.a[0]).endswith('intersection') and set(x.a[1]) == {A, B}
    if n.op == 'sum' and n.a[2] is ci(1) and not (len(n.a) > 3 and n.a[3]):
        # the elements of one set that are in the other
        bd = n.a[0]
        v = mk('bv', bd.a[0])
        src = lambda S: S.a[2][0][0][0].a[1].a[0]       # full_set: the sequence the set was collected from
        for X, Y in ((A, B), (B, A)):
            for x in ((X,) if not bd.a[2] else (X, src(X)) if set(bd.a[2]) <= {'set', 'par'} and 'set' in bd.a[2] else ()):
                if bd.a[1] is ln(x) and any(n.a[1].a[0] == atom(mk('has', y, at(x, v))) for y in (Y, src(Y))):
                    return True
    return False


def is_union_count(n, A, B):
    if n.op == 'len':
        x = n.a[0]
        return x.op in ('union',) and set(x.a) == {A, B} or x.op == 'call' and strip_generics(x.a[0]).endswith('::union') and set(x.a[1]) == {A, B}
    return False


# ------------------------------------------------------------------ C09
CELLS = ('Cell', 'RefCell', 'Mutex', 'RwLock', 'AtomicUsize', 'AtomicU64', 'AtomicU32', 'AtomicI64', 'AtomicBool', 'AtomicPtr', 'UnsafeCell', 'OnceCell', 'OnceLock', 'LazyCell')


def hasher_roots(c):
    out = []
    for h in HASHERS:
        c.adt(h)
        for n in ('new', 'new_with_hasher', 'new_with_hasher_and_seed'):
            out.append(c.fn(h, n))
        out.append(c.fn(h, 'create_signature', trait='MinHasher'))
        out += c.find(h, 'clone', 'Clone')
    out += [c.fn('SimHash', 'new'), c.fn('SimHash', 'create_signature'), c.fn('SimHash', 'create_centroid')]
    for h in ('SimSipHasher64', 'SimSipHasher128'):
        out += [c.fn(h, 'new'), c.fn(h, 'hash', trait='SimHasher')]
    for n in ('finish', 'write'):
        out += c.find('Sha1Hasher', n, 'Hasher')
    out += c.find('Sha1Hasher', 'new', '')
    for k, f in c.P.fns.items():
        if f['kind'] != 'Closure' and f['key'].startswith('gaoya::minhash::MinHasher::'):
            out.append(k)
    return out


def c09(c):
    roots = hasher_roots(c)
    seen, ext = G.reach(c.P, roots)
    bad = G.nondet(ext)
    for k, p, sp in bad:
        chain = ' -> '.join(c.P.fns[x]['path'] for x in seen[k])
        c.bad('no-hidden-input', k, f'{p} is called on the way {chain}', sp)
    badf = {k for k, _, _ in bad}
    for k in seen:
        for sp in G.addresses(c.P.fns[k]) if k in c.P.fns else ():
            c.bad('no-hidden-input', k, 'a memory address becomes a number', sp)
            badf.add(k)
    for k in seen:
        f = c.P.fns[k]
        c.analysed[f['path']] = f['sp']
        if k not in badf:
            c.ok('no-hidden-input', k)
    c.counts['call_sites'] += len(ext)
    # statics with interior mutability or mutable statics
    for k, kind, key, path, g, sp in ext:
        if kind == 'static' and any(x in str(g) for x in ('Atomic', 'Mutex', 'Cell', 'static mut')):
            c.bad('no-hidden-state', k, path, sp)
    # no hidden state in the hashers, and creating a signature leaves them as they were
    for h in HASHERS + ('SimHash', 'SimSipHasher64', 'SimSipHasher128'):
        a = c.adt(h)
        cells = [n for f in a['variants'][0]['fields'] for n, _ in G.types_in(f['ty']) if n in CELLS]
        c.need(not cells, 'no-hidden-state', c.find(h, 'new')[0], f'{h} holds a {cells}')
    for h in HASHERS:
        o = c.summ(c.fn(h, 'create_signature', trait='MinHasher'))
        values_only(c, o, o.ret, set(o.args))
    o = c.summ(c.fn('SimHash', 'create_signature'))
    values_only(c, o, o.ret, set(o.args))
    for h in ('SimSipHasher64', 'SimSipHasher128'):
        o = c.summ(c.fn(h, 'hash', trait='SimHasher'))
        values_only(c, o, o.ret, set(o.args))
        k = c.summ(c.fn(h, 'new'))
        used = {x for x in subterms(k.ret) if x.op == 'param'}
        c.need(used == set(k.args), 'keys-are-kept', k, short(k.ret), opaque=opaque_in(k.ret))
        flds = {fld(o.args[0], i) for i in range(len(c.adt(h)['variants'][0]['fields']))}
        c.need(flds <= subterms(o.ret), 'keys-are-used', o, short(o.ret), opaque=opaque_in(o.ret))
    # constructors: the coefficients come from a generator seeded with the seed parameter; defaults are fixed
    for h in HASHERS:
        s = c.summ(c.fn(h, 'new_with_hasher_and_seed'))
        seed, n, bh = s.args[2], s.args[0], s.args[1]
        st = subterms(s.ret)
        c.need(seed in st, 'seed-determines-coefficients', s, 'the seed is not used', opaque=False)
        c.need(bh in st, 'hasher-is-kept', s, 'the given hasher is not used', opaque=False)
        seeds = [x for x in st if x.op == 'call' and 'seed' in strip_generics(x.a[0]).split('::')[-1]]
        c.need(all(set(y for y in subterms(x.a[1]) if y.op == 'param') <= {seed} for x in seeds) and seeds, 'generator-seeded-with-the-seed', s,
               str([short(x) for x in seeds]), opaque=not seeds and opaque_in(s.ret, extra=()))
        for n_ in ('new', 'new_with_hasher'):
            m = c.summ(c.fn(h, n_))
            sd = [x for x in subterms(m.ret) if x.op == 'call' and 'seed' in strip_generics(x.a[0]).split('::')[-1]]
            c.need(bool(sd) and all(y.op == 'const' for x in sd for y in x.a[1]), 'default-seed-is-constant', m, str([short(x) for x in sd]))


def values_only(c, o, t, allowed):
    bad = [x for x in subterms(t) if x.op in ('unk', 'opq', 'static_mut') or x.op == 'param' and x.a[0] >= 0 and x not in allowed]
    eff = [e for e in o.effects if e.op not in ('call', 'panic', 'read', 'capacity') and e.loc and e.loc[0][0] == 'V' and e.loc[0][1] is o.args[0]]
    c.need(not bad and not eff, 'signature-depends-only-on-hasher-and-tokens', o,
           f'{[short(x) for x in bad]} {[repr(e)[:80] for e in eff]}', opaque=bool(bad) and not eff)


# ------------------------------------------------------------------ C10
def c10(c):
    mods = {}
    for h in HASHERS:
        c.ok('anchor', c.fn(h, 'create_signature', trait='MinHasher'))
        left = one_minhasher(c, h)
        if left is not None:
            mods[h] = {x.a[1] for x in subterms(left) if x.op == 'rem' and x.a[1].op == 'const'}
    wide = mods.get('MinHasher32')
    if wide:
        for h in ('MinHasher16', 'MinHasher8'):
            if mods.get(h):
                o = c.summ(c.fn(h, 'create_signature', trait='MinHasher'))
                c.need(mods[h] == wide, 'truncation-only-of-the-minimum', o, f'hashes are reduced modulo {[short(x) for x in mods[h]]}, by the wider hasher modulo {[short(x) for x in wide]}')
        # a hasher of its own may not override the bulk forms with something else (C06 compares them)


def ctor_env(c, h):
    s = c.summ(c.fn(h, 'new_with_hasher_and_seed'))
    return s, s.args[0]


def one_minhasher(c, h):
    k = c.fn(h, 'create_signature', trait='MinHasher')
    o = c.summ(k)
    me, it = o.args[0], o.args[1]
    ctor, n = ctor_env(c, h)
    op = opaque_in(o.ret)
    cl = lambda t: subst(t, {me: ctor.ret})
    # length in every case
    for g, t in parts_of(o.ret):
        L = cl(ln(t))
        c.need(len_is(L, n), 'num_hashes-values', o, f'{short(L)} values when {short(g)}', opaque=opaque_in(L))
    # non-empty input: slot = min over all tokens
    full = phi_under(phi([(rewrite(b(g), same_empty).a[0], t) for g, t in parts_of(o.ret)]), pos(ln(it)))
    if full.op == 'phi':
        c.need(False, 'slot-is-minimum-over-all-tokens', o, short(full), opaque=op)
        return
    j = mk('param', -14, 'SLOT')
    UNSIGNED.add(j)
    e = at(full, j)
    e = untrunc(e)
    H = min_over(e, it)
    if H is None:
        c.need(False, 'slot-is-minimum-over-all-tokens', o, short(e), opaque=opaque_in(e))
        return
    tok, val = H
    # the value of a token: a function of its hash and of the slot, nothing else
    left = rewrite(val, lambda x: mk('param', -15, 'HASH') if is_tokhash(x, tok, me) else None)
    other = [x for x in subterms(left) if x is it or x.op == 'bv' or x.op == 'at' and x.a[0] is it]
    c.need(not other and mk('param', -15, 'HASH') in subterms(left), 'hash-of-the-token-only', o, short(val), opaque=opaque_in(val))
    lens = [x for x in subterms(left) if x.op == 'len' and it in subterms(x)]
    c.need(not lens, 'hash-of-the-token-only', o, short(val))
    c.need(j in subterms(left), 'one-hash-function-per-slot', o, f'{short(val)} does not depend on the slot')
    # coefficients differ per slot: drawn one after the other
    cs_ = [x for x in subterms(left) if x.op == 'at' and x.a[1] is j]
    dist = False
    for x in cs_:
        v = cl(x.a[0])
        if v.op == 'rec':
            dist = True
        elif v.op == 'coll' and len(v.a[2]) == 1 and len(v.a[2][0][0]) == 1:
            bd = v.a[2][0][0][0]
            dist = dist or mk('bv', bd.a[0]) in subterms(v.a[2][0][2])
        elif opaque_in(v):
            dist = True
    if cs_:
        c.need(dist, 'one-hash-function-per-slot', o, 'the coefficients of all slots are equal')
    c.ok('slot-is-minimum-over-all-tokens', o)
    # width of the arithmetic before the minimum
    tr = [x for x in subterms(val) if x.op == 'trunc' and x.a[0] in ('u8', 'u16', 'i8', 'i16')]
    c.need(not tr, 'truncation-only-of-the-minimum', o, str([short(x) for x in tr]))
    for e in o.panics:
        g = cl(b(e.guard)).a[0]
        if g == FALSE or e.kind == 'assert:rem0' or e.loops:
            continue
        c.need(False, 'no-panic', o, f'{e.kind} when {short(g)}', e.sp, opaque=True)
    return left


def len_is(L, n):
    if L is n:
        return True
    if L.op == 'min':
        return len_is(L.a[0], n) and len_is(L.a[1], n)
    if L.op == 'phi':
        return all(len_is(x, n) for _, x in L.a)
    return False


def untrunc(e):
    while e.op == 'trunc':
        e = e.a[1]
    return e


def same_empty(x):
    """dropping repetitions and reordering leave a sequence as (non-)empty as it was"""
    if x.op == 'len' and x.a[0].op in ('dedup', 'sorted', 'rev'):
        y = ln(x.a[0].a[0])
        return same_empty(y) or y


def unordered(S):
    while S.op in ('dedup', 'sorted', 'rev'):
        S = S.a[0]
    return S


TOK = mk('param', -16, 'TOKEN')
UNSIGNED.add(TOK)


def min_over(e, it):
    """e = min over all tokens; returns (index symbol, value of a token)"""
    for S in [x for x in subterms(e) if x.op in ('dedup', 'sorted', 'rev')]:
        # a minimum over the elements of S, not over their positions
        C = unordered(S)
        if C.op == 'coll' and C.a[0] == 'vec' and ln(C) is ln(it):
            def f(x):
                if x.op == 'at' and x.a[0] is S and x.a[1].op == 'bv':
                    return at(C, x.a[1])
                if x.op == 'len' and x.a[0] is S:
                    return ln(C)
            e2 = rewrite(e, f)
            if S not in subterms(e2):
                r = min_over(e2, it)
                if r is not None and not any(x is TOK for x in subterms(rewrite(r[1], lambda y: at(it, ci(0)) if y is at(it, TOK) else None))):
                    return r
    if e.op == 'best' and e.a[0] == 'min':
        src, cmp_ = e.a[1], e.a[2]
        if not natural(cmp_):
            return None
        if src.op == 'coll' and src.a[1] is EMPTY and len(src.a[2]) == 1:
            bs, g, x = src.a[2][0]
            if len(bs) == 1 and g.a[0] == TRUE and bs[0].a[1] is ln(it) and not (set(bs[0].a[2]) - {'par', 'set'}):
                return TOK, subst(x, {mk('bv', bs[0].a[0]): TOK})
    if e.op == 'over' and e.a[0] == 'min':
        bd, g, x, v0 = e.a[1:5]
        # starting value: not smaller than any hash
        if g.a[0] == TRUE and bd.a[1] is ln(it) and not (set(bd.a[2]) - {'par', 'set'}) and v0.op == 'const' and v0.a[1] >= 2**31 - 2:
            return TOK, subst(x, {mk('bv', bd.a[0]): TOK})
    return None


def natural(cmp_):
    return cmp_.op == 'cmp' and cmp_.a[0] is mk('ph', 1) and cmp_.a[1] is mk('ph', 2) or cmp_.op == 'const'


def is_tokhash(x, tok, me):
    """finish(hash(token) into a fresh hasher of self)"""
    if not (x.op == 'call' and strip_generics(x.a[0]).split('::')[-1] in ('finish', 'hash_one')):
        return False
    return any(y.op == 'at' and y.a[1] is tok for y in subterms(x))


# ------------------------------------------------------------------ C12
def c12(c):
    o = c.summ(c.fn('', 'calculate_minhash_params_with_proba', mod='minhash'))
    s, n, p = o.args[:3]
    params(c, o, s, n, p)
    o2 = c.summ(c.fn('', 'calculate_minhash_params', mod='minhash'))
    fixed = [x for x in subterms(o2.ret) if x.op == 'const' and x.a[0] == 'float' and 0.5 < x.a[1] < 1]
    params(c, o2, o2.args[0], o2.args[1], fixed[0] if len(fixed) == 1 else None)
    for oo in (o, o2):
        for e in oo.panics:
            if AND(e.guard, pos(oo.args[1])) == FALSE or e.guard == FALSE:
                continue
            c.need(False, 'no-panic', oo, f'{e.kind} when {short(e.guard)}', e.sp, opaque=opaque_in(b(e.guard)) or bool(e.loops))


def norm_pow(t):
    def f(x):
        if x.op in ('i2f', 'i2f32'):
            return x.a[0] if x.a[0].op != 'const' else cf(float(x.a[0].a[1]))
        if x.op in ('pow', 'powi', 'powf'):
            return mk('pow', x.a[0], x.a[1])
    return rewrite(t, f)


def params(c, o, s, n, p):
    r = o.ret
    if p is None:
        c.need(False, 'desired-probability', o, 'no single desired probability', opaque=True)
        return
    if not (r.op == 'agg' and r.a[0] == 'tuple' and len(r.a[2]) == 2):
        c.need(False, 'band-count-is-hashes-over-width', o, short(r), opaque=opaque_in(r) or r.op == 'phi')
        return
    bt, rt = r.a[2]
    firsts = [x for x in subterms(r) if x.op == 'first']
    firsts = [x for x in firsts if not any(x is not y and x in subterms(y) for y in firsts)]
    if len(firsts) != 1:
        c.need(False, 'band-count-is-hashes-over-width', o, short(r), opaque=opaque_in(r) or not firsts and not (bt is div(n, rt)))
        return
    F = firsts[0]
    K = mk('param', -17, 'K')
    UNSIGNED.add(K)
    bK, rK = subst(bt, {F: K}), subst(rt, {F: K})
    # start
    b0, r0 = subst(bK, {K: ci(0)}), subst(rK, {K: ci(0)})
    c.need(r0 is ci(1) and b0 is n, 'starts-at-width-one', o, f'b = {short(b0)}, r = {short(r0)}', opaque=opaque_in(b0, r0))
    bP, rP = phi_under(bK, pos(K)), phi_under(rK, pos(K))
    c.need(bP is div(n, rP), 'band-count-is-hashes-over-width', o, f'b = {short(bP)}, r = {short(rP)}', opaque=opaque_in(bP, rP))
    c.need(rP is add(K, ci(1)) or sub(rP, K).op == 'const', 'width-positive', o, short(rP), opaque=opaque_in(rP))
    # the step from V to V+1 was taken only because the probability of the new pair exceeds p
    V = mk('param', -18, 'V')
    UNSIGNED.add(V)
    ex = F.a[1].a[0]
    stay = NOT(subst_guard(ex, {mk('bv', F.a[0].a[0]): V}))
    b1, r1 = (phi_under(subst(x, {K: add(V, ci(1))}), pos(add(V, ci(1)))) for x in (bK, rK))
    one = cf(1.0)
    want = flt(p, norm_pow(mk('fsub', one, mk('pow', mk('fsub', one, mk('pow', s, r1)), b1))))
    st = norm_pow(b(stay)).a[0]
    c.need(entails(st, want), 'probability-exceeds-the-requested-one', o,
           f'width {short(r1)} with {short(b1)} bands is accepted under {short(stay)}', opaque=opaque_in(b(stay)))
    # b >= 1: with b = 0 the probability is 0, which is not > p


# ------------------------------------------------------------------ C15
def c15(c):
    o = c.summ(c.fn('SimHash', 'create_signature'))
    it = o.args[1]
    hk = lambda t, v: None
    majority(c, o, it, lambda v: None, 'sign')
    no_narrow(c, o, 'counters-do-not-wrap')
    o = c.summ(c.fn('SimHash', 'create_centroid'))
    majority(c, o, o.args[1], None, 'strict')
    no_narrow(c, o, 'counters-do-not-wrap')
    distance(c)
    widths(c)
    for h in ('SimSipHasher64', 'SimSipHasher128'):
        o = c.summ(c.fn(h, 'hash', trait='SimHasher'))
        item = o.args[1]
        okk = any(x.op == 'call' and strip_generics(x.a[0]).endswith('::hash') and item in x.a[1] for x in subterms(o.ret))
        tr = [x for x in subterms(o.ret) if x.op in ('trunc', 'bitand', 'shr')]
        c.need(okk and not tr, 'token-hash-of-the-whole-token', o, short(o.ret), opaque=opaque_in(o.ret) and okk)


ZC, OC = mk('param', -21, 'ZEROS'), mk('param', -22, 'ONES')
UNSIGNED.add(ZC), UNSIGNED.add(OC)


def majority(c, o, it, _, kind):
    t = o.ret
    op = opaque_in(t)
    rule = 'bit-is-majority-of-its-own-bit'
    L = mk('sym', 'L')
    if not (t.op == 'over' and t.a[0] in ('or', 'xor', 'add')):
        if t.op == 'sum':
            t = mk('over', 'or', t.a[0], t.a[1], t.a[2], ci(0))
        else:
            c.need(False, rule, o, short(t), opaque=op)
            return
    bd, g, e, v0 = t.a[1:5]
    v = mk('bv', bd.a[0])
    okb = bd.a[1] is L and not bd.a[2] and v0 is ci(0) and e is shl(ci(1), v)
    c.need(okb, 'every-bit-decided-once', o, f'bits {short(bd)}: {short(e)}', opaque=opaque_in(bd.a[1], e, v0))
    if not okb:
        return

    def bit(x, w):
        """x: guard 'bit v of the hash of token w is zero'"""
        return x.op == 'eqz'
    seen = {}

    def f(x):
        if x.op == 'sum':
            b2, g2, d = x.a[0], x.a[1].a[0], x.a[2]
            if b2.a[1] not in (ln(it), add(ZC, OC)) or set(b2.a[2]) - {'par', 'set'} or d.op != 'const' or (len(x.a) > 3 and x.a[3]):
                return None
            w = mk('bv', b2.a[0])
            ats = atoms_of(g2)
            if len(ats) != 1:
                return None
            z = zero_test(ats[0], v, w, it, kind)
            if z is None:
                return None
            pos_ = g2 == atom(ats[0])
            sym = (ZC if pos_ else OC) if z == 'zero' else (OC if pos_ else ZC)
            return mul(d, sym)
        if x.op == 'len' and x.a[0] is it:
            return add(ZC, OC)
    gg = rewrite(g, f).a[0]
    if any(x is it for x in subterms(b(gg))):
        why = order_dependent(g.a[0] if hasattr(g, "a") and getattr(g, "op", "") == "b" else g, it, L)
        c.need(False, rule, o, why or short(g), opaque=op and not why)
        return
    D = sub(OC, ZC)
    if kind == 'sign':
        okk = gg == pos(sub(ZC, OC))
    else:
        N = add(ZC, OC)
        okk = gg in (pos(D), pos(sub(OC, div(N, ci(2)))), NOT(pos(sub(add(ci(1), div(N, ci(2))), OC))), NOT(pos(sub(add(ZC, ci(1)), OC))))
    c.need(okk, rule, o, f'bit set when {short(gg)} (from {short(g)})', opaque=op)


def order_dependent(g, it, L):
    """the counters are updated depending on their own value or on what came before, or not all of them are"""
    for x in subterms(b(g)):
        if x.op != 'rec' or x.a[0].a[1] is not ln(it):
            continue
        k = x.a[0].a[0]
        up = x.a[2][0]
        for y in subterms(up):
            if y.op == 'mv' and y.a[0] == k and y.a[1] > 0:
                return f'the counters depend on what came before: {short(up)}'
        for y in subterms(up):
            if y.op == 'pw':
                bd, base, ix, new, ph = y.a
                n = bd.a[1]
                if base.op == 'mv' and base.a[0] == k:
                    if n.op == 'first' and n.a[0].a[1] in (L, ln(base)) and not opaque_in(n.a[1]) and all(z is not ph for _, z in parts_of(new)):
                        return f'the bits from {short(n)} on are not counted'
                    if n.op == 'const' or n.op == 'poly' and L in subterms(n) and not opaque_in(n):
                        return f'only {short(n)} of the bits are counted'
                    if n in (L, ln(base)) and ix is mk('bv', bd.a[0]):
                        for gg, z in parts_of(new):
                            if any(ph in subterms(a) for a in atoms_of(gg)):
                                return f'a counter is changed depending on its own value: {short(new)}'
                            for u in subterms(z):
                                if u.op in ('min', 'max') and any(a.op == 'const' and isinstance(a.a[1], int) and abs(a.a[1]) < 2**31 - 1 for a in u.a) and ph in subterms(u):
                                    return f'a counter stops at a limit: {short(new)}'
    return None


def zero_test(a, v, w, it, kind):
    """atom a says that bit v of (the hash of) token w is 0 / 1"""
    if a.op == 'eqz':
        t = a.a[0]
        k = 'zero'
        p = to_poly(t)
        if len(p) == 2 and () in p and set(p.values()) == {1, -1}:      # x - 1 == 0
            t = [m for m in p if m != ()][0]
            if len(t) != 1:
                return None
            t = t[0]
            k = 'one'
        if t.op == 'bitand':
            x, y = t.a
            for p_, q in ((x, y), (y, x)):
                if p_ is ci(1) and q.op == 'shr' and q.a[1] is v and whole(q.a[0], w, it, kind):
                    return k
                if p_ is shl(ci(1), v) and whole(q, w, it, kind) and k == 'zero':
                    return k
    return None


def whole(t, w, it, kind):
    if kind == 'strict':
        return t is at(it, w)
    if t.op == 'call' and strip_generics(t.a[0]).split('::')[-1] == 'hash':
        return t.a[1][-1] is at(it, w)
    return False


def distance(c):
    impls = [(k, f) for k, f in c.P.fns.items() if f['kind'] != 'Closure' and f['name'] == 'hamming_distance' and (f.get('impltrait') or '').endswith('SimHashBits')]
    if not impls:
        raise Missing('SimHashBits::hamming_distance')
    for k, f in impls:
        o = c.summ(k)
        p, q = o.args[:2]
        c.need(o.ret in (mk('popcount', bitxor(p, q)), mk('popcount', bitxor(q, p))), 'distance-is-popcount-of-xor', o, short(o.ret), opaque=opaque_in(o.ret))
    for p, w in (('u64', 64), ('u128', 128)):
        o = c.summ(c.fn(p, 'bit_length', trait='SimHashBits'))
        c.need(o.ret is ci(w), 'bit-length-is-the-width', o, short(o.ret), opaque=opaque_in(o.ret))
        o = c.summ(c.fn(p, 'count_ones', trait='SimHashBits'))
        c.need(o.ret is mk('popcount', o.args[0]), 'count-ones-is-popcount', o, short(o.ret), opaque=opaque_in(o.ret))
    for k in [k for k, f in c.P.fns.items() if f['kind'] != 'Closure' and f['name'] == 'hamming_angle']:
        o = c.summ(k)
        p, q = o.args[:2]
        hd = [x for x in subterms(o.ret) if x.op == 'call' and strip_generics(x.a[0]).endswith('hamming_distance') or x.op == 'popcount']
        okk = False
        if len(hd) == 1:
            if hd[0].op == 'call':
                okk = set(hd[0].a[1]) == {p, q}
            else:
                okk = hd[0].a[0] is bitxor(p, q)
            m = monomial(o.ret)
            want = {hd[0]: 1}
            if m is not None:
                bl = [x for x in m[1] if x.op == 'call' and strip_generics(x.a[0]).endswith('bit_length')]
                k0 = math.pi
                if len(bl) == 1:
                    want[bl[0]] = -1
                elif not bl and hd[0].op == 'popcount':
                    k0 = math.pi / {'u64': 64, 'u128': 128}.get((c.P.fns[k].get('implself') or {}).get('n'), 0.5)
                okk = okk and {x: n for x, n in m[1].items() if n} == want and abs(m[0] / k0 - 1) < 1e-12
            else:
                okk = False
        c.need(okk, 'angle-is-distance-times-pi-over-width', o, short(o.ret), opaque=opaque_in(o.ret))


def monomial(t):
    """t = constant * product of atoms to integer powers (floating point read as real numbers)"""
    if t.op == 'const' and isinstance(t.a[1], (int, float)):
        return float(t.a[1]), {}
    if t.op == 'i2f':
        return monomial(t.a[0])
    if t.op in ('fmul', 'fdiv', 'mul'):
        x, y = monomial(t.a[0]), monomial(t.a[1])
        if x is None or y is None:
            return None
        s_ = -1 if t.op == 'fdiv' else 1
        if s_ < 0 and y[0] == 0:
            return None
        d = dict(x[1])
        for q, n in y[1].items():
            d[q] = d.get(q, 0) + s_ * n
        return x[0] * (y[0] if s_ > 0 else 1 / y[0]), d
    if t.op == 'poly':
        p = to_poly(t)
        if len(p) != 1:
            return None
        (ms, k), = p.items()
        d = {}
        for q in ms:
            d[q] = d.get(q, 0) + 1
        return float(k), d
    return 1.0, {t: 1}


def widths(c):
    """wherever a SimHash type is written down with a concrete signature type, L is its width"""
    seen = set()
    for k, f in c.P.fns.items():
        for d in G.walk([f.get('inputs'), f.get('output'), f.get('implself')] + [l for l in f['locals']]):
            if d.get('k') == 'adt' and d['p'].split('::')[-1] == 'SimHash' and len(d['a']) == 3:
                note(c, seen, d, k)
    for k, a in c.P.adts.items():
        for v in a['variants']:
            for f in v['fields']:
                for d in G.walk(f['ty']):
                    if d.get('k') == 'adt' and d['p'].split('::')[-1] == 'SimHash' and len(d['a']) == 3:
                        note(c, seen, d, a['path'])


def note(c, seen, d, where):
    s, l = d['a'][1], d['a'][2]
    if s.get('k') != 'prim':
        return
    key = (s['n'], str(l.get('v')), where)
    if key in seen:
        return
    seen.add(key)
    w = {'u64': 64, 'u128': 128}.get(s['n'])
    v = str(l.get('v'))
    v = v.split('_')[0] if v[:1].isdigit() else v
    c.need(v == str(w), 'signature-uses-all-bits', where, f'SimHash<_, {s["n"]}, {l.get("v")}>', opaque=not v.isdigit())
