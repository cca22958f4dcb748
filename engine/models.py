"""Transfer functions of the library calls the analysed code uses, and of iterators."""
import json
from .terms import *
from .interp import (InterpBase, State, DriverFound, Unsupported, strip_generics, strip_ref, castop, arith, notop,
                     upa, _UINT, _BITS)

M = {}


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


class Call:
    """one library call"""

    def __init__(c, I, st, fn, args, site, atys, dty):
        c.I, c.st, c.fn, c.args, c.site, c.atys, c.dty = I, st, fn, args, site, atys, dty
        c.name = strip_generics(fn['path'])

    def v(c, n):
        return c.I.val(c.st, c.args[n])

    def ret(c, t):
        return c.st, t

    def opaque(c, extra=()):
        r = mk('call', c.name, tuple(c.v(i) for i in range(len(c.args))) + tuple(extra))
        return c.I.opaque_call(c.st, r, c.args, c.fn, c.site)

    def pure(c, extra=()):
        return c.st, mk('call', c.name, tuple(c.v(i) for i in range(len(c.args))) + tuple(extra))


def call(I, st, fn, args, site, atys, dty):
    c = Call(I, st, fn, args, site, atys, dty)
    segs = c.name.split('::')
    two = '::'.join(segs[-2:])
    if fn.get('ctor'):
        return st, ctor(fn, args)
    f = M.get(c.name) or M.get(two)
    if f is None and fn.get('trait'):
        tn = strip_generics(fn['trait']).split('::')[-1]
        f = M.get(tn + '::' + fn['name'])
    if f is None and len(segs) > 1:
        for alt in ALIAS.get(segs[-2], ()):
            f = M.get(alt + '::' + segs[-1])
            if f is not None:
                break
    if f is None:
        f = M.get('*::' + segs[-1])
    if f is not None:
        r = f(c)
        if r is not NotImplemented:
            return r
    return c.opaque()


ALIAS = {'SmallVec': ('Vec', 'slice'), 'VecDeque': ('Vec', 'slice'), 'Vec': ('slice',), 'array': ('slice',), 'ArrayVec': ('Vec', 'slice'), 'AHashMap': ('HashMap',), 'BTreeMap': ('HashMap',),
         'AHashSet': ('HashSet',), 'BTreeSet': ('HashSet',), 'IndexMap': ('HashMap',), 'IndexSet': ('HashSet',), 'String': ('str',)}


def ctor(fn, args):
    p = strip_generics(fn['path'])
    segs = p.split('::')
    if segs[-1] in ('Some', 'None'):
        return agg('Option', segs[-1], args)
    if segs[-1] in ('Ok', 'Err'):
        return agg('Result', segs[-1], args)
    return agg('::'.join(segs), segs[-1], args) if fn.get('ctor') == 'variant' else agg(fn['key'], '', args)


# ---------------------------------------------------------------- types
def ty_head(t):
    t = strip_ref(t or {})
    return t.get('p', t.get('n', t.get('k', '?'))).split('::')[-1] if t else '?'


def is_float(t):
    return strip_ref(t or {}).get('n') in ('f32', 'f64')


def coll_kind(t):
    h = ty_head(t)
    if h in ('Vec', 'SmallVec', 'VecDeque', 'slice', 'Box', 'LinkedList', 'array'):
        return 'vec'
    if h in ('HashSet', 'AHashSet', 'BTreeSet', 'FnvHashSet', 'IndexSet'):
        return 'set'
    if h in ('HashMap', 'AHashMap', 'BTreeMap', 'FnvHashMap'):
        return 'map'
    return None


# ---------------------------------------------------------------- iterators
def IT(kind, *a):
    return mk('it', kind, *a)


def as_it(I, st, v, ty=None):
    """iterator over an owned/shared value"""
    if v.op in ('it', 'itphi'):
        return v
    if v.op == 'ref':
        x = I.load(st, v.a[0], v.a[1])
        if x.op in ('it', 'itphi'):
            return IT('byref', v.a[0], v.a[1])
        if x.op == 'agg' and x.a[0] in ('Range', 'RangeInclusive'):
            return as_it(I, st, x)
        return IT('seqmut', v.a[0], v.a[1])
    if v.op == 'phi':
        its = [(c, as_it(I, st, x, ty)) for c, x in v.a]
        if all(i.op == 'it' and i.a[0] == 'seq' and i.a[1] is x and x.op in ('call', 'param', 'fld', 'at', 'get') for (_, i), (_, x) in zip(its, v.a)):
            return IT('seq', v)
        return mk('itphi', *its)
    if v.op == 'agg':
        if v.a[0] == 'Range':
            return IT('range', v.a[2][0], v.a[2][1])
        if v.a[0] == 'RangeInclusive':
            return IT('range', v.a[2][0], add(v.a[2][1], ci(1)))
        if v.a[0] == 'RangeFrom':
            return IT('from', v.a[2][0])
        if v.a[0] == 'Option':
            return IT('opt', v)
    h = ty_head(ty)
    if h == 'Option':
        return IT('opt', v)
    if h == 'Range':
        return IT('range', fld(v, 0), fld(v, 1))
    if h == 'RangeInclusive':
        return IT('range', fld(v, 0), add(fld(v, 1), ci(1)))
    if coll_kind(ty) == 'map':
        return IT('mapitems', v)
    return IT('seq', v)


INF = mk('inf')
VECBOX = mk('call', 'std::boxed::Box::new_uninit', ())


def cmin(x, y):
    if x is INF:
        return y
    if y is INF:
        return x
    return minmax('min', x, y)


def indexable(I, st, it):
    """(count, get(st,i) -> (st, elem)) or None"""
    if it.op == 'itphi':
        return None
    k = it.a[0]
    if k == 'seq':
        c = it.a[1]
        if c.op == 'coll':
            gens = c.a[2]
            if c.a[0] != 'vec' or c.a[1] is not EMPTY or len(gens) != 1 or len(gens[0][0]) != 1 \
                    or gens[0][1].a[0] != TRUE or gens[0][0][0].a[2]:
                return None
        if c.op == 'phi' and any(x.op == 'coll' for _, x in c.a):
            return None
        if c is EMPTY:
            return ci(0), lambda st, i: (st, UNDEF)
        if c.op == 'agg' and c.a[0] == 'Option':
            return None
        return ln(c), lambda st, i: (st, at(c, i))
    if k == 'range':
        lo, hi = it.a[1], it.a[2]
        return natsub(hi, lo), lambda st, i: (st, add(lo, i))
    if k == 'from':
        return INF, lambda st, i: (st, add(it.a[1], i))
    if k == 'repeat':
        return INF, lambda st, i: (st, it.a[1])
    if k == 'map0':
        return INF, lambda st, i: I.call_value(st, it.a[1], [], ('map0', it.a[2]))
    if k == 'samples':
        return INF, lambda st, i: (st, mk('call', 'Distribution::sample', (it.a[1], it.a[2], i)))
    if k == 'seqmut':
        root, path = it.a[1], it.a[2]
        c = I.load(st, root, path)
        if c.op == 'coll' and c.a[0] != 'vec':
            return None
        return ln(c), lambda st, i: (st, mk('ref', root, path + (('at', i),)))
    if k == 'mapitems':
        m = it.a[1]
        return mk('len', m), lambda st, i: (st, tup(mk('mkey', m, i), mk('mval', m, i)))
    if k == 'mapkeys':
        m = it.a[1]
        return mk('len', m), lambda st, i: (st, mk('mkey', m, i))
    if k == 'mapvals':
        m = it.a[1]
        return mk('len', m), lambda st, i: (st, mk('mval', m, i))
    if k == 'mapitemsmut':
        root, path = it.a[1], it.a[2]
        m = I.load(st, root, path)
        return mk('len', m), lambda st, i: (st, tup(mk('mkey', m, i), mk('ref', root, path + (('at', mk('mkey', m, i)),))))
    if k == 'mapvalsmut':
        root, path = it.a[1], it.a[2]
        m = I.load(st, root, path)
        return mk('len', m), lambda st, i: (st, mk('ref', root, path + (('at', mk('mkey', m, i)),)))
    if k == 'chunks':
        c, n = it.a[1], it.a[2]
        N = ln(c)
        cnt = div(add(N, sub(n, ci(1))), n)
        return cnt, lambda st, i: (st, slice_(c, mul(i, n), minmax('min', mul(add(i, ci(1)), n), N)))
    if k == 'chunksx':
        c, n = it.a[1], it.a[2]
        return div(ln(c), n), lambda st, i: (st, slice_(c, mul(i, n), mul(add(i, ci(1)), n)))
    if k == 'chunksmut':
        root, path, n = it.a[1], it.a[2], it.a[3]
        N = ln(I.load(st, root, path))
        cnt = div(add(N, sub(n, ci(1))), n)
        return cnt, lambda st, i: (st, mk('ref', root, path + (('sub', mul(i, n), minmax('min', mul(add(i, ci(1)), n), N)),)))
    if k == 'windows':
        c, n = it.a[1], it.a[2]
        return natsub(add(ln(c), ci(1)), n), lambda st, i: (st, slice_(c, i, add(i, n)))
    if k == 'map':
        r = indexable(I, st, it.a[2])
        if r is None:
            return None

        def g(st, i, r=r, f=it.a[1]):
            st, e = r[1](st, i)
            if st is None:
                return None, None
            return I.call_value(st, f, [e], ('map', it.a[3]))
        return r[0], g
    if k == 'enumerate':
        r = indexable(I, st, it.a[1])
        if r is None:
            return None

        def g(st, i, r=r):
            st, e = r[1](st, i)
            return st, tup(i, e) if e is not None else None
        return r[0], g
    if k == 'zip':
        x, y = indexable(I, st, it.a[1]), indexable(I, st, it.a[2])
        if x is None or y is None:
            return None

        def g(st, i):
            st, e = x[1](st, i)
            if st is None:
                return None, None
            st, f = y[1](st, i)
            return st, tup(e, f) if f is not None else None
        return cmin(x[0], y[0]), g
    if k == 'rev':
        r = indexable(I, st, it.a[1])
        if r is None or r[0] is INF:
            return None
        return r[0], lambda st, i: r[1](st, sub(sub(r[0], ci(1)), i))
    if k == 'take':
        r = indexable(I, st, it.a[1])
        if r is None:
            return None
        return cmin(r[0], it.a[2]), r[1]
    if k == 'skip':
        r = indexable(I, st, it.a[1])
        if r is None:
            return None
        return (INF if r[0] is INF else natsub(r[0], it.a[2])), lambda st, i: r[1](st, add(i, it.a[2]))
    if k == 'step_by':
        r = indexable(I, st, it.a[1])
        if r is None or r[0] is INF:
            return None
        n = it.a[2]
        return div(add(r[0], sub(n, ci(1))), n), lambda st, i: r[1](st, mul(i, n))
    if k == 'par':
        return indexable(I, st, it.a[1])
    if k == 'done':
        return ci(0), lambda st, i: (st, UNDEF)
    if k == 'once':
        return ci(1), lambda st, i: (st, it.a[1])
    return None


def natsub(x, y):
    d = sub(x, y)
    if d.op == 'const' and d.a[1] < 0:
        return ci(0)
    return d


def is_par(it):
    if it.op == 'it':
        if it.a[0] == 'par':
            return True
        return any(isinstance(x, T) and x.op in ('it', 'itphi') and is_par(x) for x in it.a[1:])
    return False


class Interp(InterpBase):
    def drive(s, it, key, st, body, par=False, flags=()):
        """body(st, elem) -> (cont | None, exits)"""
        if st is None or st.pc == FALSE:
            return st, []
        if it.op == 'itphi':
            outs, exits = [], []
            for n, (c, x) in enumerate(it.a):
                y = st.copy(AND(st.pc, c.a[0]))
                if y.pc == FALSE:
                    continue
                r, ex = s.drive(x, (key, 'p', n), y, body, par, flags)
                outs.append(r)
                exits += ex
            return s.merge(outs), exits
        par = par or is_par(it)
        k = it.a[0]
        if k == 'par':
            return s.drive(it.a[1], key, st, body, True, flags)
        if k == 'byref':
            v = s.load(st, it.a[1], it.a[2])
            r, ex = s.drive(v, key, st, body, par, flags)
            if r is not None:
                s.raw_set(r, it.a[1], it.a[2], IT('done'))
            return r, ex
        ix = indexable(s, st, it)
        if ix is not None and ix[0] is not INF:
            L = s.nid(('drive', key) + tuple(x[0] for x in s.loopstack[-1:]))

            def one(x, i):
                x, e = ix[1](x, i)
                if x is None:
                    return None, []
                return body(x, e)
            return s.run_single(L, ix[0], st, one, src=it, par=par, flags=flags)
        if k == 'seq':
            return s.drive_coll(it.a[1], key, st, body, par, flags)
        if k == 'opt':
            return s.cond_body(st, is_(it.a[1], 'Some'), lambda x: body(x, fld(it.a[1], 0, 'Some')))
        if k in ('map', 'filter', 'filter_map', 'flat_map', 'inspect'):
            f, inner, site = it.a[1], it.a[2], it.a[3]

            def step(x, e):
                x, r = s.call_value(x, f, [e], (k, site))
                if x is None:
                    return None, []
                if k == 'map':
                    return body(x, r)
                if k == 'inspect':
                    return body(x, e)
                if k == 'filter':
                    return s.cond_body(x, truth(r), lambda y: body(y, e))
                if k == 'filter_map':
                    return s.cond_body(x, is_(r, 'Some'), lambda y: body(y, fld(r, 0, 'Some')))
                return s.drive(as_it(s, x, r), (key, 'fm'), x, body, par)
            return s.drive(inner, (key, k), st, step, par, flags)
        if k == 'flatten':
            return s.drive(it.a[1], (key, 'fl'), st, lambda x, e: s.drive(as_it(s, x, e), (key, 'fi'), x, body, par), par, flags)
        if k == 'chain':
            r, ex = s.drive(it.a[1], (key, 'a'), st, body, par, flags)
            if r is None:
                return r, ex
            r2, ex2 = s.drive(it.a[2], (key, 'b'), r, body, par, flags)
            return r2, ex + ex2
        if k == 'enumerate' or (k == 'zip'):
            root = ('loc', 'ctr', s.nid(('ctr', key)))
            st.store[root] = ci(0)
            if k == 'enumerate':
                inner, get_ = it.a[1], lambda x, n, e: (x, tup(n, e))
            else:
                a_, b_ = indexable(s, st, it.a[1]), indexable(s, st, it.a[2])
                if a_ is None and b_ is not None:
                    def get_(x, n, e):
                        x, f = b_[1](x, n)
                        return x, tup(e, f)
                    inner = it.a[1]
                elif b_ is None and a_ is not None:
                    def get_(x, n, e):
                        x, f = a_[1](x, n)
                        return x, tup(f, e)
                    inner = it.a[2]
                else:
                    r = s.collect_raw(st, it.a[1], (key, 'za'), 'vec')
                    if r is None:
                        return None, []
                    st, u = r
                    r = s.collect_raw(st, it.a[2], (key, 'zb'), 'vec')
                    if r is None:
                        return None, []
                    st, v = r
                    z = lockstep(u, v)
                    if z is not None:
                        return s.drive(IT('seq', z), key, st, body, par, flags)
                    return s.drive(IT('seq', mk('opaque_it', it)), key, st, body, par, flags)

            def step(x, e):
                n = x.store[root]
                x.store[root] = add(n, ci(1)) if n.op != 'phi' else phi([(c.a[0], add(v, ci(1))) for c, v in n.a])
                x, r = get_(x, n, e)
                if x is None:
                    return None, []
                return body(x, r)
            return s.drive(inner, (key, k), st, step, par, flags)
        if k == 'rev':
            return s.drive(it.a[1], (key, 'rev'), st, body, par, flags + ('rev',))
        if k in ('take', 'skip', 'step_by') and it.a[1].op == 'it':
            c = s.collect_raw(st, it.a[1], (key, 'mat'), 'vec')
            if c is None:
                return None, []
            st, v = c
            r = slice_(v, ci(0), minmax('min', it.a[2], ln(v))) if k == 'take' else slice_(v, it.a[2], ln(v)) if k == 'skip' else mk('stepped', v, it.a[2])
            return s.drive(IT('seq', r), key, st, body, par, flags)
        return s.drive(IT('seq', mk('opaque_it', it)), key, st, body, par, flags)

    def cond_body(s, st, c, f):
        c = s.simp(st, c)
        if c == FALSE:
            return st, []
        if c == TRUE:
            return f(st)
        t = st.copy(AND(st.pc, c))
        n = st.copy(AND(st.pc, NOT(c)))
        r, ex = f(t)
        return s.merge([r, n]), ex

    def drive_coll(s, c, key, st, body, par=False, flags=()):
        """iterate a collection described by generators: fused, one loop per binder"""
        if c.op == 'phi':
            outs, exits = [], []
            for n, (g, x) in enumerate(c.a):
                y = st.copy(AND(st.pc, g.a[0]))
                if y.pc == FALSE:
                    continue
                r, ex = s.drive(IT('seq', x), (key, 'q', n), y, body, par, flags)
                outs.append(r)
                exits += ex
            return s.merge(outs), exits
        exits = []
        if c.op != 'coll':
            raise Unsupported('iteration over ' + c.op)
        fl = flags + (('set',) if c.a[0] == 'set' else ())
        if c.a[1] is not EMPTY:
            st, ex = s.drive(IT('seq', c.a[1]), (key, 'base'), st, body, par, fl)
            exits += ex
            if st is None:
                return None, exits
        for n, (bs, g, e) in enumerate(c.a[2]):
            def nest(j, x, env, bs=bs, g=g, e=e, n=n):
                if j == len(bs):
                    return s.cond_body(x, subst_guard(g.a[0], env), lambda y: body(y, subst(e, env)))
                bd = bs[j]
                L = s.nid(('gen', key, n, j) + tuple(z[0] for z in s.loopstack[-1:]))
                cnt = subst(bd.a[1], env)
                return s.run_single(L, cnt, x, lambda y, i: nest(j + 1, y, {**env, mk('bv', bd.a[0]): i}),
                                    src=mk('genof', c, n), par=par, flags=tuple(sorted(set(bd.a[2] + fl))))
            st, ex = nest(0, st, {})
            exits += ex
            if st is None:
                return None, exits
        return st, exits

    # -------------------------------------------------------- consumers
    def fold(s, st, it, key, init, step):
        """acc := step(st, acc, elem)"""
        root = ('loc', 'acc', s.nid(('acc', key) + tuple(x[0] for x in s.loopstack[-1:])))
        st.store[root] = init

        def body(x, e):
            x, v = step(x, x.store[root], e)
            if x is None:
                return None, []
            x.store[root] = v
            return x, []
        r, ex = s.drive(it, key, st, body)
        if r is None:
            return None
        v = r.store.pop(root)
        return r, v

    def collect_raw(s, st, it, key, kind):
        if it.op == 'it' and it.a[0] == 'seq' and kind == 'vec' and it.a[1].op not in ('coll', 'phi'):
            return st, it.a[1]
        if it.op == 'it' and it.a[0] == 'seq' and it.a[1].op == 'coll' and it.a[1].a[0] == kind:
            return st, it.a[1]
        return s.fold(st, it, key, coll(kind, EMPTY, ()), lambda x, acc, e: (x, append(kind, acc, e)))

    def find(s, st, it, key, pred):
        """pred(st, elem, n) -> (st, guard, value): Option of the value at the first hit"""
        root = ('loc', 'fnd', s.nid(('fnd', key) + tuple(x[0] for x in s.loopstack[-1:])))
        st.store[root] = NONE
        ctr = ('loc', 'fct', root[2])

        def body(x, e):
            x, g, v = pred(x, e)
            if x is None:
                return None, []
            g = s.simp(x, g)
            hit = x.copy(AND(x.pc, g))
            hit.store[root] = some(v)
            x.pc = AND(x.pc, NOT(g))
            return (x if x.pc != FALSE else None), ([('hit', hit)] if hit.pc != FALSE else [])
        r, ex = s.drive(it, key, st, body)
        m = s.merge(([r] if r is not None else []) + [x for _, x in ex])
        if m is None:
            return None, None
        v = m.store.pop(root)
        return m, v


def lockstep(u, v):
    """two comprehensions over the same items under the same guards: the comprehension of the pairs"""
    if u.op != 'coll' or v.op != 'coll' or u.a[0] != 'vec' or v.a[0] != 'vec' or u.a[1] is not EMPTY or v.a[1] is not EMPTY or len(u.a[2]) != len(v.a[2]):
        return None
    gens = []
    for (bs, g, e), (cs, h, f) in zip(u.a[2], v.a[2]):
        if len(bs) != len(cs):
            return None
        k = 1 + max([e.bv, f.bv, g.bv, h.bv] + [x.bv for x in bs + cs] + [x.a[0] for x in bs + cs])
        e1, e2, nb = {}, {}, []
        for n, (x, y) in enumerate(zip(bs, cs)):
            w = mk('bv', k + n)
            cx, cy = subst(x.a[1], e1), subst(y.a[1], e2)
            if cx is not cy or x.a[2] != y.a[2]:
                return None
            nb.append(mk('bind', k + n, cx, x.a[2]))
            e1[mk('bv', x.a[0])] = w
            e2[mk('bv', y.a[0])] = w
        if subst(g, e1) is not subst(h, e2):
            return None
        gens.append((tuple(nb), subst(g, e1), tup(subst(e, e1), subst(f, e2))))
    return coll('vec', EMPTY, tuple(gens))


def append(kind, c, e, guard=TRUE):
    return coll(kind, c, (((), b(guard), e),))


def mutate(c, n, f, op, args=None):
    """apply value transformer f to the location the n-th argument refers to"""
    I, st = c.I, c.st
    a = c.args[n]
    ps = parts_of(a)
    for g, leaf in ps:
        root, path = (leaf.a[0], leaf.a[1]) if leaf.op == 'ref' else (('V', leaf), ())
        old = I.load(st, root, path)
        new = f(old)
        if len(ps) > 1 and g != TRUE:
            new = phi([(g, new), (NOT(g), old)])
        I.write(st, root, path, new, op=op, args=args if args is not None else tuple(c.args[i] for i in range(len(c.args)) if i != n), sp=None)


# ---------------------------------------------------------------- transparent
@model('Deref::deref', 'Clone::clone', 'Borrow::borrow', 'AsRef::as_ref', 'Vec::as_slice', 'slice::to_vec', 'String::as_str',
       'str::as_bytes', 'Iterator::cloned', 'Iterator::copied', 'Option::cloned', 'Option::copied', 'Option::as_ref', 'Result::as_ref',
       'Box::new', 'Arc::new', 'Rc::new', 'From::from', 'Into::into', 'ToOwned::to_owned', 'slice::into_vec', 'Option::as_deref',
       'ParallelIterator::cloned', 'ParallelIterator::copied', 'ToString::to_string', 'str::to_string', 'str::to_owned',
       'IndexedParallelIterator::with_min_len', 'IndexedParallelIterator::with_max_len', 'Iterator::fuse', 'Iterator::by_ref',
       'Vec::into_boxed_slice', 'hint::black_box', 'convert::identity', 'Iterator::peekable', 'SmallVec::as_slice',
       'slice::as_ref', 'String::into_bytes', 'str::into_string', 'Box::pin', 'array::as_slice', 'slice::as_slice', 'SmallVec::into_vec',
       'Cow::into_owned')
def _transp(c):
    if c.name.endswith('to_string') and strip_ref(c.atys[0] if c.atys else {}).get('n') not in ('str', None) and ty_head(c.atys[0]) not in ('String', 'str'):
        return c.pure()
    v = c.args[0]
    if c.name.endswith('by_ref'):
        return c.ret(v)
    if c.name.endswith(('From::from', 'Into::into')) and c.dty:
        t, f = c.dty.get('n'), (c.atys[0] or {}).get('n') if c.atys else None
        if t in ('f32', 'f64') and f in _BITS:
            return c.ret(castop('IntToFloat', c.v(0), c.atys[0], c.dty))
        if t in _BITS and f in _BITS:
            return c.ret(castop('IntToInt', c.v(0), c.atys[0], c.dty))
        h = ty_head(c.dty)
        if h in ('HashSet', 'AHashSet', 'BTreeSet', 'HashMap', 'AHashMap', 'PyErr'):
            return _collect(c)
        if h in ('Vec', 'String', 'Box', 'Arc', 'Rc', 'PathBuf', 'Cow'):
            return c.ret(c.v(0))
        if t is None and ty_head(c.atys[0] if c.atys else None) != h:
            return c.pure()
    if v.op == 'ref' and c.name.endswith(('clone', 'deref', 'as_slice', 'to_vec', 'as_str', 'borrow', 'as_ref')):
        return c.ret(c.v(0))
    return c.ret(v)


@model('DerefMut::deref_mut', 'AsMut::as_mut', 'Vec::as_mut_slice', 'BorrowMut::borrow_mut', 'slice::as_mut', 'SmallVec::as_mut_slice')
def _transp_mut(c):
    return c.ret(c.args[0])


@model('Option::as_mut', 'Option::as_deref_mut')
def _as_mut(c):
    a = c.args[0]
    if a.op == 'ref':
        v = c.v(0)
        g = is_(v, 'Some')
        return c.ret(phi([(g, some(mk('ref', a.a[0], a.a[1] + (('f', 0, 'Some'),)))), (NOT(g), NONE)]))
    return NotImplemented


# ---------------------------------------------------------------- construction
@model('Vec::new', 'Vec::with_capacity', 'SmallVec::new', 'SmallVec::with_capacity', 'VecDeque::new', 'VecDeque::with_capacity')
def _vnew(c):
    return c.ret(coll('vec', EMPTY, ()))


@model('HashSet::new', 'HashSet::with_capacity', 'AHashSet::with_capacity', 'AHashSet::new', 'HashSet::with_hasher',
       'HashSet::with_capacity_and_hasher', 'BTreeSet::new')
def _snew(c):
    return c.ret(coll('set', EMPTY, ()))


@model('HashMap::new', 'HashMap::with_capacity', 'HashMap::with_hasher', 'HashMap::with_capacity_and_hasher', 'AHashMap::new',
       'AHashMap::with_capacity', 'BTreeMap::new')
def _mnew(c):
    return c.ret(mk('mnew'))


@model('Default::default')
def _default(c):
    k = coll_kind(c.dty)
    if k in ('vec', 'set'):
        return c.ret(coll(k, EMPTY, ()))
    if k == 'map':
        return c.ret(mk('mnew'))
    n = (c.dty or {}).get('n')
    if n in _BITS:
        return c.ret(ci(0) if n != 'bool' else FALSE_T)
    if n in ('f32', 'f64'):
        return c.ret(cf(0.0))
    if ty_head(c.dty) == 'Option':
        return c.ret(NONE)
    return c.pure((mk('ty', ty_head(c.dty)),))


@model('vec::from_elem')
def _from_elem(c):
    x = c.v(0)
    return c.ret(mk('rep', x, c.args[1]))


@model('Range::contains', 'RangeInclusive::contains')
def _range_contains(c):
    r, x = c.v(0), c.v(1)
    fl = is_float(c.atys[1] if c.atys else None)
    lo, hi = fld(r, 0), fld(r, 1)
    up = NOT(lt(hi, x, fl)) if 'Inclusive' in c.name else lt(x, hi, fl)
    return c.ret(b(AND(NOT(lt(x, lo, fl)), up)))


@model('RangeInclusive::new')
def _rinew(c):
    return c.ret(agg('RangeInclusive', '', c.args))


@model('One::one')
def _one(c):
    return c.ret(cf(1.0) if is_float(c.dty) else ci(1))


@model('Zero::zero')
def _zero(c):
    return c.ret(cf(0.0) if is_float(c.dty) else ci(0))


@model('Zero::is_zero')
def _is_zero(c):
    return c.ret(b(eq(c.v(0), ci(0))))


@model('mem::size_of')
def _size_of(c):
    t = c.I.sub_ty(c.fn['args'][0]) if c.fn['args'] else {}
    n = t.get('n')
    if t.get('k') == 'prim' and n in _BITS:
        return c.ret(ci(_BITS[n] // 8))
    return c.ret(mk('sizeof', json.dumps(t, sort_keys=True)))


# ---------------------------------------------------------------- operators through traits
def _fl(c):
    return is_float(c.atys[0]) if c.atys else False


for _nm, _op in (('Add::add', 'Add'), ('Sub::sub', 'Sub'), ('Mul::mul', 'Mul'), ('Div::div', 'Div'), ('Rem::rem', 'Rem'),
                 ('BitAnd::bitand', 'BitAnd'), ('BitOr::bitor', 'BitOr'), ('BitXor::bitxor', 'BitXor'),
                 ('Shl::shl', 'Shl'), ('Shr::shr', 'Shr')):
    def _mkop(op):
        def f(c):
            return c.ret(arith(op, c.v(0), c.v(1), _fl(c)))

        def fa(c):
            mutate(c, 0, lambda o: arith(op, o, c.v(1), _fl(c)), 'write')
            return c.ret(UNIT)
        return f, fa
    _f, _fa = _mkop(_op)
    M[_nm] = _f
    M[_nm.split('::')[0] + 'Assign::' + _nm.split('::')[1] + '_assign'] = _fa


@model('Not::not')
def _not(c):
    return c.ret(notop(c.v(0), strip_ref(c.atys[0]) if c.atys else None))


@model('Neg::neg')
def _neg(c):
    return c.ret(sub(ci(0), c.v(0)))


@model('num::wrapping_add', 'num::wrapping_mul')
def _wrap(c):
    x, y = c.v(0), c.v(1)
    n = (c.dty or {}).get('n')
    if n in ('u8', 'i8', 'u16', 'i16'):
        c.I.narrow.append((c.I.fnstack[-1] if c.I.fnstack else '', c.I.cursp, f'wrapping arithmetic in {n}'))
    if x.id > y.id:
        x, y = y, x
    return c.ret(mk('wadd' if c.name.endswith('add') else 'wmul', x, y))


@model('num::wrapping_sub')
def _wsub(c):
    return c.ret(mk('wsub', c.v(0), c.v(1)))


@model('num::saturating_sub')
def _ssub(c):
    x, y = c.v(0), c.v(1)
    g = lt(y, x)
    return c.ret(phi([(g, sub(x, y)), (NOT(g), ci(0))]))


@model('num::saturating_add', 'num::unchecked_add')
def _sadd(c):
    n = (c.dty or {}).get('n')
    if n in ('u8', 'i8', 'u16', 'i16'):
        c.I.narrow.append((c.I.fnstack[-1] if c.I.fnstack else '', c.I.cursp, f'saturating add in {n}'))
    return c.ret(add(c.v(0), c.v(1)))


@model('num::checked_sub')
def _csub(c):
    x, y = c.v(0), c.v(1)
    g = lt(x, y)
    return c.ret(phi([(NOT(g), some(sub(x, y))), (g, NONE)]))


@model('num::checked_add', 'num::checked_mul')
def _cadd(c):
    f = add if c.name.endswith('add') else mul
    return c.ret(some(f(c.v(0), c.v(1))))


@model('num::checked_div')
def _cdiv(c):
    z = eq(c.v(1), ci(0))
    return c.ret(phi([(NOT(z), some(div(c.v(0), c.v(1)))), (z, NONE)]))


@model('num::div_ceil')
def _divceil(c):
    return c.ret(div(add(c.v(0), sub(c.v(1), ci(1))), c.v(1)))


@model('num::is_power_of_two')
def _ipo2(c):
    return c.pure()


@model('num::count_ones', 'PrimInt::count_ones')
def _popcnt(c):
    return c.ret(popcount(c, c.v(0)))


def popcount(c, v):
    w = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64}.get((c.atys[0] or {}).get('n') if c.atys else None)
    if v.op == 'bitnot' and w:
        return sub(ci(w), popcount(c, v.a[0]))
    return mk('popcount', v)


@model('num::count_zeros', 'PrimInt::count_zeros')
def _zerocnt(c):
    w = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64}.get((c.atys[0] or {}).get('n') if c.atys else None)
    return c.ret(sub(ci(w), popcount(c, c.v(0)))) if w else c.pure()


@model('num::is_positive', 'Signed::is_positive')
def _ispos(c):
    return c.ret(b(pos(c.v(0))))


@model('num::is_negative', 'Signed::is_negative')
def _isneg(c):
    return c.ret(b(pos(sub(ci(0), c.v(0)))))


@model('num::signum')
def _signum(c):
    x = c.v(0)
    p, n = pos(x), pos(sub(ci(0), x))
    return c.ret(phi([(p, ci(1)), (n, ci(-1)), (AND(NOT(p), NOT(n)), ci(0))]))


# the two halves of `vec![a, b]`: a box written in place, then turned into a Vec
@model('Box::new_uninit')
def _newuninit(c):
    return c.ret(VECBOX)


@model('boxed::box_assume_init_into_vec_unsafe')
def _boxvec(c):
    x = c.v(0)
    a = fld(fld(x, 1), 0) if x.op == 'upd' else x
    if a.op == 'agg' and a.a[0] == 'array':
        v = coll('vec', EMPTY, ())
        for e in a.a[2]:
            v = append('vec', v, e)
        return c.ret(v)
    return c.pure()


@model('num::abs_diff')
def _absdiff(c):
    return c.ret(mk('absdiff', *sorted((c.v(0), c.v(1)), key=lambda t: t.id)))


@model('f64::powf', 'f64::powi', 'f32::powf', 'f32::powi')
def _powf(c):
    y = c.v(1)
    if c.name.endswith('powi') and y.op in ('i2f', 'i2f32'):
        y = y.a[0]
    return c.ret(mk('pow', c.v(0), mk('i2f', y) if c.name.endswith('powi') and y.op != 'const' else y))


@model('cmp::min', 'Ord::min')
def _min(c):
    return c.ret(minmax('min', c.v(0), c.v(1)))


@model('cmp::max', 'Ord::max')
def _max(c):
    return c.ret(minmax('max', c.v(0), c.v(1)))


@model('f32::min', 'f64::min')
def _fmin(c):
    return c.ret(mk('fmin', *sorted((c.v(0), c.v(1)), key=lambda t: t.id)))


@model('f32::max', 'f64::max')
def _fmax(c):
    return c.ret(mk('fmax', *sorted((c.v(0), c.v(1)), key=lambda t: t.id)))


@model('Ord::clamp', 'f64::clamp', 'f32::clamp')
def _clamp(c):
    return c.ret(mk('clamp', c.v(0), c.v(1), c.v(2)))


@model('PartialEq::eq')
def _eq(c):
    return c.ret(b(eq(c.v(0), c.v(1))))


@model('PartialEq::ne')
def _ne(c):
    return c.ret(b(NOT(eq(c.v(0), c.v(1)))))


@model('PartialOrd::lt')
def _lt(c):
    return c.ret(b(lt(c.v(0), c.v(1), _fl(c))))


@model('PartialOrd::le')
def _le(c):
    return c.ret(b(NOT(lt(c.v(1), c.v(0), _fl(c)))))


@model('PartialOrd::gt')
def _gt(c):
    return c.ret(b(lt(c.v(1), c.v(0), _fl(c))))


@model('PartialOrd::ge')
def _ge(c):
    return c.ret(b(NOT(lt(c.v(0), c.v(1), _fl(c)))))


def mkcmp(x, y, fl):
    if x is y:
        return agg('Ordering', 'Equal', ())
    return mk('cmp', x, y, 'f' if fl else 'i')


@model('Ord::cmp', 'f64::total_cmp', 'f32::total_cmp')
def _cmp(c):
    fl = _fl(c) or c.name.endswith('total_cmp')
    return c.ret(mkcmp(c.v(0), c.v(1), fl))


@model('PartialOrd::partial_cmp')
def _pcmp(c):
    return c.ret(some(mkcmp(c.v(0), c.v(1), _fl(c))))


def rev_cmp(t):
    if t.op == 'cmp':
        return mk('cmp', t.a[1], t.a[0], t.a[2])
    if t.op == 'cmpthen':
        return mk('cmpthen', rev_cmp(t.a[0]), rev_cmp(t.a[1]))
    if t.op == 'agg':
        return agg('Ordering', {'Less': 'Greater', 'Greater': 'Less', 'Equal': 'Equal'}[t.a[1]], ())
    if t.op == 'phi':
        return phi([(g.a[0], rev_cmp(x)) for g, x in t.a])
    return mk('revcmp', t)


@model('Ordering::reverse')
def _reverse(c):
    return c.ret(rev_cmp(c.v(0)))


@model('Ordering::is_ge', 'Ordering::is_gt', 'Ordering::is_le', 'Ordering::is_lt', 'Ordering::is_eq', 'Ordering::is_ne')
def _ordis(c):
    k = c.name.split('::')[-1]
    v = c.v(0)
    g = is_(v, {'is_ge': 'Less', 'is_lt': 'Less', 'is_le': 'Greater', 'is_gt': 'Greater', 'is_eq': 'Equal', 'is_ne': 'Equal'}[k])
    return c.ret(b(NOT(g) if k in ('is_ge', 'is_le', 'is_ne') else g))


@model('Ordering::then')
def _then(c):
    return c.ret(mk('cmpthen', c.v(0), c.v(1)))


@model('Ordering::then_with')
def _then_with(c):
    st, r = c.I.call_value(c.st, c.args[1], [], c.site)
    return st, mk('cmpthen', c.v(0), r)


# ---------------------------------------------------------------- Option / Result / bool
@model('Option::is_some')
def _is_some(c):
    return c.ret(b(is_(c.v(0), 'Some')))


@model('Option::is_none')
def _is_none(c):
    return c.ret(b(NOT(is_(c.v(0), 'Some'))))


@model('Result::is_ok')
def _is_ok(c):
    return c.ret(b(is_(c.v(0), 'Ok')))


@model('Result::is_err')
def _is_err(c):
    return c.ret(b(NOT(is_(c.v(0), 'Ok'))))


@model('Option::unwrap', 'Option::expect')
def _unwrap(c):
    v = c.args[0]
    if v.op == 'ref':
        v = c.v(0)
    c.I.panic(c.st, 'unwrap', NOT(is_(v, 'Some')), args=(v,))
    return c.ret(live_some(fld(v, 0, 'Some')))


def live_some(t):
    return t


@model('Result::unwrap', 'Result::expect')
def _runwrap(c):
    v = c.v(0)
    c.I.panic(c.st, 'unwrap', NOT(is_(v, 'Ok')), args=(v,))
    return c.ret(fld(v, 0, 'Ok'))


@model('Option::unwrap_unchecked')
def _uu(c):
    return c.ret(fld(c.v(0), 0, 'Some'))


def sel(v, var, x, other):
    g = is_(v, var)
    return phi([(g, x), (NOT(g), other)])


@model('Option::unwrap_or', 'Result::unwrap_or')
def _unwrap_or(c):
    var = 'Some' if 'Option' in c.name else 'Ok'
    v = c.v(0)
    return c.ret(sel(v, var, fld(v, 0, var), c.args[1]))


@model('Option::unwrap_or_default')
def _uod(c):
    v = c.v(0)
    k = coll_kind(c.dty)
    d = coll(k, EMPTY, ()) if k in ('vec', 'set') else mk('mnew') if k == 'map' else FALSE_T if (c.dty or {}).get('n') == 'bool' else ci(0) if (c.dty or {}).get('n') in _BITS else mk('default')
    return c.ret(sel(v, 'Some', fld(v, 0, 'Some'), d))


def under(c, g, f, other):
    """run f(state) under guard g, value `other` otherwise"""
    I = c.I
    g = I.simp(c.st, g)
    if g == FALSE:
        return c.st, other
    root = ('loc', 'und', I.nid(('und', c.site) + tuple(x[0] for x in I.loopstack[-1:])))
    if g == TRUE:
        return f(c.st)
    t, n = c.st.copy(AND(c.st.pc, g)), c.st.copy(AND(c.st.pc, NOT(g)))
    st, r = f(t)
    if st is not None:
        st.store[root] = r
    n.store[root] = other
    m = I.merge([st, n])
    return m, m.store.pop(root)


def both(c, g, f, h):
    I = c.I
    root = ('loc', 'und', I.nid(('und', c.site) + tuple(x[0] for x in I.loopstack[-1:])))
    g = I.simp(c.st, g)
    if g == TRUE:
        return f(c.st)
    if g == FALSE:
        return h(c.st)
    t, n = c.st.copy(AND(c.st.pc, g)), c.st.copy(AND(c.st.pc, NOT(g)))
    out = []
    for x, k in ((t, f), (n, h)):
        y, r = k(x)
        if y is not None:
            y.store[root] = r
            out.append(y)
    m = I.merge(out)
    if m is None:
        return None, None
    return m, m.store.pop(root)


@model('Option::map', 'Result::map')
def _omap(c):
    var = 'Some' if 'Option' in c.name else 'Ok'
    v = c.v(0)
    wrap = some if var == 'Some' else ok
    rest = NONE if var == 'Some' else err(fld(v, 0, 'Err'))

    def f(st):
        st, r = c.I.call_value(st, c.args[1], [fld(v, 0, var)], c.site)
        return st, (wrap(r) if st is not None else None)
    return under(c, is_(v, var), f, rest)


@model('Result::map_err')
def _map_err(c):
    v = c.v(0)

    def f(st):
        st, r = c.I.call_value(st, c.args[1], [fld(v, 0, 'Err')], c.site)
        return st, (err(r) if st is not None else None)
    return under(c, NOT(is_(v, 'Ok')), f, ok(fld(v, 0, 'Ok')))


@model('Option::and_then', 'Result::and_then')
def _and_then(c):
    var = 'Some' if 'Option' in c.name else 'Ok'
    v = c.v(0)
    rest = NONE if var == 'Some' else err(fld(v, 0, 'Err'))
    return under(c, is_(v, var), lambda st: c.I.call_value(st, c.args[1], [fld(v, 0, var)], c.site), rest)


@model('Option::map_or')
def _map_or(c):
    v = c.v(0)
    return under(c, is_(v, 'Some'), lambda st: c.I.call_value(st, c.args[2], [fld(v, 0, 'Some')], c.site), c.args[1])


@model('Option::map_or_else')
def _map_or_else(c):
    v = c.v(0)
    return both(c, is_(v, 'Some'), lambda st: c.I.call_value(st, c.args[2], [fld(v, 0, 'Some')], c.site),
                lambda st: c.I.call_value(st, c.args[1], [], (c.site, 'e')))


@model('Option::unwrap_or_else', 'Result::unwrap_or_else')
def _unwrap_or_else(c):
    var = 'Some' if 'Option' in c.name else 'Ok'
    v = c.v(0)
    a = [] if var == 'Some' else [fld(v, 0, 'Err')]
    return under(c, NOT(is_(v, var)), lambda st: c.I.call_value(st, c.args[1], a, c.site), fld(v, 0, var))


@model('Option::is_some_and', 'Result::is_ok_and')
def _is_some_and(c):
    var = 'Some' if 'Option' in c.name else 'Ok'
    v = c.v(0)
    return under(c, is_(v, var), lambda st: c.I.call_value(st, c.args[1], [fld(v, 0, var)], c.site), FALSE_T)


@model('Option::is_none_or')
def _is_none_or(c):
    v = c.v(0)
    return under(c, is_(v, 'Some'), lambda st: c.I.call_value(st, c.args[1], [fld(v, 0, 'Some')], c.site), TRUE_T)


@model('Option::filter')
def _ofilter(c):
    v = c.v(0)

    def f(st):
        st, r = c.I.call_value(st, c.args[1], [fld(v, 0, 'Some')], c.site)
        if st is None:
            return None, None
        g = truth(r)
        return st, phi([(g, some(fld(v, 0, 'Some'))), (NOT(g), NONE)])
    return under(c, is_(v, 'Some'), f, NONE)


@model('Option::ok_or')
def _ok_or(c):
    v = c.v(0)
    return c.ret(sel(v, 'Some', ok(fld(v, 0, 'Some')), err(c.args[1])))


@model('Option::ok_or_else')
def _ok_or_else(c):
    v = c.v(0)

    def f(st):
        st, r = c.I.call_value(st, c.args[1], [], c.site)
        return st, (err(r) if st is not None else None)
    return under(c, NOT(is_(v, 'Some')), f, ok(fld(v, 0, 'Some')))


@model('Result::ok')
def _rok(c):
    v = c.v(0)
    return c.ret(sel(v, 'Ok', some(fld(v, 0, 'Ok')), NONE))


@model('Result::err')
def _rerr(c):
    v = c.v(0)
    return c.ret(sel(v, 'Ok', NONE, some(fld(v, 0, 'Err'))))


@model('Option::or')
def _oor(c):
    v = c.v(0)
    return c.ret(sel(v, 'Some', v, c.args[1]))


@model('Option::and')
def _oand(c):
    return c.ret(sel(c.v(0), 'Some', c.args[1], NONE))


@model('Option::or_else')
def _oorelse(c):
    v = c.v(0)
    return under(c, NOT(is_(v, 'Some')), lambda st: c.I.call_value(st, c.args[1], [], c.site), v)


@model('Option::flatten')
def _oflat(c):
    v = c.v(0)
    return c.ret(sel(v, 'Some', fld(v, 0, 'Some'), NONE))


@model('Option::zip')
def _ozip(c):
    x, y = c.v(0), c.v(1)
    g = AND(is_(x, 'Some'), is_(y, 'Some'))
    return c.ret(phi([(g, some(tup(fld(x, 0, 'Some'), fld(y, 0, 'Some')))), (NOT(g), NONE)]))


@model('Option::take')
def _otake(c):
    v = c.v(0)
    mutate(c, 0, lambda o: NONE, 'write', (NONE,))
    return c.ret(v)


@model('mem::replace', 'Option::replace')
def _mreplace(c):
    v = c.v(0)
    new = c.args[1] if 'mem' in c.name else some(c.args[1])
    mutate(c, 0, lambda o: new, 'write', (new,))
    return c.ret(v)


@model('mem::take')
def _mtake(c):
    v = c.v(0)
    k = coll_kind(c.dty)
    d = coll(k, EMPTY, ()) if k in ('vec', 'set') else mk('mnew') if k == 'map' else NONE if ty_head(c.dty) == 'Option' else mk('default')
    mutate(c, 0, lambda o: d, 'write', (d,))
    return c.ret(v)


@model('mem::swap')
def _mswap(c):
    x, y = c.v(0), c.v(1)
    mutate(c, 0, lambda o: y, 'write', (y,))
    mutate(c, 1, lambda o: x, 'write', (x,))
    return c.ret(UNIT)


@model('mem::drop')
def _mdrop(c):
    if 'Guard' in json.dumps(c.atys):
        c.I.log(c.st, 'drop', None, (c.args[0],), None, pty=c.atys[0])
    return c.ret(UNIT)


@model('mem::forget')
def _mforget(c):
    return c.ret(UNIT)


@model('bool::then')
def _bthen(c):
    def f(st):
        st, r = c.I.call_value(st, c.args[1], [], c.site)
        return st, (some(r) if st is not None else None)
    return under(c, truth(c.v(0)), f, NONE)


@model('bool::then_some')
def _bthen_some(c):
    g = truth(c.v(0))
    return c.ret(phi([(g, some(c.args[1])), (NOT(g), NONE)]))


@model('Try::branch')
def _branch(c):
    v = c.v(0)
    h = ty_head(c.atys[0])
    var = 'Ok' if h == 'Result' else 'Some'
    g = is_(v, var)
    res = err(fld(v, 0, 'Err')) if var == 'Ok' else NONE
    return c.ret(phi([(g, agg('ControlFlow', 'Continue', (fld(v, 0, var),))), (NOT(g), agg('ControlFlow', 'Break', (res,)))]))


@model('FromResidual::from_residual')
def _from_residual(c):
    return c.ret(c.v(0))


# ---------------------------------------------------------------- sequences
@model('Vec::len', 'slice::len', 'SmallVec::len', 'HashSet::len', 'HashMap::len', 'AHashMap::len', 'AHashSet::len', 'str::len', 'String::len',
       'ExactSizeIterator::len', 'VecDeque::len', 'BTreeMap::len', 'IndexedParallelIterator::len')
def _len(c):
    v = c.v(0)
    if v.op == 'it':
        r = indexable(c.I, c.st, v)
        if r is not None:
            return c.ret(r[0])
        return c.pure()
    r = ln(v)
    UNSIGNED.add(r)
    return c.ret(r)


@model('Vec::is_empty', 'slice::is_empty', 'SmallVec::is_empty', 'HashSet::is_empty', 'HashMap::is_empty', 'AHashMap::is_empty', 'str::is_empty',
       'String::is_empty', 'AHashSet::is_empty', 'BTreeMap::is_empty')
def _is_empty(c):
    n = ln(c.v(0))
    UNSIGNED.add(n)
    return c.ret(b(NOT(pos(n))))


@model('Index::index')
def _index(c):
    v, i = c.v(0), c.args[1]
    k = coll_kind(c.atys[0]) if c.atys else None
    if k == 'map':
        g = get(v, c.v(1))
        c.I.panic(c.st, 'map-index', NOT(is_(g, 'Some')), args=(g,))
        return c.ret(fld(g, 0, 'Some'))
    return c.ret(index_val(c, v, i))


def rng(v, i):
    """(lo, hi) of a range index"""
    n = ln(v)
    if i.op == 'agg':
        k = i.a[0]
        if k == 'Range':
            return i.a[2][0], i.a[2][1]
        if k == 'RangeFrom':
            return i.a[2][0], n
        if k == 'RangeTo':
            return ci(0), i.a[2][0]
        if k == 'RangeFull':
            return ci(0), n
        if k == 'RangeInclusive':
            return i.a[2][0], add(i.a[2][1], ci(1))
        if k == 'RangeToInclusive':
            return ci(0), add(i.a[2][0], ci(1))
    return None


def index_val(c, v, i):
    h = ty_head(c.atys[1]) if len(c.atys) > 1 else ''
    if i.op == 'agg' and rng(v, i):
        lo, hi = rng(v, i)
        kind = 'slice-index'
        if ty_head(c.atys[0]) in ('str', 'String'):
            kind = 'str-slice'
        c.I.panic(c.st, kind, OR(lt(ln(v), hi), lt(hi, lo)), args=(v, lo, hi))
        if kind == 'str-slice':
            c.I.log(c.st, 'strslice', None, (v, lo, hi), None)
        return slice_(v, lo, hi)
    if h in ('Range', 'RangeInclusive', 'RangeFrom', 'RangeTo'):
        lo, hi = {'Range': (fld(i, 0), fld(i, 1)), 'RangeInclusive': (fld(i, 0), add(fld(i, 1), ci(1))),
                  'RangeFrom': (fld(i, 0), ln(v)), 'RangeTo': (ci(0), fld(i, 0))}[h]
        c.I.panic(c.st, 'slice-index', OR(lt(ln(v), hi), lt(hi, lo)), args=(v, lo, hi))
        return slice_(v, lo, hi)
    c.I.panic(c.st, 'index', NOT(lt(i, ln(v))), args=(v, i))
    return at(v, i)


@model('IndexMut::index_mut')
def _index_mut(c):
    a, i = c.args
    v = c.v(0)
    root, path = (a.a[0], a.a[1]) if a.op == 'ref' else (('V', a), ())
    if rng(v, i):
        lo, hi = rng(v, i)
        c.I.panic(c.st, 'slice-index', OR(lt(ln(v), hi), lt(hi, lo)), args=(v, lo, hi))
        return c.ret(mk('ref', root, path + (('sub', lo, hi),)))
    c.I.panic(c.st, 'index', NOT(lt(i, ln(v))), args=(v, i))
    return c.ret(mk('ref', root, path + (('at', i),)))


@model('slice::get', 'SmallVec::get', 'Vec::get')
def _sget(c):
    v, i = c.v(0), c.args[1]
    if rng(v, i):
        lo, hi = rng(v, i)
        g = AND(NOT(lt(ln(v), hi)), NOT(lt(hi, lo)))
        return c.ret(phi([(g, some(slice_(v, lo, hi))), (NOT(g), NONE)]))
    g = lt(i, ln(v))
    return c.ret(phi([(g, some(at(v, i))), (NOT(g), NONE)]))


@model('slice::get_unchecked')
def _sgetu(c):
    v, i = c.v(0), c.args[1]
    if rng(v, i):
        return c.ret(slice_(v, *rng(v, i)))
    return c.ret(at(v, i))


@model('slice::get_mut')
def _sgetm(c):
    a, i = c.args
    v = c.v(0)
    root, path = (a.a[0], a.a[1]) if a.op == 'ref' else (('V', a), ())
    g = lt(i, ln(v))
    return c.ret(phi([(g, some(mk('ref', root, path + (('at', i),)))), (NOT(g), NONE)]))


@model('slice::first')
def _first(c):
    v = c.v(0)
    g = pos(ln(v))
    return c.ret(phi([(g, some(at(v, ci(0)))), (NOT(g), NONE)]))


@model('slice::last')
def _last(c):
    v = c.v(0)
    g = pos(ln(v))
    return c.ret(phi([(g, some(at(v, sub(ln(v), ci(1))))), (NOT(g), NONE)]))


@model('slice::split_at')
def _split_at(c):
    v, i = c.v(0), c.args[1]
    c.I.panic(c.st, 'slice-index', lt(ln(v), i), args=(v, ci(0), i))
    return c.ret(tup(slice_(v, ci(0), i), slice_(v, i, ln(v))))


@model('str::split_at')
def _str_split_at(c):
    v, i = c.v(0), c.args[1]
    c.I.panic(c.st, 'str-slice', lt(ln(v), i), args=(v, ci(0), i))
    c.I.log(c.st, 'strslice', None, (v, ci(0), i), None)
    return c.ret(tup(slice_(v, ci(0), i), slice_(v, i, ln(v))))


@model('slice::contains', 'Vec::contains')
def _contains(c):
    return c.ret(b(member(c, c.v(0), c.v(1))))


def member(c, v, x):
    if v.op == 'phi':
        return OR(*[AND(g.a[0], member(c, y, x)) for g, y in v.a])
    if v.op == 'coll':
        r = FALSE if v.a[1] is EMPTY else member(c, v.a[1], x)
        for bs, g, e in v.a[2]:
            q = AND(g.a[0], eq(e, x))
            for bd in reversed(bs):
                q = exists(bd, q)
            r = OR(r, q)
        return r
    if v is EMPTY:
        return FALSE
    return atom(mk('has', v, x))


@model('HashSet::contains', 'AHashSet::contains', 'BTreeSet::contains')
def _scontains(c):
    return c.ret(b(member(c, c.v(0), c.v(1))))


@model('HashSet::get')
def _setget(c):
    g = member(c, c.v(0), c.v(1))
    return c.ret(phi([(g, some(c.v(1))), (NOT(g), NONE)]))


@model('Vec::push', 'SmallVec::push', 'VecDeque::push_back', 'String::push', 'String::push_str')
def _push(c):
    if 'String' in c.name:
        mutate(c, 0, lambda o: mk('strcat', o, c.v(1)), 'push')
        return c.ret(UNIT)
    mutate(c, 0, lambda o: append('vec', o, c.args[1]), 'push')
    return c.ret(UNIT)


@model('Vec::pop')
def _pop(c):
    v = c.v(0)
    n = ln(v)
    g = pos(n)
    mutate(c, 0, lambda o: slice_(o, ci(0), sub(n, ci(1))), 'pop')
    return c.ret(phi([(g, some(at(v, sub(n, ci(1))))), (NOT(g), NONE)]))


@model('Vec::insert')
def _vinsert(c):
    mutate(c, 0, lambda o: mk('vinsert', o, c.args[1], c.args[2]), 'vinsert')
    return c.ret(UNIT)


@model('Vec::remove', 'Vec::swap_remove', 'SmallVec::swap_remove', 'SmallVec::remove')
def _vremove(c):
    v, i = c.v(0), c.args[1]
    c.I.panic(c.st, 'index', NOT(lt(i, ln(v))), args=(v, i))
    mutate(c, 0, lambda o: mk('without', o, i), 'remove_at')
    return c.ret(at(v, i))


@model('Vec::truncate', 'SmallVec::truncate')
def _truncate(c):
    mutate(c, 0, lambda o: slice_(o, ci(0), minmax('min', c.args[1], ln(o))), 'truncate')
    return c.ret(UNIT)


@model('Vec::clear', 'HashSet::clear', 'HashMap::clear', 'AHashMap::clear', 'SmallVec::clear', 'AHashSet::clear', 'String::clear')
def _clear(c):
    k = coll_kind(c.atys[0]) if c.atys else 'vec'
    mutate(c, 0, lambda o: mk('mnew') if k == 'map' else coll(k or 'vec', EMPTY, ()), 'clear', ())
    return c.ret(UNIT)


@model('Vec::reserve', 'HashMap::reserve', 'HashSet::reserve', 'Vec::shrink_to_fit', 'Vec::shrink_to', 'HashMap::shrink_to', 'HashMap::shrink_to_fit',
       'HashSet::shrink_to_fit', 'HashSet::shrink_to', 'SmallVec::shrink_to_fit', 'SmallVec::reserve', 'Vec::reserve_exact', 'AHashMap::reserve',
       'AHashMap::shrink_to_fit', 'String::reserve', 'SmallVec::grow', 'SmallVec::reserve_exact', 'SmallVec::shrink_to')
def _capop(c):
    c.I.log(c.st, 'capacity', locof(c.args[0]), (), None)
    return c.ret(UNIT)


def locof(a):
    return (a.a[0], a.a[1]) if a.op == 'ref' else (('V', a), ())


@model('HashMap::capacity', 'Vec::capacity', 'HashSet::capacity', 'SmallVec::spilled', 'SmallVec::inline_size')
def _capacity(c):
    return c.pure()


@model('Vec::extend_from_slice', 'Extend::extend', 'Vec::append', 'SmallVec::extend_from_slice', 'ParallelExtend::par_extend')
def _extend(c):
    I = c.I
    kind = coll_kind(c.atys[0]) if c.atys else 'vec'
    src = c.args[1]
    if c.name.endswith('append'):
        src = c.v(1)
        mutate(c, 1, lambda o: coll('vec', EMPTY, ()), 'clear', ())
    if kind is None:
        return NotImplemented
    it = as_it(I, c.st, src, c.atys[1] if len(c.atys) > 1 else None)

    def body(x, e):
        if kind == 'map':
            k, v = fld(e, 0), fld(e, 1)
            for g, leaf in parts_of(c.args[0]):
                root, path = locof(leaf)
                old = I.load(x, root, path)
                I.write(x, root, path, mins(old, k, v), op='insert', args=(k, v))
            return x, []
        for g, leaf in parts_of(c.args[0]):
            root, path = locof(leaf)
            old = I.load(x, root, path)
            I.write(x, root, path, append(kind, old, e, g), op='push' if kind == 'vec' else 'insert', args=(e,))
        return x, []
    r, ex = I.drive(it, ('ext', c.site), c.st, body)
    return r, UNIT


def mins(m, k, v):
    if m.op == 'mins' and m.a[1] is k:
        return mins(m.a[0], k, v)
    return mk('mins', m, k, v)


@model('HashSet::insert', 'AHashSet::insert', 'BTreeSet::insert')
def _sinsert(c):
    v = c.v(0)
    g = member(c, v, c.args[1])
    mutate(c, 0, lambda o: append('set', o, c.args[1]), 'insert')
    return c.ret(b(NOT(g)))


@model('HashSet::remove', 'AHashSet::remove')
def _sremove(c):
    v, x = c.v(0), c.v(1)
    g = member(c, v, x)
    mutate(c, 0, lambda o: filtered(o, lambda e: NOT(eq(e, x)), 'set'), 'remove')
    return c.ret(b(g))


def as_gens(o, kind):
    """(kind, gens) of any collection value"""
    if o.op == 'coll':
        gens = o.a[2]
        if o.a[1] is not EMPTY:
            gens = as_gens(o.a[1], kind)[1] + gens
        return o.a[0], gens
    if o is EMPTY:
        return kind, ()
    k = o.bv + 1
    return kind, (((binder(k, ln(o)),), TRUE_T, at(o, mk('bv', k))),)


def filtered(o, pred, kind):
    if o.op == 'phi':
        return phi([(g.a[0], filtered(x, pred, kind)) for g, x in o.a])
    kind, gens = as_gens(o, kind)
    return coll(kind, EMPTY, tuple((bs, b(AND(g.a[0], pred(e))), e) for bs, g, e in gens))


@model('HashSet::retain', 'Vec::retain', 'AHashSet::retain', 'SmallVec::retain')
def _retain(c):
    I = c.I
    kind = coll_kind(c.atys[0]) or 'vec'
    f = c.args[1]
    out = []

    for g, leaf in parts_of(c.args[0]):
        root, path = locof(leaf)
        old = I.load(c.st, root, path)
        # rebuild by iterating with the predicate
        r = I.fold(c.st, IT('filter', f, IT('seq', old), ('ret', c.site)), ('ret', c.site), coll(kind, EMPTY, ()),
                   lambda x, acc, e: (x, append(kind, acc, e)))
        if r is None:
            return None, None
        c.st, new = r
        new = unflag(new)
        I.write(c.st, root, path, new, op='retain', args=(f,))
    return c.ret(UNIT)


def unflag(c):
    """a set filtered into a set needs no distinctness flags"""
    if c.op == 'coll' and c.a[0] == 'set':
        gens = []
        for bs, g, e in c.a[2]:
            gens.append((tuple(binder(x.a[0], x.a[1], [f for f in x.a[2] if f != 'set']) for x in bs), g, e))
        return coll('set', c.a[1], tuple(gens))
    return c


@model('HashMap::retain', 'AHashMap::retain')
def _mretain(c):
    I = c.I
    v = c.v(0)
    kk, vv = mk('ph', 3), mk('ph', 4)
    root = ('loc', 'mret', I.nid(('mret', c.site)))
    c.st.store[root] = vv
    mark = len(I.effects)
    st, r = I.call_value(c.st, c.args[1], [kk, mk('ref', root, ())], c.site)
    if st is None:
        return None, None
    nv = st.store.pop(root)
    c.st = st
    mutate(c, 0, lambda o: mk('mretain', o, r, nv), 'mretain', (r, nv))
    return c.ret(UNIT)


@model('Vec::dedup', 'Vec::dedup_by_key', 'Vec::dedup_by')
def _dedup(c):
    k = None
    if c.name.endswith('dedup_by_key'):
        st = c.st.copy()
        mark = len(c.I.effects)
        st, k = c.I.call_value(st, c.args[1], [PH1], (c.site, 'k1'))
        del c.I.effects[mark:]
        k = k if k is not None else UNDEF
    elif c.name.endswith('dedup_by'):
        k = mk('same', comparator(c, c.args[1]))
    if k is not None and k is not PH1:
        # neighbours with the same key are dropped although they differ
        mutate(c, 0, lambda o: mk('dedupk', o, k), 'dedup', (k,))
    else:
        mutate(c, 0, lambda o: mk('dedup', o), 'dedup', ())
    return c.ret(UNIT)


@model('slice::reverse')
def _srev(c):
    mutate(c, 0, lambda o: mk('rev', o), 'write', ())
    return c.ret(UNIT)


@model('slice::swap')
def _sswap(c):
    v, i, j = c.v(0), c.args[1], c.args[2]
    mutate(c, 0, lambda o: upa(upa(o, i, at(o, j)), j, at(o, i)), 'write', (i, j))
    return c.ret(UNIT)


@model('slice::fill')
def _fill(c):
    x = c.args[1]
    mutate(c, 0, lambda o: mk('rep', x, ln(o)), 'write', (x,))
    return c.ret(UNIT)


PH1, PH2 = mk('ph', 1), mk('ph', 2)


def comparator(c, f, keyed=False, fl=None):
    """the ordering a comparator / key closure defines on placeholder elements"""
    I = c.I
    st = c.st.copy()
    mark = len(I.effects)
    if keyed:
        st, k1 = I.call_value(st, f, [PH1], (c.site, 'k1'))
        st, k2 = I.call_value(st, f, [PH2], (c.site, 'k2')) if st is not None else (None, None)
        t = key_cmp(k1, k2) if st is not None else UNDEF
    else:
        st, t = I.call_value(st, f, [PH1, PH2], (c.site, 'cmp'))
    del I.effects[mark:]
    return t if t is not None else UNDEF


def key_cmp(x, y, fl=False):
    if x.op == 'agg' and y.op == 'agg' and x.a[0].split('::')[-1] == 'Reverse':
        return key_cmp(y.a[2][0], x.a[2][0])
    if x.op == 'agg' and y.op == 'agg' and x.a[0] == 'tuple' and len(x.a[2]) == len(y.a[2]) and x.a[2]:
        r = key_cmp(x.a[2][-1], y.a[2][-1])
        for p, q in list(zip(x.a[2], y.a[2]))[-2::-1]:
            r = mk('cmpthen', key_cmp(p, q), r)
        return r
    return mkcmp(x, y, fl)


@model('slice::sort', 'slice::sort_unstable', 'ParallelSliceMut::par_sort', 'ParallelSliceMut::par_sort_unstable')
def _sort(c):
    mutate(c, 0, lambda o: mk('sorted', o, mkcmp(PH1, PH2, False)), 'sort', ())
    return c.ret(UNIT)


@model('slice::sort_by', 'slice::sort_unstable_by', 'ParallelSliceMut::par_sort_by', 'ParallelSliceMut::par_sort_unstable_by',
       'slice::sort_by_key', 'slice::sort_unstable_by_key', 'slice::sort_by_cached_key', 'ParallelSliceMut::par_sort_by_key')
def _sort_by(c):
    t = comparator(c, c.args[1], 'key' in c.name)
    mutate(c, 0, lambda o: mk('sorted', o, t), 'sort', (t,))
    return c.ret(UNIT)


@model('slice::select_nth_unstable_by', 'slice::select_nth_unstable')
def _selnth(c):
    mutate(c, 0, lambda o: mk('selected', o, c.args[1]), 'sort', ())
    return c.opaque()


@model('slice::join', 'slice::concat')
def _join(c):
    return c.pure()


# ---------------------------------------------------------------- maps
@model('HashMap::get', 'AHashMap::get', 'BTreeMap::get')
def _mget(c):
    return c.ret(get(c.v(0), c.v(1)))


@model('HashMap::contains_key', 'AHashMap::contains_key', 'BTreeMap::contains_key')
def _mhas(c):
    return c.ret(b(is_(get(c.v(0), c.v(1)), 'Some')))


@model('HashMap::get_key_value')
def _mgkv(c):
    g = get(c.v(0), c.v(1))
    i = is_(g, 'Some')
    return c.ret(phi([(i, some(tup(c.v(1), fld(g, 0, 'Some')))), (NOT(i), NONE)]))


@model('HashMap::get_mut', 'AHashMap::get_mut')
def _mget_mut(c):
    root, path = locof(c.args[0])
    m, k = c.v(0), c.v(1)
    g = is_(get(m, k), 'Some')
    return c.ret(phi([(g, some(mk('ref', root, path + (('ent', k),)))), (NOT(g), NONE)]))


@model('HashMap::insert', 'AHashMap::insert', 'BTreeMap::insert')
def _minsert(c):
    m, k, v = c.v(0), c.args[1], c.args[2]
    old = get(m, k)
    mutate(c, 0, lambda o: mins(o, k, v), 'insert', (k, v))
    return c.ret(old)


@model('HashMap::remove', 'AHashMap::remove')
def _mremove(c):
    m, k = c.v(0), c.v(1)
    old = get(m, k)
    mutate(c, 0, lambda o: mk('mrem', o, k), 'remove', (k,))
    return c.ret(old)


@model('HashMap::remove_entry')
def _mremove_e(c):
    m, k = c.v(0), c.v(1)
    old = get(m, k)
    mutate(c, 0, lambda o: mk('mrem', o, k), 'remove', (k,))
    g = is_(old, 'Some')
    return c.ret(phi([(g, some(tup(k, fld(old, 0, 'Some')))), (NOT(g), NONE)]))


@model('HashMap::entry', 'AHashMap::entry', 'BTreeMap::entry')
def _mentry(c):
    return c.ret(mk('entry', c.args[0], c.v(1), b(is_(get(c.v(0), c.v(1)), 'Some'))))


def entry_or(c, default):
    e = c.args[0]
    if e.op != 'entry':
        return NotImplemented
    I = c.I
    root, path = locof(e.a[0])
    m, k = I.load(c.st, root, path), e.a[1]
    g = get(m, k)
    has = I.simp(c.st, is_(g, 'Some'))
    if has != TRUE:
        def ins(st):
            st, d = default(st)
            if st is None:
                return None, None
            I.write(st, root, path, mins(I.load(st, root, path), k, d), op='insert', args=(k, d))
            return st, UNIT
        c.st, _ = under(c, NOT(has), ins, UNIT)
        if c.st is None:
            return None, None
        if not I.log_only(root, path):
            # normalise: m[k := (old | default)]
            v = I.load(c.st, root, path)
            if v.op == 'phi':
                nv = []
                okk = True
                for gg, x in v.a:
                    if x.op == 'mins' and x.a[0] is m and x.a[1] is k:
                        nv.append((gg.a[0], x.a[2]))
                    elif x is m:
                        nv.append((gg.a[0], fld(g, 0, 'Some')))
                    else:
                        okk = False
                if okk:
                    I.raw_set(c.st, root, path, mk('mins', m, k, phi(nv)))
    return c.ret(mk('ref', root, path + (('ent', k),)))


@model('Entry::or_insert')
def _or_insert(c):
    return entry_or(c, lambda st: (st, c.args[1]))


@model('Entry::or_insert_with')
def _or_insert_with(c):
    return entry_or(c, lambda st: c.I.call_value(st, c.args[1], [], c.site))


@model('Entry::or_default', 'Entry::or_insert_default')
def _or_default(c):
    t = strip_ref(c.dty or {})
    k = coll_kind(t)
    if k in ('vec', 'set'):
        d = coll(k, EMPTY, ())
    elif k == 'map':
        d = mk('mnew')
    elif t.get('n') in _BITS:
        d = ci(0)
    else:
        d = mk('call', 'Default::default', (mk('ty', ty_head(t)),))
    return entry_or(c, lambda st: (st, d))


@model('Entry::and_modify')
def _and_modify(c):
    e = c.args[0]
    if e.op != 'entry':
        return NotImplemented
    I = c.I
    root, path = locof(e.a[0])
    k = e.a[1]
    g = get(I.load(c.st, root, path), k)

    def f(st):
        st, r = I.call_value(st, c.args[1], [mk('ref', root, path + (('ent', k),))], c.site)
        return st, (UNIT if st is not None else None)
    st, _ = under(c, is_(g, 'Some'), f, UNIT)
    return st, e


@model('OccupiedEntry::get_mut', 'OccupiedEntry::into_mut', 'OccupiedEntry::get', 'OccupiedEntry::key', 'VacantEntry::key', 'Entry::key',
       'VacantEntry::into_key', 'OccupiedEntry::insert', 'VacantEntry::insert', 'OccupiedEntry::remove', 'OccupiedEntry::remove_entry')
def _entry_ops(c):
    e = c.v(0)
    if e.op != 'entry':
        return NotImplemented
    I = c.I
    root, path = locof(e.a[0])
    k = e.a[1]
    n = c.name.split('::')[-1]
    if n in ('key', 'into_key'):
        return c.ret(k)
    slot = mk('ref', root, path + (('ent', k),))
    if n in ('get_mut', 'into_mut'):
        return c.ret(slot)
    if n == 'get':
        return c.ret(I.val(c.st, slot))
    old = get(I.load(c.st, root, path), k)
    if n == 'insert':
        I.write(c.st, root, path, mins(I.load(c.st, root, path), k, c.args[1]), op='insert', args=(k, c.args[1]))
        return c.ret(slot if 'Vacant' in c.name else fld(old, 0, 'Some'))
    I.write(c.st, root, path, mk('mrem', I.load(c.st, root, path), k), op='remove', args=(k,))
    v = fld(old, 0, 'Some')
    return c.ret(tup(k, v) if n == 'remove_entry' else v)


@model('HashMap::iter', 'AHashMap::iter', 'BTreeMap::iter')
def _miter(c):
    return c.ret(IT('mapitems', c.v(0)))


@model('HashMap::keys', 'HashMap::into_keys', 'AHashMap::keys')
def _mkeys(c):
    return c.ret(IT('mapkeys', c.v(0)))


@model('HashMap::values', 'HashMap::into_values', 'AHashMap::values')
def _mvals(c):
    return c.ret(IT('mapvals', c.v(0)))


@model('HashMap::iter_mut')
def _mitermut(c):
    return c.ret(IT('mapitemsmut', *locof(c.args[0])))


@model('HashMap::values_mut')
def _mvalsmut(c):
    return c.ret(IT('mapvalsmut', *locof(c.args[0])))


@model('HashMap::drain', 'HashSet::drain', 'Vec::drain')
def _drain(c):
    v = c.v(0)
    k = coll_kind(c.atys[0])
    if len(c.args) > 1:
        r = rng(v, c.args[1])
        if not r or r[0] is not ci(0) or r[1] is not ln(v):
            mutate(c, 0, lambda o: mk('drained', o, *(r or ())), 'drain')
            return c.ret(IT('seq', slice_(v, *r) if r else mk('drainpart', v)))
    mutate(c, 0, lambda o: mk('mnew') if k == 'map' else coll(k or 'vec', EMPTY, ()), 'clear', ())
    return c.ret(IT('mapitems' if k == 'map' else 'seq', v))


# ---------------------------------------------------------------- iterator adapters
@model('IntoIterator::into_iter', 'slice::iter', 'HashSet::iter', 'IntoParallelIterator::into_par_iter', 'IntoParallelRefIterator::par_iter',
       'Vec::iter', 'AHashSet::iter', 'VecDeque::iter', 'BTreeSet::iter', 'Option::iter', 'Option::into_iter')
def _iter(c):
    a = c.args[0]
    ty = c.atys[0] if c.atys else None
    if a.op == 'ref':
        v = c.v(0)
        if v.op == 'it' or (ty_head(ty) not in ('Vec', 'slice', 'SmallVec', 'HashMap', 'AHashMap', 'array') and ty and ty.get('k') == 'ref' and ty.get('m') and v.op != 'agg'):
            it = IT('byref', a.a[0], a.a[1]) if v.op == 'it' else as_it(c.I, c.st, a, ty)
        elif ty and ty.get('k') == 'ref' and not ty.get('m'):
            it = as_it(c.I, c.st, v, ty)
        elif coll_kind(ty) == 'map':
            it = IT('mapitemsmut', a.a[0], a.a[1])
        else:
            it = as_it(c.I, c.st, a, ty)
    else:
        v = a
        if ty and ty.get('k') == 'ref' and ty.get('m') and coll_kind(ty) in ('vec',):
            it = IT('seqmut', ('V', a), ())
        elif ty and ty.get('k') == 'ref' and ty.get('m') and coll_kind(ty) == 'map':
            it = IT('mapitemsmut', ('V', a), ())
        else:
            it = as_it(c.I, c.st, c.v(0), ty)
    if 'par_iter' in c.name:
        it = IT('par', it)
    return c.ret(it)


@model('slice::iter_mut', 'IntoParallelRefMutIterator::par_iter_mut', 'SmallVec::iter_mut')
def _iter_mut(c):
    a = c.args[0]
    it = IT('mapitemsmut', *locof(a)) if coll_kind(c.atys[0]) == 'map' else IT('seqmut', *locof(a))
    if 'par_' in c.name:
        it = IT('par', it)
    return c.ret(it)


@model('slice::chunks', 'ParallelSlice::par_chunks', 'slice::chunks_exact')
def _chunks(c):
    c.I.panic(c.st, 'chunk-size', NOT(pos(c.args[1])))
    it = IT('chunks' if 'exact' not in c.name else 'chunksx', c.v(0), c.args[1])
    return c.ret(IT('par', it) if 'par_' in c.name else it)


@model('ChunksExact::remainder')
def _remainder(c):
    it = c.v(0)
    if it.op != 'it' or it.a[0] != 'chunksx':
        return None
    v, n = it.a[1], it.a[2]
    return c.ret(slice_(v, mul(div(ln(v), n), n), ln(v)))


@model('slice::chunks_mut', 'ParallelSliceMut::par_chunks_mut')
def _chunks_mut(c):
    c.I.panic(c.st, 'chunk-size', NOT(pos(c.args[1])))
    it = IT('chunksmut', *locof(c.args[0]), c.args[1])
    return c.ret(IT('par', it) if 'par_' in c.name else it)


@model('slice::windows', 'ParallelSlice::par_windows')
def _windows(c):
    c.I.panic(c.st, 'window-size', NOT(pos(c.args[1])))
    it = IT('windows', c.v(0), c.args[1])
    return c.ret(IT('par', it) if 'par_' in c.name else it)


def itarg(c, n=0):
    a = c.args[n]
    if a.op == 'ref':
        v = c.v(n)
        if v.op in ('it', 'itphi'):
            return v
        return IT('seq', v)
    return as_it(c.I, c.st, c.v(n), c.atys[n] if n < len(c.atys) else None)


for _t in ('Iterator', 'ParallelIterator', 'IndexedParallelIterator'):
    for _k in ('map', 'filter', 'filter_map', 'flat_map', 'inspect'):
        def _mkad(k):
            def f(c):
                return c.ret(IT(k, c.args[1], itarg(c), c.site))
            return f
        M[f'{_t}::{_k}'] = _mkad(_k)
    M[f'{_t}::flat_map_iter'] = _mkad('flat_map')
    M[f'{_t}::enumerate'] = lambda c: c.ret(IT('enumerate', itarg(c)))
    M[f'{_t}::rev'] = lambda c: c.ret(IT('rev', itarg(c)))
    M[f'{_t}::flatten'] = lambda c: c.ret(IT('flatten', itarg(c)))
    M[f'{_t}::take'] = lambda c: c.ret(IT('take', itarg(c), c.args[1]))
    M[f'{_t}::skip'] = lambda c: c.ret(IT('skip', itarg(c), c.args[1]))
    M[f'{_t}::step_by'] = lambda c: c.ret(IT('step_by', itarg(c), c.args[1]))

    def _zip(c):
        return c.ret(IT('zip', itarg(c), as_it2(c, 1)))
    M[f'{_t}::zip'] = _zip

    def _chain(c):
        return c.ret(IT('chain', itarg(c), as_it2(c, 1)))
    M[f'{_t}::chain'] = _chain


def as_it2(c, n):
    a = c.args[n]
    ty = c.atys[n] if n < len(c.atys) else None
    if ty and ty.get('k') == 'ref' and not ty.get('m'):
        return as_it(c.I, c.st, c.v(n), ty)
    if a.op != 'ref' and ty and ty.get('k') == 'ref' and ty.get('m') and coll_kind(ty) == 'vec':
        return IT('seqmut', ('V', a), ())
    return as_it(c.I, c.st, a if a.op == 'ref' else c.v(n), ty)


@model('iter::repeat')
def _repeat(c):
    return c.ret(IT('repeat', c.args[0]))


@model('iter::zip')
def _izip(c):
    return c.ret(IT('zip', as_it2(c, 0), as_it2(c, 1)))


@model('iter::once')
def _once(c):
    return c.ret(IT('once', c.args[0]))


@model('iter::empty')
def _iempty(c):
    return c.ret(IT('done'))


@model('Iterator::next')
def _next(c):
    I, st = c.I, c.st
    a = c.args[0]
    loc = locof(a)
    ctx = I.drv[-1] if I.drv else None
    it = I.load(st, *loc)
    if ctx is not None:
        if ctx['mode'] == 'elem' and ctx['loc'] == loc:
            if not ctx['used']:
                ctx['used'] = True
                return c.ret(ctx['val'])
        elif ctx['mode'] == 'detect' and st.pc == ctx['pc'] and len(I.loopstack) == ctx['depth']:
            if loc[0] in ctx['start']:
                v0 = ctx['start'][loc[0]]
                for p in loc[1]:
                    v0 = I.proj(v0, p)
                if v0 is it:
                    x = it if it.op in ('it', 'itphi') else as_it(I, st, it, strip_ref(c.atys[0]) if c.atys else None)
                    raise DriverFound(loc, x)
    if it.op == 'it':
        ix = indexable(I, st, it)
        if ix is not None:
            if ix[0] is INF:
                g = TRUE
            else:
                g = pos(ix[0])

            def f(x):
                x, e = ix[1](x, ci(0))
                return x, (some(e) if x is not None else None)
            x, r = under(c, g, f, NONE)
            if x is None:
                return None, None
            I.raw_set(x, loc[0], loc[1], IT('skip', it, ci(1)))
            return x, r
        if it.a[0] == 'opt':
            I.raw_set(st, loc[0], loc[1], IT('done'))
            return c.ret(it.a[1])
        m = I.collect_raw(st, it, ('nx', c.site), 'vec')
        if m is None:
            return None, None
        st, v = m
        g = pos(ln(v)) if v.op != 'coll' else NOT(eq(ln(v), ci(0)))
        I.raw_set(st, loc[0], loc[1], IT('seq', mk('tailof', v)))
        return st, mk('firstof', v)
    r = mk('call', 'Iterator::next', (it,))
    I.raw_set(st, loc[0], loc[1], mk('out', r, 0))
    if loc[0][0] == 'V':
        I.log(st, 'next', loc, (r,))
    return c.ret(r)


# ---------------------------------------------------------------- iterator consumers
@model('Iterator::collect', 'ParallelIterator::collect', 'Itertools::collect_vec', 'FromIterator::from_iter', 'FromParallelIterator::from_par_iter',
       'SmallVec::from_vec', 'SmallVec::from_slice')
def _collect(c):
    kind = 'vec' if c.name.endswith('collect_vec') else coll_kind(c.dty)
    it = itarg(c)
    if kind in ('vec', 'set'):
        r = c.I.collect_raw(c.st, it, ('col', c.site), kind)
        return r if r is not None else (None, None)
    if kind == 'map':
        r = c.I.fold(c.st, it, ('col', c.site), mk('mnew'), lambda x, acc, e: (x, mins(acc, fld(e, 0), fld(e, 1))))
        return r if r is not None else (None, None)
    h = ty_head(c.dty)
    if h in ('Result', 'Option'):
        inner = strip_ref(c.dty)['a'][0]
        k = coll_kind(inner)
        if k in ('vec', 'set'):
            var = 'Ok' if h == 'Result' else 'Some'
            r = c.I.collect_raw(c.st, it, ('col', c.site), 'vec')
            if r is None:
                return None, None
            st, v = r
            K, gens = as_gens(v, 'vec')
            bad = FALSE
            good = []
            for bs, g, e in gens:
                q = AND(g.a[0], NOT(is_(e, var)))
                for bd in reversed(bs):
                    q = exists(bd, q)
                bad = OR(bad, q)
                good.append((bs, g, fld(e, 0, var)))
            val = coll(k, EMPTY, tuple(good))
            wrap = ok if var == 'Ok' else some
            return st, phi([(NOT(bad), wrap(val)), (bad, err(mk('firsterr', v)) if var == 'Ok' else NONE)])
    r = c.I.collect_raw(c.st, it, ('col', c.site), 'vec')
    if r is None:
        return None, None
    st, v = r
    return st, mk('call', 'collect', (v, mk('ty', h)))


@model('IndexedParallelIterator::collect_into_vec')
def _collect_into(c):
    r = c.I.collect_raw(c.st, itarg(c), ('col', c.site), 'vec')
    if r is None:
        return None, None
    c.st, v = r
    mutate(c, 1, lambda o: v, 'assign', (v,))
    return c.ret(UNIT)


@model('Iterator::for_each', 'ParallelIterator::for_each')
def _for_each(c):
    def body(x, e):
        x, r = c.I.call_value(x, c.args[1], [e], (c.site, 'fe'))
        return x, []
    r, ex = c.I.drive(itarg(c), ('fe', c.site), c.st, body)
    return r, (UNIT if r is not None else None)


@model('Iterator::fold')
def _fold(c):
    r = c.I.fold(c.st, itarg(c), ('fold', c.site), c.args[1], lambda x, acc, e: c.I.call_value(x, c.args[2], [acc, e], (c.site, 'f')))
    return r if r is not None else (None, None)


@model('Iterator::sum', 'ParallelIterator::sum')
def _sum(c):
    n = (c.dty or {}).get('n')
    if n in ('f32', 'f64'):
        r = c.I.fold(c.st, itarg(c), ('sum', c.site), cf(0.0), lambda x, acc, e: (x, fop('fadd', acc, e)))
    else:
        r = c.I.fold(c.st, itarg(c), ('sum', c.site), ci(0), lambda x, acc, e: (x, arith('Add', acc, e, False)))
    if r is None:
        return None, None
    if n in ('u8', 'u16', 'i8', 'i16'):
        return r[0], mk('trunc', n, r[1])
    return r


@model('Iterator::product')
def _product(c):
    r = c.I.collect_raw(c.st, itarg(c), ('prd', c.site), 'vec')
    return (r[0], mk('call', 'product', (r[1],))) if r is not None else (None, None)


@model('Iterator::count', 'ParallelIterator::count')
def _count(c):
    r = c.I.fold(c.st, itarg(c), ('cnt', c.site), ci(0), lambda x, acc, e: (x, arith('Add', acc, ci(1), False)))
    return r if r is not None else (None, None)


@model('Iterator::any', 'ParallelIterator::any', 'Iterator::all', 'ParallelIterator::all')
def _any(c):
    anyp = c.name.endswith('any')

    def step(x, acc, e):
        x, r = c.I.call_value(x, c.args[1], [e], (c.site, 'p'))
        if x is None:
            return None, None
        g = truth(r)
        return x, b(OR(truth(acc), g) if anyp else AND(truth(acc), g))
    r = c.I.fold(c.st, itarg(c), ('any', c.site), FALSE_T if anyp else TRUE_T, step)
    return r if r is not None else (None, None)


@model('Iterator::position')
def _position(c):
    I = c.I

    def pred(x, e):
        n, e = fld(e, 0), fld(e, 1)
        x, r = I.call_value(x, c.args[1], [e], (c.site, 'p'))
        return (x, truth(r), n) if x is not None else (None, None, None)
    return I.find(c.st, IT('enumerate', itarg(c)), ('pos', c.site), pred)


@model('Iterator::find', 'ParallelIterator::find_any', 'ParallelIterator::find_first')
def _find(c):
    I = c.I

    def pred(x, e):
        x, r = I.call_value(x, c.args[1], [e], (c.site, 'p'))
        return (x, truth(r), e) if x is not None else (None, None, None)
    return I.find(c.st, itarg(c), ('find', c.site), pred)


@model('Iterator::find_map')
def _find_map(c):
    I = c.I

    def pred(x, e):
        x, r = I.call_value(x, c.args[1], [e], (c.site, 'p'))
        return (x, is_(r, 'Some'), fld(r, 0, 'Some')) if x is not None else (None, None, None)
    return I.find(c.st, itarg(c), ('findm', c.site), pred)


def best(c, which, cmp_):
    r = c.I.collect_raw(c.st, itarg(c), ('best', c.site), 'vec')
    if r is None:
        return None, None
    st, v = r
    ne = pos(ln(v))
    t = mk('best', which, v, cmp_)
    return st, phi([(ne, some(t)), (NOT(ne), NONE)])


@model('Iterator::max_by', 'Iterator::min_by', 'ParallelIterator::max_by', 'ParallelIterator::min_by',
       'Iterator::max_by_key', 'Iterator::min_by_key', 'ParallelIterator::max_by_key', 'ParallelIterator::min_by_key')
def _max_by(c):
    return best(c, 'max' if 'max' in c.name.split('::')[-1] else 'min', comparator(c, c.args[1], 'key' in c.name))


@model('Iterator::reduce', 'ParallelIterator::reduce_with')
def _reduce(c):
    """keeping the smaller / larger of two is a minimum / maximum"""
    I = c.I
    st = c.st.copy()
    mark = len(I.effects)
    st, r = I.call_value(st, c.args[1], [PH1, PH2], (c.site, 'red'))
    del I.effects[mark:]
    if st is None or r is None:
        return NotImplemented
    if r.op in ('min', 'max') and set(r.a[:2]) == {PH1, PH2}:
        return best(c, r.op, mkcmp(PH1, PH2, False))
    if r.op == 'phi' and len(r.a) == 2 and {x for _, x in r.a} == {PH1, PH2}:
        g = [h.a[0] for h, x in r.a if x is PH2][0]
        ats = atoms_of(g)
        if len(ats) == 1:
            a = ats[0]
            neg = g != atom(a)
            # a: PH1.k < PH2.k or the other way round
            for fl, mkl in ((True, flt), (False, lt)):
                for x in {y for y in subterms(a) if PH1 in subterms(y) and PH2 not in subterms(y)}:
                    y = subst(x, {PH1: PH2})
                    for which, h in (('max', mkl(x, y)), ('min', mkl(y, x)), ('min', NOT(mkl(x, y))), ('max', NOT(mkl(y, x)))):
                        if h == g:
                            return best(c, which, mkcmp(x, y, fl))
    return NotImplemented


@model('Iterator::take_while')
def _take_while(c):
    I = c.I
    it = itarg(c)
    ix = indexable(I, c.st, it)
    if ix is None or ix[0] is INF:
        return NotImplemented

    def pred(x, e):
        n, e = fld(e, 0), fld(e, 1)
        x, r = I.call_value(x, c.args[1], [e], (c.site, 'p'))
        return (x, NOT(truth(r)), n) if x is not None else (None, None, None)
    st, r = I.find(c.st, IT('enumerate', it), ('tw', c.site), pred)
    if st is None:
        return None, None
    return st, IT('take', it, phi([(is_(r, 'Some'), fld(r, 0, 'Some')), (is_(r, 'None'), ix[0])]))


@model('slice::split_first', 'slice::split_last')
def _split_first(c):
    v = c.v(0)
    n = ln(v)
    g = pos(n)
    t = tup(at(v, ci(0)), slice_(v, ci(1), n)) if c.name.endswith('first') else tup(at(v, sub(n, ci(1))), slice_(v, ci(0), sub(n, ci(1))))
    return c.ret(phi([(g, some(t)), (NOT(g), NONE)]))


@model('iter::repeat_with')
def _repeat_with(c):
    return c.ret(IT('map0', c.args[0], c.site))


@model('Distribution::sample_iter', 'Rng::sample_iter')
def _sample_iter(c):
    x, y = (c.v(0), c.v(1)) if 'Rng' not in c.name else (c.v(1), c.v(0))
    return c.ret(IT('samples', x, y))


@model('num::is_multiple_of')
def _multiple(c):
    return c.ret(b(eq(rem(c.v(0), c.v(1)), ci(0))))


@model('Iterator::max', 'Iterator::min', 'ParallelIterator::max', 'ParallelIterator::min')
def _imax(c):
    return best(c, 'max' if 'max' in c.name.split('::')[-1] else 'min', mkcmp(PH1, PH2, False))


@model('Iterator::last')
def _ilast(c):
    r = c.I.collect_raw(c.st, itarg(c), ('last', c.site), 'vec')
    if r is None:
        return None, None
    st, v = r
    g = pos(ln(v))
    return st, phi([(g, some(at(v, sub(ln(v), ci(1))))), (NOT(g), NONE)])


@model('Iterator::nth')
def _nth(c):
    r = c.I.collect_raw(c.st, itarg(c), ('nth', c.site), 'vec')
    if r is None:
        return None, None
    st, v = r
    g = lt(c.args[1], ln(v))
    if c.args[0].op == 'ref':
        c.I.raw_set(st, *locof(c.args[0]), IT('skip', itarg(c), add(c.args[1], ci(1))))
    return st, phi([(g, some(at(v, c.args[1]))), (NOT(g), NONE)])


@model('Iterator::unzip', 'ParallelIterator::unzip')
def _unzip(c):
    ks = [coll_kind(x) or 'vec' for x in (strip_ref(c.dty).get('a') or [{}, {}])]

    def step(x, acc, e):
        return x, tup(append(ks[0], fld(acc, 0), fld(e, 0)), append(ks[1], fld(acc, 1), fld(e, 1)))
    r = c.I.fold(c.st, itarg(c), ('unz', c.site), tup(coll(ks[0], EMPTY, ()), coll(ks[1], EMPTY, ())), step)
    return r if r is not None else (None, None)


@model('Iterator::partition')
def _partition(c):
    k = coll_kind((strip_ref(c.dty).get('a') or [{}])[0]) or 'vec'

    def step(x, acc, e):
        x, r = c.I.call_value(x, c.args[1], [e], (c.site, 'p'))
        if x is None:
            return None, None
        g = truth(r)
        return x, tup(append(k, fld(acc, 0), e, g), append(k, fld(acc, 1), e, NOT(g)))
    r = c.I.fold(c.st, itarg(c), ('part', c.site), tup(coll(k, EMPTY, ()), coll(k, EMPTY, ())), step)
    return r if r is not None else (None, None)


@model('Itertools::combinations')
def _combos(c):
    r = c.I.collect_raw(c.st, itarg(c), ('comb', c.site), 'vec')
    return (r[0], IT('seq', mk('combos', r[1], c.args[1]))) if r is not None else (None, None)


@model('HashSet::intersection', 'HashSet::union', 'HashSet::difference')
def _setop(c):
    return c.ret(IT('seq', mk(c.name.split('::')[-1], c.v(0), c.v(1))))


@model('HashSet::is_disjoint', 'HashSet::is_subset')
def _setpred(c):
    return c.ret(b(atom(mk(c.name.split('::')[-1], c.v(0), c.v(1)))))


# ---------------------------------------------------------------- closures
@model('Fn::call', 'FnMut::call_mut', 'FnOnce::call_once')
def _callf(c):
    a = c.args[1]
    n = len(a.a[2]) if a.op == 'agg' else 0
    if a.op != 'agg':
        return c.opaque()
    return c.I.call_value(c.st, c.args[0], list(a.a[2]), (c.site, 'cf'))


# ---------------------------------------------------------------- id containers (abstract)
@model('IdContainer::new')
def _ic_new(c):
    return c.ret(coll('bag', EMPTY, ()))


@model('IdContainer::push')
def _ic_push(c):
    mutate(c, 0, lambda o: append('bag', o, c.args[1]), 'push')
    return c.ret(UNIT)


@model('IdContainer::remove')
def _ic_remove(c):
    x = c.v(1)
    mutate(c, 0, lambda o: filtered(o, lambda e: NOT(eq(e, x)), 'bag'), 'remove', (x,))
    return c.ret(mk('call', 'IdContainer::remove', (c.v(0), x)) if False else b(atom(mk('has', c.v(0), x))))


@model('IdContainer::len')
def _ic_len(c):
    r = ln(c.v(0)) if c.v(0).op != 'coll' else mk('len', c.v(0))
    UNSIGNED.add(r)
    return c.ret(r)


@model('IdContainer::is_empty')
def _ic_empty(c):
    r = mk('len', c.v(0))
    UNSIGNED.add(r)
    return c.ret(b(NOT(pos(r))))


@model('IdContainer::copy_to', 'IdContainer::copy_refs_to')
def _ic_copy(c):
    I = c.I
    src = c.v(0)

    def body(x, e):
        for g, leaf in parts_of(c.args[1]):
            root, path = locof(leaf)
            I.write(x, root, path, append('set', I.load(x, root, path), e, g), op='insert', args=(e,))
        return x, []
    r, ex = I.drive(IT('seq', src), ('ic', c.site), c.st, body)
    return r, UNIT


# ---------------------------------------------------------------- shared state
def atomic(c, op):
    I = c.I
    idxs = tuple(mk('idx', x[0]) for x in I.loopstack)
    # pointers are stored and compared as such: the content behind them is not read
    r = mk('atomic', op, c.v(0), tuple(c.args[1:]), idxs, I.nid(('at', c.site)))
    I.log(c.st, 'atomic', None, (r,), None, aop=op, recv=c.v(0), res=r)
    return c.ret(r)


for _o in ('load', 'store', 'compare_exchange', 'compare_exchange_weak', 'swap', 'fetch_add', 'fetch_sub', 'fetch_or', 'fetch_and', 'fetch_update',
           'compare_and_swap', 'fetch_max', 'fetch_min'):
    M['Atomic::' + _o] = (lambda o: lambda c: atomic(c, o))(_o)
    for _w in ('U8', 'U16', 'U32', 'U64', 'Usize', 'Bool', 'Ptr', 'I32', 'I64', 'Isize'):
        M[f'Atomic{_w}::{_o}'] = M['Atomic::' + _o]


@model('Atomic::new', 'Mutex::new', 'RwLock::new', 'Cell::new', 'RefCell::new', 'AtomicU32::new', 'AtomicPtr::new', 'AtomicU8::new', 'UnsafeCell::new')
def _cellnew(c):
    return c.ret(mk('cellnew', c.name.split('::')[-2], c.args[0]))


@model('Mutex::lock', 'RwLock::write', 'RwLock::read', 'Mutex::try_lock')
def _lock(c):
    I = c.I
    idxs = tuple(mk('idx', x[0]) for x in I.loopstack)
    r = mk('guard', c.name.split('::')[-1], c.v(0), I.nid(('lk', c.site)), idxs)
    I.log(c.st, 'lock', None, (r,), None, recv=c.v(0), lop=c.name)
    return c.ret(ok(r) if not c.name.endswith('try_lock') else mk('call', 'try_lock', (r,)))


@model('Cell::get', 'Cell::set', 'Cell::replace', 'RefCell::borrow', 'RefCell::borrow_mut', 'Cell::take', 'Cell::update')
def _cell(c):
    I = c.I
    idxs = tuple(mk('idx', x[0]) for x in I.loopstack)
    op = c.name.split('::')[-1]
    cell = c.v(0)
    root = ('V', mk('cellof', cell))
    if op == 'get':
        v = I.load(c.st, root, ())
        I.log(c.st, 'cell', None, (v,), None, cop=op, recv=cell)
        return c.ret(v)
    if op in ('set', 'replace'):
        old = I.load(c.st, root, ())
        I.write(c.st, root, (), c.args[1], op='cellset', args=(c.args[1],))
        I.log(c.st, 'cell', None, (c.args[1],), None, cop=op, recv=cell)
        return c.ret(UNIT if op == 'set' else old)
    r = mk('celld', op, cell, idxs, I.nid(('ce', c.site)))
    I.log(c.st, 'cell', None, (r,), None, cop=op, recv=cell)
    return c.ret(r)


@model('Box::into_raw', 'Box::from_raw', 'Arc::clone', 'Box::leak', 'Arc::as_ptr', 'ptr::as_ref', 'NonNull::as_ptr')
def _rawbox(c):
    return c.ret(c.args[0])


@model('ptr::null_mut', 'ptr::null')
def _null(c):
    return c.ret(mk('null'))


@model('const_ptr::is_null', 'mut_ptr::is_null')
def _is_null(c):
    return c.ret(b(eq(c.v(0), mk('null'))))


# ---------------------------------------------------------------- text
@model('str::chars')
def _chars(c):
    return c.ret(IT('seq', mk('chars', c.v(0))))


@model('str::char_indices')
def _char_indices(c):
    s = c.v(0)
    return c.ret(IT('seq', mk('char_indices', s)))


@model('fmt::format', 'Arguments::new', 'Arguments::from_str', 'Argument::new_display', 'Argument::new_debug', 'Arguments::new_const', 'Arguments::new_v1')
def _fmt(c):
    return c.pure()
