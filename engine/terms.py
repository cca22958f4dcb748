"""Hash-consed value terms and boolean guards (ROBDD) used by the value-flow analysis.

A term is the normal form of a value computed by the analysed program.  Terms are
interned, so two equal normal forms are the same object.  Guards are ROBDDs over
normalised atoms, so two logically equal combinations of the same atoms are the
same node, however the control flow that produced them was written.
"""
import sys
sys.setrecursionlimit(100000)


class T:
    __slots__ = ('op', 'a', 'id', 'fr', 'bv', 'size')

    def __repr__(self):
        return show(self)


_tab = {}
_E = frozenset()


def _scan(x, fr, bv, size):
    if isinstance(x, T):
        if x.fr:
            fr = fr | x.fr
        if x.bv > bv:
            bv = x.bv
        size += x.size
    elif isinstance(x, tuple):
        for y in x:
            fr, bv, size = _scan(y, fr, bv, size)
    return fr, bv, size


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.a = a
    t.id = len(_tab)
    fr, bv, size = _E, 0, 1
    if op == 'b':
        for v in bdd_support(a[0]):
            fr, bv, size = _scan(_atoms[v], fr, bv, size)
    else:
        for x in a:
            fr, bv, size = _scan(x, fr, bv, size)
        if op == 'idx' or op == 'mu' or op == 'mux':
            fr = fr | frozenset([a[0]])
        if op == 'bv':
            bv = max(bv, a[0])
    t.fr = fr
    t.bv = bv
    t.size = size
    _tab[k] = t
    return t


# ---------------------------------------------------------------- BDD
_nodes = [None, None]          # id -> (var, lo, hi)
_utab = {}
_atoms = []                    # var -> T
_avar = {}                     # T -> var
FALSE, TRUE = 0, 1


def _node(v, lo, hi):
    if lo == hi:
        return lo
    k = (v, lo, hi)
    n = _utab.get(k)
    if n is None:
        n = len(_nodes)
        _nodes.append(k)
        _utab[k] = n
    return n


def atom(t):
    v = _avar.get(t)
    if v is None:
        v = len(_atoms)
        _atoms.append(t)
        _avar[t] = v
    return _node(v, FALSE, TRUE)


_ite_memo = {}


def ite(f, g, h):
    if f == TRUE:
        return g
    if f == FALSE:
        return h
    if g == h:
        return g
    if g == TRUE and h == FALSE:
        return f
    k = (f, g, h)
    r = _ite_memo.get(k)
    if r is not None:
        return r
    v = _nodes[f][0]
    if g > 1:
        v = min(v, _nodes[g][0])
    if h > 1:
        v = min(v, _nodes[h][0])

    def co(n, b):
        if n <= 1 or _nodes[n][0] != v:
            return n
        return _nodes[n][2 if b else 1]
    r = _node(v, ite(co(f, 0), co(g, 0), co(h, 0)), ite(co(f, 1), co(g, 1), co(h, 1)))
    _ite_memo[k] = r
    return r


def AND(*fs):
    r = TRUE
    for f in fs:
        r = ite(r, f, FALSE)
    return r


def OR(*fs):
    r = FALSE
    for f in fs:
        r = ite(r, TRUE, f)
    return r


def NOT(f):
    return ite(f, FALSE, TRUE)


def implies(f, g):
    return ite(f, g, TRUE) == TRUE


_sup_memo = {}


def bdd_support(n):
    if n <= 1:
        return _E
    r = _sup_memo.get(n)
    if r is None:
        v, lo, hi = _nodes[n]
        r = frozenset([v]) | bdd_support(lo) | bdd_support(hi)
        _sup_memo[n] = r
    return r


def atoms_of(n):
    return [_atoms[v] for v in sorted(bdd_support(n))]


_res_memo = {}


def restrict(f, c):
    """Simplify f under the assumption that c holds (Coudert-Madre)."""
    if c == FALSE:
        return f
    if c == TRUE or f <= 1:
        return f
    k = (f, c)
    r = _res_memo.get(k)
    if r is not None:
        return r
    vf, vc = _nodes[f][0], _nodes[c][0]
    if vc < vf:
        r = restrict(f, OR(_nodes[c][1], _nodes[c][2]))
    else:
        c0, c1 = (_nodes[c][1], _nodes[c][2]) if vc == vf else (c, c)
        if c0 == FALSE:
            r = restrict(_nodes[f][2], c1)
        elif c1 == FALSE:
            r = restrict(_nodes[f][1], c0)
        else:
            r = _node(vf, restrict(_nodes[f][1], c0), restrict(_nodes[f][2], c1))
    _res_memo[k] = r
    return r


def cofactor(n, at, val):
    v = _avar.get(at)
    if v is None or n <= 1:
        return n
    memo = {}

    def go(x):
        if x <= 1 or _nodes[x][0] > v:
            return x
        if x in memo:
            return memo[x]
        w, lo, hi = _nodes[x]
        r = (hi if val else lo) if w == v else _node(w, go(lo), go(hi))
        memo[x] = r
        return r
    return go(n)


def bdd_map(n, f):
    """Rebuild guard n with every atom t replaced by the guard f(t)."""
    memo = {}

    def go(x):
        if x <= 1:
            return x
        if x in memo:
            return memo[x]
        v, lo, hi = _nodes[x]
        r = ite(f(_atoms[v]), go(hi), go(lo))
        memo[x] = r
        return r
    return go(n)


def cubes(n):
    """The paths of the BDD as lists of (atom, polarity)."""
    out = []

    def go(x, acc):
        if x == FALSE:
            return
        if x == TRUE:
            out.append(list(acc))
            return
        v, lo, hi = _nodes[x]
        acc.append((_atoms[v], False))
        go(lo, acc)
        acc.pop()
        acc.append((_atoms[v], True))
        go(hi, acc)
        acc.pop()
    go(n, [])
    return out


# ---------------------------------------------------------------- constructors
def ci(v):
    return mk('const', 'int', v)


def cf(v):
    return mk('const', 'float', v)


def cs(v):
    return mk('const', 'str', v)


UNIT = mk('agg', 'tuple', '', ())
UNDEF = mk('undef')


def b(n):
    return mk('b', n)


TRUE_T, FALSE_T = b(TRUE), b(FALSE)


def agg(kind, variant, fields):
    return mk('agg', kind, variant, tuple(fields))


def tup(*fs):
    return agg('tuple', '', fs)


def some(x):
    return agg('Option', 'Some', (x,))


NONE = agg('Option', 'None', ())


def ok(x):
    return agg('Result', 'Ok', (x,))


def err(x):
    return agg('Result', 'Err', (x,))


def truth(t):
    if t.op == 'b':
        return t.a[0]
    if t.op == 'phi':
        r = FALSE
        for c, x in t.a:
            r = OR(r, AND(c.a[0], truth(x)))
        return r
    return atom(t)


# phi: partition ((b-term, value), ...)
def phi(parts):
    flat = []

    def add(c, t):
        if c == FALSE:
            return
        if t.op == 'phi':
            for c2, t2 in t.a:
                add(AND(c, c2.a[0]), t2)
        else:
            flat.append((c, t))
    for c, t in parts:
        add(c, t)
    if not flat:
        return UNDEF
    live = [(c, t) for c, t in flat if t is not UNDEF]
    if not live:
        return UNDEF
    g = {}
    for c, t in live:
        g[t] = OR(g.get(t, FALSE), c)
    if len(g) == 1:
        return next(iter(g))
    if all(t.op == 'b' for t in g):
        r = FALSE
        dom = FALSE
        for t, c in g.items():
            r = OR(r, AND(c, t.a[0]))
            dom = OR(dom, c)
        return b(restrict(r, dom) if dom != TRUE else r)
    if len(g) == 2:
        r = _phi2(*g.items())
        if r is not None:
            return r
    ts = sorted(g.items(), key=lambda kv: kv[0].id)
    return mk('phi', *[(b(c), t) for t, c in ts])


def _phi2(p, q):
    """x < y ? x : y  and  long ? prefix : whole"""
    (x, cx), (y, cy) = p, q
    if NOT(cx) != cy:
        return None
    if 'slice' in (x.op, y.op):
        px = (x.a if x.op == 'slice' else (x, ci(0), ln(x)))
        py = (y.a if y.op == 'slice' else (y, ci(0), ln(y)))
        if px[0] is py[0] and px[1] is py[1] and px[0].op not in ('const', 'sym'):
            return slice_(px[0], px[1], phi([(cx, px[2]), (cy, py[2])]))
        return None
    if x.op in _NONINT or y.op in _NONINT:
        return None
    a = atoms_of(cx)
    if len(a) != 1 or a[0].op != 'pos':
        return None
    for c, d in ((cx, (x, y)), (cy, (y, x))):
        e = sub(d[1], d[0])
        if c == pos(e) or c == pos(add(e, ci(1))):
            return minmax('min', x, y)
    return None


_NONINT = {'agg', 'coll', 'ref', 'clo', 'b', 'sorted', 'mins', 'upd', 'it', 'empty', 'undef', 'slice', 'phi', 'get', 'entry', 'unit'}


def parts_of(t):
    if t.op == 'phi':
        return [(c.a[0], x) for c, x in t.a]
    return [(TRUE, t)]


def map_leaves(f, t):
    if t.op == 'phi':
        return phi([(c.a[0], f(x)) for c, x in t.a])
    return f(t)


# ---------------------------------------------------------------- integers
def to_poly(t):
    if t.op == 'const' and t.a[0] in ('int', 'char'):
        return {(): t.a[1]} if t.a[1] else {}
    if t.op == 'poly':
        return {m: c for c, m in t.a}
    return {(t,): 1}


def from_poly(p):
    p = {m: c for m, c in p.items() if c}
    if not p:
        return ci(0)
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return ci(c)
        if c == 1 and len(m) == 1:
            return m[0]
    return mk('poly', *[(c, m) for m, c in sorted(p.items(), key=lambda kv: tuple(x.id for x in kv[0]))])


def padd(a, bb, s=1):
    r = dict(a)
    for m, c in bb.items():
        r[m] = r.get(m, 0) + s * c
    return {m: c for m, c in r.items() if c}


def pmul(a, bb):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in bb.items():
            m = tuple(sorted(m1 + m2, key=lambda x: x.id))
            r[m] = r.get(m, 0) + c1 * c2
    return {m: c for m, c in r.items() if c}


def add(x, y):
    return from_poly(padd(to_poly(x), to_poly(y)))


def sub(x, y):
    return from_poly(padd(to_poly(x), to_poly(y), -1))


def mul(x, y):
    return from_poly(pmul(to_poly(x), to_poly(y)))


def nonneg(t):
    """Structurally known to be >= 0."""
    if t.op == 'const':
        return t.a[0] == 'int' and t.a[1] >= 0
    if t.op == 'poly':
        return all(c >= 0 and all(nonneg(f) for f in m) for c, m in t.a)
    if t.op in ('len', 'idx', 'bv', 'uns'):
        return True
    if t.op == 'sum':
        return nonneg(t.a[2])
    if t.op in ('div', 'min', 'rem', 'max'):
        return nonneg(t.a[0]) and nonneg(t.a[1])
    if t.op == 'phi':
        return all(nonneg(x) for _, x in t.a)
    return t in UNSIGNED


UNSIGNED = set()       # terms read from a place of unsigned integer type


def pos(t):
    """guard: integer term t > 0"""
    if t.op == 'phi':
        r = FALSE
        for c, x in t.a:
            r = OR(r, AND(c.a[0], pos(x)))
        return r
    p = to_poly(t)
    if len(p) > 1 and sum(1 for m in p for f in m if f.op == 'phi') == 1:
        # distribute over a single phi
        for m in p:
            for f in m:
                if f.op == 'phi':
                    return pos(phi([(c.a[0], _subst_factor(p, f, x)) for c, x in f.a]))
    if all(m == () for m in p):
        return TRUE if p.get((), 0) > 0 else FALSE
    k = p.get((), 0)
    rest = {m: c for m, c in p.items() if m != ()}
    if k >= 1 and all(c > 0 and all(nonneg(f) for f in m) for m, c in rest.items()):
        return TRUE
    if k <= 0 and all(c < 0 and all(nonneg(f) for f in m) for m, c in rest.items()):
        return FALSE
    # min(a,b) + r > 0  <=>  a + r > 0 and b + r > 0, and so on
    for m, c in rest.items():
        if len(m) == 1 and m[0].op in ('min', 'max') and c in (1, -1) and sum(1 for m2 in rest for f in m2 if f is m[0]) == 1:
            f = m[0]
            x, y = (pos(_subst_factor(p, f, z)) for z in f.a[:2])
            return AND(x, y) if (f.op == 'min') == (c == 1) else OR(x, y)
    lead = max(rest.items(), key=lambda kv: tuple(x.id for x in kv[0]))
    if lead[1] > 0:
        return _pos_atom(t)
    return NOT(_pos_atom(from_poly(padd({(): 1}, p, -1))))


def _pos_atom(t):
    if t.op == 'len':
        # len of a slice / sorted etc. already normalised by ln()
        pass
    if t.op == 'sum' and t.a[2].op == 'const' and t.a[2].a[1] > 0:
        # a count is positive iff some iteration is counted
        return exists(t.a[0], t.a[1].a[0])
    return atom(mk('pos', t))


def _subst_factor(p, f, x):
    r = {}
    for m, c in p.items():
        q = {(): c}
        for g in m:
            q = pmul(q, to_poly(x if g is f else g))
        r = padd(r, q)
    return from_poly(r)


def lt(x, y, fl=False):
    if fl:
        return flt(x, y)
    return pos(sub(y, x))


def flt(x, y):
    if x.op == 'const' and y.op == 'const':
        return TRUE if x.a[1] < y.a[1] else FALSE
    if x.op == 'phi':
        return OR(*[AND(c.a[0], flt(v, y)) for c, v in x.a])
    if y.op == 'phi':
        return OR(*[AND(c.a[0], flt(x, v)) for c, v in y.a])
    if x is y:
        return FALSE
    return atom(mk('flt', x, y))


def feq(x, y):
    """equal floats: neither is less (NaN is set aside everywhere)"""
    if x.op == 'const' or y.op == 'const':
        return eq(x, y)
    return AND(NOT(flt(x, y)), NOT(flt(y, x)))


def eq(x, y):
    if x is y:
        return TRUE
    if x.op == 'b' or y.op == 'b':
        n, m = truth(x), truth(y)
        return ite(n, m, NOT(m))
    if x.op == 'phi':
        return OR(*[AND(c.a[0], eq(v, y)) for c, v in x.a])
    if y.op == 'phi':
        return OR(*[AND(c.a[0], eq(x, v)) for c, v in y.a])
    if x.op == 'agg' and y.op == 'agg':
        if x.a[0] == y.a[0] and x.a[1] != y.a[1]:
            return FALSE
        if x.a[1] == y.a[1] and len(x.a[2]) == len(y.a[2]):
            return AND(*[eq(p, q) for p, q in zip(x.a[2], y.a[2])])
    for p, q in ((x, y), (y, x)):
        if q.op == 'agg' and q.a[0] not in ('tuple', 'array') and q.a[1]:
            r = is_(p, q.a[1])
            return AND(r, *[eq(fld(p, i, q.a[1]), f) for i, f in enumerate(q.a[2])])
        if q.op == 'agg' and q.a[0] == 'tuple' and q.a[2]:
            return AND(*[eq(fld(p, i), f) for i, f in enumerate(q.a[2])])
    if x.op == 'const' and y.op == 'const':
        return TRUE if (x.a[1] == y.a[1]) else FALSE
    if x.op == 'const' and x.a[0] in ('str', 'float') or y.op == 'const' and y.a[0] in ('str', 'float'):
        if x.id > y.id:
            x, y = y, x
        return atom(mk('eq', x, y))
    if x.op == 'cmp' or y.op == 'cmp':
        if x.id > y.id:
            x, y = y, x
        return atom(mk('eq', x, y))
    d = sub(x, y)
    return eqz(d)


def eqz(d):
    p = to_poly(d)
    if not p:
        return TRUE
    if all(m == () for m in p):
        return FALSE
    k = p.get((), 0)
    rest = {m: c for m, c in p.items() if m != ()}
    if k > 0 and all(c > 0 and all(nonneg(f) for f in m) for m, c in rest.items()):
        return FALSE
    if k < 0 and all(c < 0 and all(nonneg(f) for f in m) for m, c in rest.items()):
        return FALSE
    if len(rest) == 1:
        (m, c), = rest.items()
        if c in (1, -1) and len(m) == 1:
            t = m[0]
            if t.op == 'bitand':
                u = _bittest(t)
                if u is not t:
                    return eqz(u if k == 0 else add(u, ci(k * c)))
                if t.a[0] is ci(1) or t.a[1] is ci(1):
                    if k * c == -1:
                        return NOT(atom(mk('eqz', t)))
            if k == 0 and nonneg(t):
                return NOT(pos(t))
    lead = max(rest.items(), key=lambda kv: tuple(x.id for x in kv[0]))
    if lead[1] < 0:
        d = from_poly({m: -c for m, c in p.items()})
    return atom(mk('eqz', d))


def _bittest(t):
    """x & (1 << i)  tested against zero  ==  (x >> i) & 1 tested against zero"""
    x, y = t.a
    for p, q in ((x, y), (y, x)):
        if p.op == 'shl' and p.a[0] is ci(1):
            return bitand(shr(q, p.a[1]), ci(1))
    return t


def div(x, y):
    if x.op == 'const' and y.op == 'const' and x.a[0] == 'int' and y.a[1] != 0:
        return ci(int(x.a[1] // y.a[1]))
    if y is ci(1) or x is ci(0):
        return x
    p = to_poly(x)
    if y.op not in ('const', 'poly') and p and all(y in m for m in p):
        r = {}
        for m, c in p.items():
            l = list(m)
            l.remove(y)
            r[tuple(l)] = c
        return from_poly(r)
    if y.op not in ('const', 'poly') and p.get((), 0) == -1 and len(p) > 1 and all(y in m for m in p if m) and nonneg(y):
        # q*y - 1  =  (q - 1)*y + (y - 1)
        return sub(div(add(x, ci(1)), y), ci(1))
    return mk('div', x, y)


def rem(x, y):
    if x.op == 'const' and y.op == 'const' and y.a[1]:
        return ci(x.a[1] % y.a[1])
    return mk('rem', x, y)


def minmax(op, x, y):
    if x is y:
        return x
    if x.op == 'const' and y.op == 'const':
        return x if (x.a[1] <= y.a[1]) == (op == 'min') else y
    if op == 'min':
        if x is ci(0) and nonneg(y) or y is ci(0) and nonneg(x):
            return ci(0)
    else:
        if x is ci(0) and nonneg(y):
            return y
        if y is ci(0) and nonneg(x):
            return x
    for p, q in ((x, y), (y, x)):      # a - k vs a
        d = sub(p, q)
        if d.op == 'const' and d.a[0] == 'int':
            return p if (d.a[1] <= 0) == (op == 'min') else q
    # nested duplicates
    if x.op == op and (y is x.a[0] or y is x.a[1]):
        return x
    if y.op == op and (x is y.a[0] or x is y.a[1]):
        return y
    if x.id > y.id:
        x, y = y, x
    return mk(op, x, y)


def _comm(op, x, y):
    if x.op == 'const' and y.op == 'const' and isinstance(x.a[1], int) and isinstance(y.a[1], int) and x.a[1] >= 0 and y.a[1] >= 0:
        return ci({'bitand': x.a[1] & y.a[1], 'bitor': x.a[1] | y.a[1], 'bitxor': x.a[1] ^ y.a[1]}[op])
    if x.id > y.id:
        x, y = y, x
    return mk(op, x, y)


def bitor(x, y):
    if x.op == 'b' or y.op == 'b':
        return b(OR(truth(x), truth(y)))
    if x is ci(0):
        return y
    if y is ci(0) or x is y:
        return x
    return _comm('bitor', x, y)


def bitand(x, y):
    if x.op == 'b' or y.op == 'b':
        return b(AND(truth(x), truth(y)))
    if x is ci(0) or y is ci(0):
        return ci(0)
    if x is y:
        return x
    return _comm('bitand', x, y)


def bitxor(x, y):
    if x.op == 'b' or y.op == 'b':
        n, m = truth(x), truth(y)
        return b(ite(n, NOT(m), m))
    if x is ci(0):
        return y
    if y is ci(0):
        return x
    return _comm('bitxor', x, y)


def wrapi(n, x):
    """the n-bit pattern of x read as a signed integer"""
    if x.op == 'const' and isinstance(x.a[1], int):
        v = x.a[1] & ((1 << n) - 1)
        return ci(v - (1 << n) if v >> (n - 1) else v)
    return mk('wrapi', n, x)


def shl(x, y):
    if y is ci(0):
        return x
    if x.op == 'const' and y.op == 'const':
        return ci(x.a[1] << y.a[1])
    return mk('shl', x, y)


def shr(x, y):
    if y is ci(0):
        return x
    if x.op == 'const' and y.op == 'const':
        return ci(x.a[1] >> y.a[1])
    if x.op == 'shr':
        return shr(x.a[0], add(x.a[1], y))
    return mk('shr', x, y)


def fop(op, x, y):
    if x.op == 'const' and y.op == 'const':
        try:
            v = {'fadd': lambda p, q: p + q, 'fsub': lambda p, q: p - q,
                 'fmul': lambda p, q: p * q, 'fdiv': lambda p, q: p / q}[op](x.a[1], y.a[1])
            return cf(v)
        except ZeroDivisionError:
            pass
    if op in ('fadd', 'fmul'):
        return _comm(op, x, y)
    return mk(op, x, y)


# ---------------------------------------------------------------- enums
_COMPL = {'None': 'Some', 'Err': 'Ok', 'Break': 'Continue'}


def is_(t, v):
    if v in _COMPL:
        return NOT(is_(t, _COMPL[v]))
    if t.op == 'agg':
        return TRUE if t.a[1] == v else FALSE
    if t.op == 'phi':
        return OR(*[AND(c.a[0], is_(x, v)) for c, x in t.a])
    if t.op == 'drv':
        return atom(mk('more', t.a[0]))
    if t.op == 'entry':
        return t.a[2].a[0] if v == 'Occupied' else NOT(t.a[2].a[0])
    if t.op == 'cmp':
        x, y, k = t.a
        if v == 'Less':
            return lt(x, y, k == 'f')
        if v == 'Greater':
            return lt(y, x, k == 'f')
        if v == 'Equal':
            return feq(x, y) if k == 'f' else eq(x, y)
    if t.op == 'cmpthen':
        p, q = t.a
        e = is_(p, 'Equal')
        return ite(e, is_(q, v), is_(p, v))
    if t.op == 'upd' and t.a[1][0] != '@':
        return is_(t.a[0], v)
    if t.op == 'get' and t.a[0].op in ('mins', 'mrem', 'mnew'):
        pass
    return atom(mk('is', t, v))


def fld(t, i, v=None):
    if t.op == 'entry':
        return t
    if t.op == 'agg':
        if v and t.a[1] and v != t.a[1]:
            return UNDEF
        return t.a[2][i] if i < len(t.a[2]) else UNDEF
    if t.op == 'clo':
        return t.a[1][i]
    if t.op == 'phi':
        return phi([(c.a[0], fld(x, i, v)) for c, x in t.a])
    if t.op == 'upd':
        if t.a[1] == (i, v):
            return t.a[2]
        return fld(t.a[0], i, v)
    if t.op == 'drv':
        return t.a[1]
    if t is UNDEF:
        return UNDEF
    return mk('fld', t, i, v)


def upd(t, i, v, val):
    """functional field update"""
    if t.op == 'agg' and i < len(t.a[2]) and (not v or not t.a[1] or v == t.a[1]):
        fs = list(t.a[2])
        fs[i] = val
        return mk('agg', t.a[0], t.a[1], tuple(fs))
    if t.op == 'phi':
        return phi([(c.a[0], upd(x, i, v, phi_under(val, c.a[0]))) for c, x in t.a])
    if fld(t, i, v) is val:
        return t
    # keep a canonical order of updated fields
    ups = {}
    base = t
    while base.op == 'upd':
        ups.setdefault(base.a[1], base.a[2])
        base = base.a[0]
    ups[(i, v)] = val
    r = base
    for k in sorted(ups, key=lambda k: (k[0], k[1] or '')):
        if fld(base, k[0], k[1]) is ups[k]:
            continue
        r = mk('upd', r, k, ups[k])
    return r


def phi_under(t, c):
    if t.op != 'phi':
        return t
    return phi([(restrict(x.a[0], c), v) for x, v in t.a if AND(x.a[0], c) != FALSE])


# ---------------------------------------------------------------- collections
# coll(kind, base, gens): base collection (EMPTY or any term) followed by gens
# gen = (binders, guard b-term, elem); binder = mk('bind', k, count, flags)
EMPTY = mk('empty')


def coll(kind, base, gens):
    gens = tuple(g for g in gens if g[1].a[0] != FALSE)
    if base.op == 'coll':
        return coll(kind, base.a[1], base.a[2] + gens)
    if not gens and base is not EMPTY:
        return base
    # identity: [at(c, i) for i in 0..len(c)]
    if base is EMPTY and len(gens) == 1 and len(gens[0][0]) == 1 and gens[0][1].a[0] == TRUE:
        bd, e = gens[0][0][0], gens[0][2]
        if e.op == 'at' and e.a[1].op == 'bv' and e.a[1].a[0] == bd.a[0] and e.a[0].bv < bd.a[0] \
                and not bd.a[2] and ln(e.a[0]) is bd.a[1] and kind == 'vec' and ordered(e.a[0]):
            return e.a[0]
        if e.op == 'at' and e.a[1].op == 'bv' and e.a[1].a[0] == bd.a[0] and e.a[0].bv < bd.a[0] and e.a[0].op in ('sorted', 'rev') \
                and not bd.a[2] and kind == 'vec' and minmax('min', bd.a[1], ln(e.a[0])) is bd.a[1]:
            return slice_(e.a[0], ci(0), bd.a[1])
    return mk('coll', kind, base, gens)


def ordered(t):
    return t.op not in ('contents', 'mapitems')


def binder(k, count, flags=()):
    return mk('bind', k, count, tuple(sorted(flags)))


def at(c, i):
    if c.op == 'coll' and c.a[0] == 'vec' and c.a[1] is EMPTY:
        gens = c.a[2]
        if len(gens) == 1 and len(gens[0][0]) == 1 and gens[0][1].a[0] == TRUE and not gens[0][0][0].a[2]:
            bd = gens[0][0][0]
            return subst(gens[0][2], {mk('bv', bd.a[0]): i})
        if all(not g[0] and g[1].a[0] == TRUE for g in gens) and i.op == 'const' and i.a[1] < len(gens):
            return gens[i.a[1]][2]
    if c.op == 'slice':
        return at(c.a[0], add(c.a[1], i))
    if c.op == 'rev':
        return at(c.a[0], sub(sub(ln(c.a[0]), ci(1)), i))
    if c.op == 'rep':
        return c.a[0]
    if c.op == 'pw':
        bd, base, ix, val, x = c.a
        if bd.a[1] is ln(base) and not bd.a[2] and ix.op == 'bv' and ix.a[0] == bd.a[0]:
            return subst(val, {mk('bv', bd.a[0]): i, x: at(base, i)})
    if c.op == 'upa':
        if c.a[1] is i:
            return c.a[2]
        d = sub(c.a[1], i)
        if d.op == 'const':
            return at(c.a[0], i)
    if c.op == 'agg' and c.a[0] == 'array' and i.op == 'const' and 0 <= i.a[1] < len(c.a[2]):
        return c.a[2][i.a[1]]
    if c.op == 'phi':
        return phi([(g.a[0], at(x, i)) for g, x in c.a])
    return mk('at', c, i)


def ln(c):
    if c.op == 'coll' and c.a[0] == 'vec':
        r = ci(0) if c.a[1] is EMPTY else ln(c.a[1])
        for bs, g, e in c.a[2]:
            n = ssum_nest(bs, g.a[0], ci(1))
            r = add(r, n)
        return r
    if c is EMPTY:
        return ci(0)
    if c.op == 'coll' and c.a[1] is EMPTY and not c.a[2]:
        return ci(0)
    if c.op == 'slice':
        return sub(c.a[2], c.a[1])
    if c.op in ('sorted', 'rev'):
        return ln(c.a[0])
    if c.op == 'upa':
        return ln(c.a[0])
    if c.op == 'pw':
        return ln(c.a[1])
    if c.op == 'rep':
        return c.a[1]
    if c.op == 'agg' and c.a[0] == 'array':
        return ci(len(c.a[2]))
    if c.op == 'const' and c.a[0] == 'str':
        return ci(len(c.a[1].encode()))
    if c.op == 'phi':
        return phi([(g.a[0], ln(x)) for g, x in c.a])
    if c.op == 'rec':
        bd, init, body = c.a[0], c.a[1][0], c.a[2][0]
        mv = mk('mv', bd.a[0], 0)
        if body.op == 'coll' and body.a[0] == 'vec' and body.a[1] is mv and all(not bs and g.a[0] == TRUE for bs, g, e in body.a[2]):
            return add(ln(init), mul(bd.a[1], ci(len(body.a[2]))))
        if body.op in ('pw', 'upa') and body.a[1 if body.op == 'pw' else 0] is mv:
            return ln(init)
    return mk('len', c)


def slice_(c, lo, hi):
    if lo is ci(0) and hi is ln(c):
        return c
    if c.op == 'slice':
        return slice_(c.a[0], add(c.a[1], lo), add(c.a[1], hi))
    return mk('slice', c, lo, hi)


def recanon(bd, guard, d=None):
    """renumber a binder to the smallest number its body allows"""
    v = mk('bv', bd.a[0])
    ph = mk('ph', -77)
    g0 = subst_guard(guard, {v: ph})
    d0 = subst(d, {v: ph}) if d is not None else None
    k = 1 + max(bdd_bv(g0), d0.bv if d0 is not None else 0, bd.a[1].bv)
    if k >= bd.a[0]:
        return bd, guard, d
    w = {ph: mk('bv', k)}
    return mk('bind', k, bd.a[1], bd.a[2]), subst_guard(g0, w), subst(d0, w) if d is not None else None


def ssum(bd, guard, d, narrow=''):
    """sum over binder bd of (guard ? d : 0)"""
    if guard == FALSE or d is ci(0):
        return ci(0)
    if bd.a[0] > 1:
        bd, guard, d = recanon(bd, guard, d)
    if d.op == 'phi':
        r = ci(0)
        for c, x in d.a:
            r = add(r, ssum(bd, AND(guard, c.a[0]), x, narrow))
        return r
    if d.op == 'poly' and not narrow:
        # linear: alternatives are counted on their own
        P = to_poly(d)
        ph = [(m, k) for m, k in P.items() if len(m) == 1 and m[0].op == 'phi']
        if ph:
            r = ssum(bd, guard, from_poly({m: k for m, k in P.items() if (m, k) not in ph}))
            for m, k in ph:
                r = add(r, mul(ci(k), ssum(bd, guard, m[0])))
            return r
    k = mk('bv', bd.a[0])
    if guard == TRUE and d.bv < bd.a[0] and not bd.a[2] and not narrow:
        return mul(d, bd.a[1])
    return mk('sum', bd, b(guard), d, narrow)


def ssum_nest(bs, guard, d):
    if not bs:
        return d if guard == TRUE else phi([(guard, d), (NOT(guard), ci(0))])
    # innermost binder last
    inner = bs[-1]
    r = ssum(inner, guard, d)
    for bd in reversed(bs[:-1]):
        r = ssum(bd, TRUE, r)
    return r


def _only_at(bd, cond):
    """cond is  'the binder equals K'  for a term K without it"""
    v = mk('bv', bd.a[0])
    ats = atoms_of(cond)
    if len(ats) == 1 and cond == atom(ats[0]) and ats[0].op == 'eqz' and not bd.a[2]:
        p = to_poly(ats[0].a[0])
        c = p.get((v,), 0)
        if c in (1, -1):
            K = from_poly({m: -x * c for m, x in p.items() if m != (v,)})
            if K.bv < bd.a[0]:
                return K
    return None


def last(bd, cond):
    """the last iteration that satisfies cond (meaningful if there is one)"""
    K = _only_at(bd, cond)
    return K if K is not None else mk('last', bd, b(cond))


def exists(bd, cond):
    """guard: some iteration of bd satisfies cond"""
    if cond == FALSE:
        return FALSE
    if bd.a[0] > 1:
        bd, cond, _ = recanon(bd, cond)
    k = bd.a[0]
    K = _only_at(bd, cond)
    if K is not None:
        return AND(lt(K, bd.a[1]), NOT(lt(K, ci(0))))
    if bdd_bv(cond) < k:
        return AND(cond, pos(bd.a[1])) if not bd.a[2] else AND(cond, atom(mk('nonempty', bd)))
    # (exists i. c[i] == x) is membership
    ats = atoms_of(cond)
    if len(ats) == 1 and cond == atom(ats[0]) and ats[0].op == 'eqz' and not bd.a[2]:
        m = _member(ats[0].a[0], bd)
        if m is not None:
            return atom(m)
    return atom(mk('exists', bd, b(cond)))


def _member(d, bd):
    p = to_poly(d)
    if len(p) != 2:
        return None
    (m1, c1), (m2, c2) = p.items()
    if c1 + c2 != 0 or len(m1) != 1 or len(m2) != 1:
        return None
    for x, y in ((m1[0], m2[0]), (m2[0], m1[0])):
        if x.op == 'at' and x.a[1].op == 'bv' and x.a[1].a[0] == bd.a[0] and x.a[0].bv < bd.a[0] \
                and y.bv < bd.a[0] and ln(x.a[0]) is bd.a[1]:
            return mk('has', x.a[0], y)
    return None


def bdd_bv(n):
    r = 0
    for v in bdd_support(n):
        r = max(r, _atoms[v].bv)
    return r


def bdd_fr(n):
    r = _E
    for v in bdd_support(n):
        r = r | _atoms[v].fr
    return r


# maps
def get(m, k):
    """map lookup: an Option"""
    if m.op == 'mins':
        e = eq(m.a[1], k)
        if e == TRUE:
            return some(m.a[2])
        if e == FALSE:
            return get(m.a[0], k)
    if m.op == 'mrem':
        if m.a[1] is k:
            return NONE
    if m is EMPTY or m.op == 'mnew':
        return NONE
    if m.op == 'phi':
        return phi([(c.a[0], get(x, k)) for c, x in m.a])
    return mk('get', m, k)


def mbase(t):
    """strip updates of a map/collection value: the place it started from"""
    while t.op in ('mins', 'mrem', 'mentry', 'mapgen', 'cntmap', 'mclr'):
        t = t.a[0]
    return t


# ---------------------------------------------------------------- substitution
_SC = {}


def sc(op):
    def d(f):
        _SC[op] = f
        return f
    return d


_SC.update({
    'fld': fld, 'div': div, 'rem': rem, 'bitor': bitor, 'bitand': bitand, 'bitxor': bitxor,
    'shl': shl, 'shr': shr, 'at': at, 'len': ln, 'slice': slice_, 'get': get,
    'min': lambda x, y: minmax('min', x, y), 'max': lambda x, y: minmax('max', x, y),
    'coll': lambda k, base, gens: coll(k, base, gens),
    'upd': lambda t, k, v: upd(t, k[0], k[1], v),
    'sum': lambda bd, g, d, n: ssum(bd, g.a[0], d, n),
    'last': lambda bd, g: last(bd, g.a[0]),
    'wrapi': lambda n, x: wrapi(n, x),
})
for _o in ('fadd', 'fsub', 'fmul', 'fdiv'):
    _SC[_o] = (lambda o: lambda x, y: fop(o, x, y))(_o)


def _atom_guard(t):
    """guard for a (substituted) atom term"""
    if t.op == 'pos':
        return pos(t.a[0])
    if t.op == 'eqz':
        return eqz(t.a[0])
    if t.op == 'flt':
        return flt(t.a[0], t.a[1])
    if t.op == 'eq':
        return eq(t.a[0], t.a[1])
    if t.op == 'is':
        return is_(t.a[0], t.a[1])
    if t.op == 'exists':
        return exists(t.a[0], t.a[1].a[0])
    if t.op == 'b':
        return t.a[0]
    return truth(t)


def subst(t, env, memo=None):
    if memo is None:
        memo = {}
    frs = None

    def go(x):
        r = env.get(x)
        if r is not None:
            return r
        r = memo.get(x)
        if r is not None:
            return r
        if not x.a or (not x.fr and not x.bv and not _deep):
            memo[x] = x
            return x
        if x.op == 'b':
            r = b(bdd_map(x.a[0], lambda at_: _atom_guard(go_atom(at_))))
        elif x.op == 'poly':
            p = {}
            for c, m in x.a:
                q = {(): c}
                for f in m:
                    q = pmul(q, to_poly(go(f)))
                p = padd(p, q)
            r = from_poly(p)
        elif x.op == 'phi':
            r = phi([(go(c).a[0], go(v)) for c, v in x.a])
        else:
            a = tuple(goa(y) for y in x.a)
            f = _SC.get(x.op)
            r = f(*a) if f else mk(x.op, *a)
        memo[x] = r
        return r

    def go_atom(x):
        r = env.get(x)
        if r is not None:
            return r
        a = tuple(goa(y) for y in x.a)
        if a == x.a:
            return x
        if x.op in ('pos', 'eqz', 'flt', 'eq', 'is', 'exists'):
            return mk(x.op, *a)
        return go(x)

    def goa(y):
        if isinstance(y, T):
            return go(y)
        if isinstance(y, tuple):
            return tuple(goa(z) for z in y)
        return y
    # substitution of arbitrary terms (not only bound variables) needs a full walk
    _deep = any(k.op not in ('bv', 'idx', 'mu') for k in env)
    return go(t)


def subst_guard(n, env):
    if not env:
        return n
    return subst(b(n), env).a[0]


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x.op == 'b':
            st.extend(atoms_of(x.a[0]))
        else:
            st.extend(x.a)
    return seen


def contains(t, s):
    return s in subterms(t)


# ---------------------------------------------------------------- display
NAMES = {}      # (adt, field idx) is not known per term: names kept by the interpreter


def show(t, d=0):
    if isinstance(t, tuple):
        return '(' + ', '.join(show(x, d + 1) for x in t) + ')'
    if not isinstance(t, T):
        return str(t)
    if d > 22:
        return '…'
    o, a = t.op, t.a
    s = lambda x: show(x, d + 1)
    if o == 'const':
        return repr(a[1])
    if o == 'param':
        return str(a[1])
    if o == 'b':
        return showg(a[0], d + 1)
    if o == 'phi':
        return '{' + '; '.join(f'{s(c)} -> {s(x)}' for c, x in a) + '}'
    if o == 'poly':
        return '(' + ' + '.join('*'.join(([str(c)] if c != 1 or not m else []) + [s(f) for f in m]) for c, m in a) + ')'
    if o == 'agg':
        n = a[1] or a[0].split('::')[-1]
        return f"{'' if n == 'tuple' else n}({', '.join(s(x) for x in a[2])})"
    if o == 'fld':
        nm = NAMES.get(t, a[1])
        return f'{s(a[0])}.{nm}' + (f'[{a[2]}]' if a[2] and a[2] not in ('Some', 'Ok') else '') if not (a[2] in ('Some', 'Ok')) else f'{s(a[0])}?'
    if o == 'idx':
        return f'i{a[0]}'
    if o == 'bv':
        return f'v{a[0]}'
    if o == 'at':
        return f'{s(a[0])}[{s(a[1])}]'
    if o == 'len':
        return f'|{s(a[0])}|'
    if o == 'coll':
        return ('' if a[1] is EMPTY else s(a[1]) + ' ++ ') + a[0] + '[' + '; '.join(
            f"{s(e)}" + ''.join(f" for v{bd.a[0]}<{s(bd.a[1])}{'!' + ','.join(bd.a[2]) if bd.a[2] else ''}" for bd in bs) + (f' if {s(g)}' if g.a[0] != TRUE else '')
            for bs, g, e in a[2]) + ']'
    if o == 'bind':
        return f"v{a[0]}<{s(a[1])}{'!' + ','.join(a[2]) if a[2] else ''}"
    if o == 'call':
        return f"{a[0].split('::')[-1]}({', '.join(s(x) for x in a[1])})"
    if o == 'clo':
        return 'closure'
    if o == 'is':
        return f'{s(a[0])} is {a[1]}'
    if o == 'pos':
        return f'{s(a[0])} > 0'
    if o == 'eqz':
        return f'{s(a[0])} == 0'
    if o == 'flt':
        return f'{s(a[0])} <f {s(a[1])}'
    if o == 'ref':
        return '&' + showloc(a[0], a[1])
    return o + '(' + ', '.join(s(x) for x in a) + ')'


def showloc(root, path):
    r = show(root[1]) if root[0] == 'V' else f'_{root[2]}'
    for p in path:
        if p[0] == 'f':
            r += f'.{p[1]}'
        elif p[0] == 'at':
            r += f'[{show(p[1])}]'
        elif p[0] == 'ent':
            r += '{' + show(p[1]) + '}'
        else:
            r += str(p)
    return r


def showg(n, d=0):
    if n == TRUE:
        return 'true'
    if n == FALSE:
        return 'false'
    cs_ = cubes(n)
    if len(cs_) > 6:
        return 'f(' + ', '.join(show(x, d + 1) for x in atoms_of(n)) + ')'
    return ' | '.join(' & '.join(('' if p else '!') + '[' + show(x, d + 1) + ']' for x, p in c) for c in cs_)


def rewrite(t, f, memo=None):
    """Rebuild t bottom-up; f(x) may return a replacement for the rebuilt subterm x."""
    if memo is None:
        memo = {}

    def app(x):
        r = f(x)
        return x if r is None else r

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if not x.a:
            r = app(x)
        elif x.op == 'b':
            r = b(bdd_map(x.a[0], lambda t_: _atom_guard(go_atom(t_))))
        elif x.op == 'poly':
            p = {}
            for c, m in x.a:
                q = {(): c}
                for y in m:
                    q = pmul(q, to_poly(go(y)))
                p = padd(p, q)
            r = app(from_poly(p))
        elif x.op == 'phi':
            r = app(phi([(go(c).a[0], go(v)) for c, v in x.a]))
        else:
            a = tuple(goa(y) for y in x.a)
            if a == x.a:
                r = app(x)
            else:
                g = _SC.get(x.op)
                r = app(g(*a) if g else mk(x.op, *a))
        memo[x] = r
        return r

    def go_atom(x):
        a = tuple(goa(y) for y in x.a)
        if a == x.a:
            return app(x)
        if x.op in ('pos', 'eqz', 'flt', 'eq', 'is', 'exists'):
            return app(mk(x.op, *a))
        return go(x)

    def goa(y):
        if isinstance(y, T):
            return go(y)
        if isinstance(y, tuple):
            return tuple(goa(z) for z in y)
        return y
    return go(t)


def rewrite_guard(n, f, memo=None):
    return rewrite(b(n), f, memo).a[0]


def show_lets(roots, minsize=10):
    """show several terms with shared big subterms factored out"""
    cnt = {}

    def walk(x):
        if isinstance(x, tuple):
            for y in x:
                walk(y)
            return
        if not isinstance(x, T):
            return
        c = cnt.get(x, 0)
        cnt[x] = c + 1
        if c:
            return
        for y in (atoms_of(x.a[0]) if x.op == 'b' else x.a):
            walk(y)
    for r in roots:
        walk(r)
    shared = sorted([x for x, c in cnt.items() if c > 1 and x.size >= minsize and x.op not in ('b', 'bind')], key=lambda x: x.size)
    names, lines = {}, []
    for x in shared:
        y = subst_names(x, names, top=True)
        nm = mk('param', -1, f'${len(names)}')
        lines.append(f'  ${len(names)} = {show(y)}')
        names[x] = nm
    return lines, [show(subst_names(r, names)) for r in roots]


def subst_names(t, names, top=False):
    memo = {}

    def go(x, top=False):
        if not top and x in names:
            return names[x]
        if x in memo:
            return memo[x]
        if not x.a:
            r = x
        elif x.op == 'b':
            r = mk('b', bdd_map(x.a[0], lambda t_: atom(go(t_))))
        else:
            r = mk(x.op, *[goa(y) for y in x.a])
        memo[x] = r
        return r

    def goa(y):
        return go(y) if isinstance(y, T) else tuple(goa(z) for z in y) if isinstance(y, tuple) else y
    return go(t, top)


# ---------------------------------------------------------------- entailment with linear facts
def axioms(atoms):
    """relations between integer comparison atoms that differ by a constant"""
    ats = [a for a in dict.fromkeys(atoms) if a.op in ('pos', 'eqz', 'flt')]
    ax = TRUE
    lin = [(a, to_poly(a.a[0])) for a in ats if a.op != 'flt']

    def cst(p):
        return p.get((), 0) if all(m == () for m in p) else None
    for n, (a, p) in enumerate(lin):
        for c, q in lin[n + 1:]:
            d = cst(padd(p, q, -1))        # p = q + d
            e = cst(padd(p, q))            # p = e - q
            A, C = atom(a), atom(c)
            if a.op == 'pos' and c.op == 'pos':
                if d is not None:
                    ax = AND(ax, OR(NOT(C), A) if d > 0 else OR(NOT(A), C))
                if e is not None:
                    if e <= 1:
                        ax = AND(ax, NOT(AND(A, C)))
                    if e >= 1:
                        ax = AND(ax, OR(A, C))
            elif a.op == 'eqz' and c.op == 'eqz':
                if d is not None and d != 0 or e is not None and e != 0:
                    ax = AND(ax, NOT(AND(A, C)))
            else:
                if c.op == 'eqz':
                    A, C, p2, q2 = C, A, q, p      # A: eqz(p2), C: pos(q2)
                    d = cst(padd(p2, q2, -1))
                else:
                    p2, q2 = p, q
                if d is not None:       # p2 = q2 + d, p2 == 0 -> q2 = -d
                    ax = AND(ax, OR(NOT(A), C if -d > 0 else NOT(C)))
                if e is not None:       # q2 = e - p2
                    ax = AND(ax, OR(NOT(A), C if e > 0 else NOT(C)))
    fl = [a for a in ats if a.op == 'flt']
    for n, a in enumerate(fl):
        for c in fl[n + 1:]:
            if a.a[0] is c.a[1] and a.a[1] is c.a[0]:
                ax = AND(ax, NOT(AND(atom(a), atom(c))))
    return ax


def entails(f, g):
    if implies(f, g):
        return True
    return implies(AND(f, axioms(atoms_of(f) + atoms_of(g))), g)
