"""Polyhedral contexts: conjunctions of linear integer facts, entailment by Fourier-Motzkin elimination,
and resolution of gated terms under a context."""
from math import gcd
from .terms import *
from . import terms as TT

LIMIT = 400


def _norm(p):
    """p >= 0 with coprime coefficients, integer-tightened constant"""
    g = 0
    for m, c in p.items():
        if m != ():
            g = gcd(g, abs(c))
    if g > 1:
        k = p.get((), 0)
        p = {m: c // g for m, c in p.items() if m != ()}
        if k // g:
            p[()] = k // g
    return p


def infeasible(cs):
    """no integer (in fact rational, after tightening) solution of { p >= 0 }"""
    cur = {}
    for p in cs:
        p = _norm(p)
        v = tuple(sorted(((tuple(x.id for x in m), c) for m, c in p.items() if m != ())))
        if not v:
            if p.get((), 0) < 0:
                return True
            continue
        o = cur.get(v)
        if o is None or p.get((), 0) < o.get((), 0):
            cur[v] = p
    cur = list(cur.values())
    while cur:
        vs = {}
        for p in cur:
            for m, c in p.items():
                if m != ():
                    a = vs.setdefault(m, [0, 0])
                    a[c > 0] += 1
        m = min(vs, key=lambda x: vs[x][0] * vs[x][1])
        lo = [p for p in cur if p.get(m, 0) > 0]
        hi = [p for p in cur if p.get(m, 0) < 0]
        rest = [p for p in cur if not p.get(m, 0)]
        seen = {}
        for p in rest:
            seen[tuple(sorted((tuple(x.id for x in k), c) for k, c in p.items() if k != ()))] = p
        for p in lo:
            for q in hi:
                a, bb = p[m], -q[m]
                r = {}
                for k, c in p.items():
                    r[k] = r.get(k, 0) + c * bb
                for k, c in q.items():
                    r[k] = r.get(k, 0) + c * a
                r = _norm({k: c for k, c in r.items() if c})
                key = tuple(sorted((tuple(x.id for x in k), c) for k, c in r.items() if k != ()))
                if not key:
                    if r.get((), 0) < 0:
                        return True
                    continue
                o = seen.get(key)
                if o is None or r.get((), 0) < o.get((), 0):
                    seen[key] = r
        cur = list(seen.values())
        if len(cur) > LIMIT:
            return False
    return False


class Lin:
    def __init__(s, cons=(), lits=None):
        s.cons = list(cons)
        s.lits = dict(lits or {})
        s._bad = None

    def copy(s):
        return Lin(s.cons, s.lits)

    def ge(s, t, u=None):
        """t >= u"""
        s.cons.append(to_poly(sub(t, u) if u is not None else t))
        s._bad = None
        return s

    def eq(s, t, u):
        return s.ge(t, u).ge(u, t)

    def lt(s, t, u):
        return s.ge(sub(u, t), ci(1))

    def sys(s, *more):
        cs = s.cons + list(more)
        fs = {f for p in cs for m in p for f in m}
        extra = [{(f,): 1} for f in fs if nonneg(f)]
        ms = {m for p in cs for m in p if len(m) > 1}
        extra += [{m: 1} for m in ms if all(nonneg(f) or {(f,): 1} in s.cons for f in m)]
        return cs + extra

    def empty(s):
        if s._bad is None:
            s._bad = infeasible(s.sys())
        return s._bad

    def atom(s, a):
        """True / False / None: value of an atom under the facts"""
        if a in s.lits:
            return s.lits[a]
        if a.op not in ('pos', 'eqz'):
            return None
        p = to_poly(a.a[0])
        neg = {m: -c for m, c in p.items()}
        if a.op == 'pos':
            if infeasible(s.sys(neg)):
                return True
            if infeasible(s.sys(padd(p, {(): -1}))):
                return False
            return None
        up = infeasible(s.sys(padd(p, {(): -1})))
        dn = infeasible(s.sys(padd(neg, {(): -1})))
        if up and dn:
            return True
        if infeasible(s.sys(p, neg)):
            return False
        return None

    def with_(s, a, val):
        """contexts whose union is the context refined by atom a = val"""
        if a.op == 'pos':
            p = to_poly(a.a[0])
            return [Lin(s.cons + [padd(p, {(): -1}) if val else {m: -c for m, c in p.items()}], s.lits)]
        if a.op == 'eqz':
            p = to_poly(a.a[0])
            neg = {m: -c for m, c in p.items()}
            if val:
                return [Lin(s.cons + [p, neg], s.lits)]
            return [Lin(s.cons + [padd(p, {(): -1})], s.lits), Lin(s.cons + [padd(neg, {(): -1})], s.lits)]
        l = dict(s.lits)
        l[a] = val
        return [Lin(s.cons, l)]

    def decide(s, g, depth=0):
        """value of guard g under the facts: TRUE, FALSE or None"""
        if g in (TRUE, FALSE):
            return g
        g = bdd_map(g, lambda a: {True: TRUE, False: FALSE, None: atom(a)}[s.atom(a)])
        if g in (TRUE, FALSE):
            return g
        if depth > 8:
            return None
        a = atoms_of(g)[0]
        got = None
        for val in (True, False):
            h = cofactor(g, a, val)
            for c in s.with_(a, val):
                if c.empty():
                    continue
                r = c.decide(h, depth + 1)
                if r is None or got is not None and r != got:
                    return None
                got = r
        return TRUE if got is None else got

    def holds(s, g):
        return s.decide(g) == TRUE

    def refutes(s, g):
        return s.decide(g) == FALSE

    def resolve(s, t):
        """t with every gate that the facts decide taken"""
        def f(x):
            if x.op == 'phi':
                alts = [(c.a[0], v) for c, v in x.a if s.decide(c.a[0]) != FALSE]
                if len({v for _, v in alts}) == 1:
                    return alts[0][1]
                if alts:
                    return phi(alts)
            if x.op in ('min', 'max') and len(x.a) == 2:
                y, z = x.a
                d = s.decide(lt(y, z))
                if d is not None:
                    return (y if d == TRUE else z) if x.op == 'min' else (z if d == TRUE else y)
                d = s.decide(lt(z, y))
                if d is not None:
                    return (z if d == TRUE else y) if x.op == 'min' else (y if d == TRUE else z)
            return None
        for _ in range(4):
            u = rewrite(t, f)
            if u is t:
                break
            t = u
        return t

    def same(s, x, y):
        """x and y are equal under the facts"""
        x, y = s.resolve(x), s.resolve(y)
        if x is y:
            return True
        if x.op == y.op and x.op in ('slice', 'agg', 'at', 'upd') and len(x.a) == len(y.a):
            return all(s._samea(p, q) for p, q in zip(x.a, y.a))
        if x.op in ('agg', 'slice', 'at', 'coll') or y.op in ('agg', 'slice', 'at', 'coll'):
            return False
        try:
            return s.holds(eqz(sub(x, y)))
        except Exception:
            return False

    def _samea(s, p, q):
        if isinstance(p, T) and isinstance(q, T):
            return s.same(p, q)
        if isinstance(p, tuple) and isinstance(q, tuple):
            return len(p) == len(q) and all(s._samea(a, c) for a, c in zip(p, q))
        return p == q
