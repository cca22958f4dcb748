"""Abstract interpretation of the Python wrapper (syntax trees only, nothing is imported or run).

Values are nested tuples:
  ('k', v)                  constant
  ('sym', name)             unknown argument; its kind and excluded values are in Paths.kinds / Paths.excl
  ('seq', kind, items)      immutable sequence; ('ref', n) mutable list / dict / object / set in the heap
  ('fn', n) ('cls', n) ('bound', self, fn)  functions and classes of the package
  ('nmod', name) ('ncls', mod, name) ('nobj', n) ('nmeth', obj, name) ('nres', n)   the extension module
  ('op', name, args)        understood, but none of the above
  ('map', body, src, d)     [body for x in src], x = ('elt', src, d)
Every path through the code is explored by replaying a list of branch decisions."""
import ast, os
from fractions import Fraction

NONE, TRUE_, FALSE_ = ('k', None), ('k', True), ('k', False)


class PyRaise(Exception):
    def __init__(s, et, node=None, msg=''):
        s.et, s.node, s.msg = et, node, msg


class Ret(Exception):
    def __init__(s, v):
        s.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Unsup(Exception):
    pass


class NoFork(Exception):
    pass


class Infeasible(Exception):
    pass


EXC_PARENTS = {'KeyError': 'LookupError', 'IndexError': 'LookupError', 'LookupError': 'Exception', 'AttributeError': 'Exception', 'TypeError': 'Exception', 'ValueError': 'Exception',
               'AssertionError': 'Exception', 'NotImplementedError': 'RuntimeError', 'RuntimeError': 'Exception', 'Exception': 'BaseException', 'UnboundLocalError': 'NameError', 'NameError': 'Exception',
               'ImportError': 'Exception'}


def exc_is(et, cls):
    while et:
        if et == cls:
            return True
        et = EXC_PARENTS.get(et)
    return False


# ------------------------------------------------------------------ linear facts over unknown numbers
def infeasible(cs, kinds):
    """conjunction of (coeffs, const, strict): sum + const > / >= 0 has no solution (Fourier-Motzkin over the rationals)"""
    cur = []
    for co, k, st in cs:
        co = {v: c for v, c in co.items() if c}
        if st and co and all(kinds.get(v) == 'int' and c.denominator == 1 for v, c in co.items()) and Fraction(k).denominator == 1:
            k, st = k - 1, False
        cur.append((co, Fraction(k), st))
    while True:
        vs = {v for co, _, _ in cur for v in co}
        for co, k, st in cur:
            if not co and (k < 0 or st and k == 0):
                return True
        if not vs:
            return False
        v = sorted(vs)[0]
        lo = [x for x in cur if x[0].get(v, 0) > 0]
        hi = [x for x in cur if x[0].get(v, 0) < 0]
        nx = [x for x in cur if not x[0].get(v, 0)]
        for a in lo:
            for b in hi:
                ca, cb = a[0][v], -b[0][v]
                co = {}
                for w in set(a[0]) | set(b[0]):
                    c = a[0].get(w, 0) * cb + b[0].get(w, 0) * ca
                    if c and w != v:
                        co[w] = c
                nx.append((co, a[1] * cb + b[1] * ca, a[2] or b[2]))
        cur = nx


class Native:
    """what the extension module offers: {submodule: {class name: object with .exposed (method names), .arity(name)}}"""

    def __init__(s, mods):
        s.mods = mods


class Module:
    def __init__(s, name, path):
        s.name, s.path, s.env = name, path, {}


class Interp:
    def __init__(s, pkgdir, native, ext='gaoya'):
        s.dir, s.native, s.ext = pkgdir, native, ext
        s.fns, s.clss = [], []
        s.mods = {}
        s.src = {}
        s.reset([])

    # ---- one path
    def reset(s, decisions):
        s.dec = list(decisions)
        s.pos = 0
        s.trace = []
        s.facts = list(getattr(s, 'facts0', []))    # linear facts
        s.atoms = dict(getattr(s, 'atoms0', {}))    # decided opaque atoms
        s.excl = dict(getattr(s, 'excl0', {}))
        s.kinds = dict(getattr(s, 'kinds0', {}))
        s.heap = {k: _cp(v) for k, v in getattr(s, 'heap0', {}).items()}
        s.nobjs = list(getattr(s, 'nobjs0', []))
        s.calls = []            # native calls in order
        s.loops = []
        s.depth = 0
        s.nofork = False
        s.opaque_conds = False

    def paths(s, run, limit=4000):
        """all outcomes of run(): ('ret', v) | ('raise', exc) | ('unsup', why), with the interpreter state of the path"""
        todo = [[]]
        out = []
        while todo:
            d = todo.pop()
            s.reset(d)
            try:
                r = ('ret', run())
            except PyRaise as e:
                r = ('raise', e)
            except Unsup as e:
                r = ('unsup', str(e))
            except Infeasible:
                r = None
            except RecursionError:
                r = ('unsup', 'recursion')
            for i in range(len(d), len(s.trace)):
                todo.append([x for x in s.trace[:i]] + [not s.trace[i]])
            if r is not None:
                out.append((r, dict(calls=list(s.calls), facts=list(s.facts), atoms=dict(s.atoms), excl=dict(s.excl), heap=s.heap, nobjs=s.nobjs, opaque=s.opaque_conds)))
            if len(out) > limit:
                out.append((('unsup', 'too many paths'), dict(calls=[], facts=[], atoms={}, excl={}, heap={}, nobjs=[], opaque=True)))
                break
        return out

    def choose(s):
        if s.pos < len(s.dec):
            v = s.dec[s.pos]
        else:
            v = True
        s.pos += 1
        s.trace.append(v)
        return v

    def fork_lin(s, co, k, strict):
        """truth of  sum co + k > 0 (or >= 0)"""
        neg = ({v: -c for v, c in co.items()}, -k, not strict)
        yes = not infeasible(s.facts + [(co, k, strict)], s.kinds)
        no = not infeasible(s.facts + [neg], s.kinds)
        if not yes and not no:
            raise Infeasible()
        if yes != no:
            return yes
        if s.nofork:
            raise NoFork()
        v = s.choose()
        s.facts.append((co, k, strict) if v else neg)
        return v

    def fork_atom(s, a, opaque=True):
        if a in s.atoms:
            return s.atoms[a]
        if s.nofork:
            raise NoFork()
        if opaque:
            s.opaque_conds = True
        if s.loops and _has_elt(a):
            raise Unsup('condition depends on the loop element')
        v = s.choose()
        s.atoms[a] = v
        return v

    # ---- heap
    def new(s, kind, val):
        n = len(s.heap)
        while n in s.heap:
            n += 1
        s.heap[n] = [kind, val, len(s.loops)]
        return ('ref', n)

    def deep(s, v, seen=()):
        """value with heap lists / dicts replaced by their current contents"""
        if not isinstance(v, tuple):
            return v
        if v and v[0] == 'ref':
            if v[1] in seen:
                return v
            k, x, _ = s.heap[v[1]]
            if k in ('list', 'set'):
                if isinstance(x, tuple):
                    return s.deep(x, seen + (v[1],))
                return ('seq', k, tuple(s.deep(y, seen + (v[1],)) for y in x))
            if k == 'dict':
                return ('seq', 'dict', tuple((a, s.deep(b, seen + (v[1],))) for a, b in x))
            return v
        return tuple(s.deep(x, seen) if isinstance(x, tuple) else x for x in v)

    def items(s, v):
        """known elements of a sequence, or None"""
        if v[0] == 'seq':
            return [x if v[1] != 'dict' else x[0] for x in v[2]]
        if v[0] == 'ref':
            k, x, _ = s.heap[v[1]]
            if k in ('list', 'set') and isinstance(x, list):
                return list(x)
            if k == 'dict':
                return [a for a, _ in x]
        if v[0] == 'k' and isinstance(v[1], (str, tuple, list)):
            return [('k', c) for c in v[1]]
        return None

    # ---- modules
    def module(s, name):
        if name in s.mods:
            return s.mods[name]
        p = os.path.join(s.dir, *name.split('.')) if name else s.dir
        f = p + '.py' if name and os.path.exists(p + '.py') else os.path.join(p, '__init__.py')
        if not os.path.exists(f):
            return None
        m = Module(name, f)
        s.mods[name] = m
        try:
            tree = ast.parse(open(f).read())
        except SyntaxError as e:
            raise PyRaise('SyntaxError', None, f'{f}: {e}')
        s.src[f] = tree
        m.tree = tree
        for st in tree.body:
            s.exec_top(st, m)
        return m

    def exec_top(s, st, m):
        try:
            s.stmt(st, m.env, m)
        except Unsup:
            for t in ast.walk(st):
                if isinstance(t, (ast.Name,)) and isinstance(t.ctx, ast.Store):
                    m.env[t.id] = ('op', 'opaque', (t.id,))

    def imp_from(s, node, env, m):
        lvl, mod = node.level, node.module or ''
        for a in node.names:
            nm = a.asname or a.name
            if lvl == 0 and not mod.startswith(s.ext):
                env[nm] = ('ext', mod, a.name)
                continue
            if lvl == 0:
                mod_ = mod[len(s.ext):].lstrip('.')
            else:
                mod_ = mod
            if mod_ == s.ext or lvl == 0 and mod_ == '' and a.name == s.ext:
                env[nm] = ('nmod', a.name) if mod_ == s.ext else ('nmod', '')
                if mod_ == s.ext and a.name not in s.native.mods:
                    raise PyRaise('ImportError', node, f'no submodule {a.name}')
                continue
            if mod_.startswith(s.ext + '.'):
                env[nm] = s.nattr(('nmod', mod_[len(s.ext) + 1:]), a.name, node)
                continue
            if mod_ == '' and a.name == s.ext:
                env[nm] = ('nmod', '')
                continue
            if mod_ == '':
                x = s.module(a.name)
                if x is not None:
                    env[nm] = ('mod', a.name)
                    continue
                x = s.module('')
                if x is not None and a.name in x.env:
                    env[nm] = x.env[a.name]
                    continue
                env[nm] = ('op', 'opaque', (a.name,))
                continue
            x = s.module(mod_)
            if x is None or a.name not in x.env:
                env[nm] = ('op', 'opaque', (a.name,))
            else:
                env[nm] = x.env[a.name]

    def nattr(s, v, name, node):
        if v[1] == '':
            if name in s.native.mods:
                return ('nmod', name)
            raise PyRaise('AttributeError', node, f'the extension module has no {name}')
        cl = s.native.mods.get(v[1], {})
        if name in cl:
            return ('ncls', v[1], name)
        raise PyRaise('AttributeError', node, f'module {v[1]} has no {name}')

    # ---- statements
    def block(s, body, env, m):
        for st in body:
            s.stmt(st, env, m)

    def stmt(s, st, env, m):
        t = type(st)
        if t is ast.Expr:
            s.ev(st.value, env, m)
        elif t is ast.Return:
            raise Ret(s.ev(st.value, env, m) if st.value else NONE)
        elif t is ast.If:
            s.block(st.body if s.truth(s.ev(st.test, env, m), st) else st.orelse, env, m)
        elif t is ast.Assign:
            v = s.ev(st.value, env, m)
            for tg in st.targets:
                s.assign(tg, v, env, m)
        elif t is ast.AnnAssign:
            if st.value is not None:
                s.assign(st.target, s.ev(st.value, env, m), env, m)
        elif t is ast.AugAssign:
            cur = s.ev(_load(st.target), env, m)
            s.assign(st.target, s.binop(st.op, cur, s.ev(st.value, env, m), st), env, m)
        elif t in (ast.FunctionDef,):
            env[st.name] = s.deco(st, s.mkfn(st, env, m), env, m)
        elif t is ast.ClassDef:
            ns = {}
            bases = [s.ev(x, env, m) for x in st.bases]
            inner = Scope(env, ns)
            for x in st.body:
                try:
                    s.stmt(x, inner, m)
                except Unsup:
                    for y in ast.walk(x):
                        if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                            ns[y.id] = ('op', 'opaque', (y.id,))
            s.clss.append((st.name, ns, bases, m, st))
            env[st.name] = ('cls', len(s.clss) - 1)
        elif t is ast.Import:
            for a in st.names:
                env[(a.asname or a.name).split('.')[0]] = ('ext', a.name, '')
        elif t is ast.ImportFrom:
            s.imp_from(st, env, m)
        elif t is ast.Raise:
            et = 'Exception'
            if st.exc is not None:
                v = s.ev(st.exc, env, m)
                et = s.exc_name(v)
            raise PyRaise(et, st)
        elif t is ast.Pass or t is ast.Global or t is ast.Nonlocal:
            pass
        elif t is ast.Assert:
            if not s.truth(s.ev(st.test, env, m), st):
                raise PyRaise('AssertionError', st)
        elif t is ast.For:
            s.loop(st, env, m)
        elif t is ast.While:
            n = 0
            while s.truth(s.ev(st.test, env, m), st):
                n += 1
                if n > 64:
                    raise Unsup('while loop')
                try:
                    s.block(st.body, env, m)
                except Brk:
                    return
                except Cont:
                    pass
            s.block(st.orelse, env, m)
        elif t is ast.Break:
            raise Brk()
        elif t is ast.Continue:
            raise Cont()
        elif t is ast.Try:
            s.try_(st, env, m)
        elif t is ast.Match:
            s.match(st, env, m)
        elif t is ast.Delete:
            for x in st.targets:
                if isinstance(x, ast.Name):
                    env.pop(x.id, None)
                else:
                    raise Unsup('del')
        else:
            raise Unsup(t.__name__)

    def try_(s, st, env, m):
        try:
            try:
                s.block(st.body, env, m)
            except PyRaise as e:
                for h in st.handlers:
                    names = None
                    if h.type is not None:
                        v = s.ev(h.type, env, m)
                        names = [s.exc_name(x) for x in (s.items(v) if v[0] in ('seq', 'ref') else [v])]
                    if names is None or any(exc_is(e.et, n) for n in names):
                        if h.name:
                            env[h.name] = ('op', 'exc', (e.et,))
                        s.block(h.body, env, m)
                        break
                else:
                    raise
            else:
                s.block(st.orelse, env, m)
        finally:
            if st.finalbody:
                s.block(st.finalbody, env, m)

    def match(s, st, env, m):
        v = s.ev(st.subject, env, m)
        for c in st.cases:
            b = dict()
            if s.pat(c.pattern, v, b, env, m):
                for k, x in b.items():
                    env[k] = x
                if c.guard is not None and not s.truth(s.ev(c.guard, env, m), st):
                    continue
                s.block(c.body, env, m)
                return

    def pat(s, p, v, b, env, m):
        t = type(p)
        if t is ast.MatchValue:
            return s.truth(s.compare(ast.Eq(), v, s.ev(p.value, env, m), p), p)
        if t is ast.MatchSingleton:
            return s.truth(s.compare(ast.Is(), v, ('k', p.value), p), p)
        if t is ast.MatchOr:
            return any(s.pat(x, v, b, env, m) for x in p.patterns)
        if t is ast.MatchAs:
            if p.pattern is not None and not s.pat(p.pattern, v, b, env, m):
                return False
            if p.name:
                b[p.name] = v
            return True
        if t is ast.MatchSequence:
            xs = s.items(v)
            if xs is None:
                raise Unsup('match on an unknown sequence')
            return len(xs) == len(p.patterns) and all(s.pat(q, x, b, env, m) for q, x in zip(p.patterns, xs))
        raise Unsup('match pattern')

    def exc_name(s, v):
        if v[0] == 'builtin':
            return v[1]
        if v[0] == 'op' and v[1] == 'exc':
            return v[2][0]
        if v[0] == 'cls':
            for bs in s.clss[v[1]][2]:
                if bs[0] in ('builtin', 'cls'):
                    return s.exc_name(bs)
        raise Unsup('exception value')

    def loop(s, st, env, m):
        it = s.ev(st.iter, env, m)
        xs = s.items(it)
        if xs is not None:
            for x in xs:
                s.assign(st.target, x, env, m)
                try:
                    s.block(st.body, env, m)
                except Brk:
                    return
                except Cont:
                    continue
            s.block(st.orelse, env, m)
            return
        src = s.seqv(it)
        d = len(s.loops)
        s.loops.append((src, {}))
        before = {k: (v[0], list(v[1]) if isinstance(v[1], list) else v[1]) for k, v in s.heap.items()}
        names = {n for n in list(env)}
        env0 = dict(env.items())
        try:
            s.assign(st.target, s.elt(src, d), env, m)
            s.block(st.body, env, m)
        except (Brk, Cont, Ret):
            raise Unsup('loop left early')
        finally:
            s.loops.pop()
        tgt = {n.id for n in ast.walk(st.target) if isinstance(n, ast.Name)}
        for n in names - tgt:
            if env.get(n) != env0.get(n) and n in env0:
                raise Unsup(f'loop-carried variable {n}')
        for k, (kd, old) in before.items():
            now = s.heap[k][1]
            if kd == 'list' and isinstance(now, list) and now != old:
                if old == [] and len(now) == 1:
                    s.heap[k][1] = ('map', now[0], src, d)
                else:
                    raise Unsup('list changed in a loop')
            elif now != old:
                raise Unsup('object changed in a loop')
        s.block(st.orelse, env, m)

    def elt(s, src, d):
        if src[0] == 'zip':
            return ('seq', 'tuple', tuple(s.elt(x, d) for x in src[1]))
        if src[0] == 'map':
            return _sub(src[1], src[2], src[3], lambda: s.elt(src[2], d))
        return ('elt', src, d)

    def seqv(s, v):
        """normal form of a symbolic sequence"""
        if v[0] == 'ref':
            k, x, _ = s.heap[v[1]]
            if isinstance(x, tuple):
                return s.seqv(x)
        if v[0] == 'op' and v[1] in ('list', 'gen'):
            return s.seqv(v[2][0])
        if v[0] == 'op' and v[1] == 'opaque':
            raise Unsup('iteration over an unknown value')
        return v

    def assign(s, tg, v, env, m):
        t = type(tg)
        if t is ast.Name:
            env[tg.id] = v
        elif t in (ast.Tuple, ast.List):
            xs = s.items(v)
            if xs is None or any(isinstance(x, ast.Starred) for x in tg.elts):
                raise Unsup('unpacking of an unknown value')
            if len(xs) != len(tg.elts):
                raise PyRaise('ValueError', tg)
            for a, x in zip(tg.elts, xs):
                s.assign(a, x, env, m)
        elif t is ast.Attribute:
            o = s.ev(tg.value, env, m)
            if o[0] == 'ref' and s.heap[o[1]][0] == 'obj':
                s.heap[o[1]][1][tg.attr] = v
                return
            raise Unsup('attribute of an unknown object')
        elif t is ast.Subscript:
            o, k = s.ev(tg.value, env, m), s.ev(tg.slice, env, m)
            if o[0] == 'ref' and s.heap[o[1]][0] == 'dict' and k[0] in ('k', 'seq'):
                d = s.heap[o[1]][1]
                for i, (a, _) in enumerate(d):
                    if a == k:
                        d[i] = (a, v)
                        return
                d.append((k, v))
                return
            raise Unsup('item assignment')
        else:
            raise Unsup('target')

    # ---- functions
    def mkfn(s, node, env, m):
        a = node.args
        dv = [s.ev(x, env, m) for x in a.defaults]
        kd = [s.ev(x, env, m) if x is not None else None for x in a.kw_defaults]
        s.fns.append((node, env, m, dv, kd))
        return ('fn', len(s.fns) - 1)

    def deco(s, node, f, env, m):
        for d in reversed(node.decorator_list):
            v = s.ev(d, env, m)
            if v == ('builtin', 'property'):
                f = ('prop', f)
            elif v == ('builtin', 'staticmethod'):
                f = ('static', f)
            elif v == ('builtin', 'classmethod'):
                f = ('clsm', f)
            elif v[0] == 'ext' and v[2] in ('override', 'wraps', 'lru_cache', 'cache', 'abstractmethod', 'final'):
                pass
            elif v[0] == 'ext':
                f = ('op', 'opaque', (node.name,))
            else:
                f = s.call(v, [f], {}, node)
        return f

    def apply(s, f, args, kw, node):
        fn, env, m, dv, kd = s.fns[f[1]]
        s.depth += 1
        if s.depth > 60:
            raise Unsup('recursion')
        try:
            a = fn.args
            loc = {}
            ps = [x.arg for x in a.posonlyargs + a.args]
            args = list(args)
            kw = dict(kw)
            if len(args) > len(ps) and a.vararg is None:
                raise PyRaise('TypeError', node, f'too many arguments for {getattr(fn, "name", "lambda")}')
            for p, v in zip(ps, args):
                loc[p] = v
            if a.vararg is not None:
                loc[a.vararg.arg] = ('seq', 'tuple', tuple(args[len(ps):]))
            for p in ps[len(args):]:
                if p in kw:
                    loc[p] = kw.pop(p)
                else:
                    i = ps.index(p) - (len(ps) - len(dv))
                    if i < 0:
                        raise PyRaise('TypeError', node, f'missing argument {p}')
                    loc[p] = dv[i]
            for x, d in zip(a.kwonlyargs, kd):
                if x.arg in kw:
                    loc[x.arg] = kw.pop(x.arg)
                elif d is not None:
                    loc[x.arg] = d
                else:
                    raise PyRaise('TypeError', node, f'missing argument {x.arg}')
            if kw:
                if a.kwarg is not None:
                    loc[a.kwarg.arg] = s.new('dict', [(('k', k), v) for k, v in kw.items()])
                else:
                    raise PyRaise('TypeError', node, f'unexpected argument {sorted(kw)[0]}')
            elif a.kwarg is not None:
                loc[a.kwarg.arg] = s.new('dict', [])
            if isinstance(fn, ast.Lambda):
                return s.ev(fn.body, Scope(env, loc), m)
            sc = Scope(env, loc)
            if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(fn)):
                raise Unsup('generator')
            try:
                s.block(fn.body, sc, m)
            except Ret as r:
                return r.v
            return NONE
        finally:
            s.depth -= 1

    def lookup(s, cls, name):
        """attribute of a class, through its bases"""
        nm, ns, bases, m, node = s.clss[cls]
        if name in ns:
            return ns[name]
        for b in bases:
            if b[0] == 'cls':
                r = s.lookup(b[1], name)
                if r is not None:
                    return r
            elif b[0] in ('op', 'ext') and not (b[0] == 'ext' and b[1] in ('abc', 'typing', 'object')):
                raise Unsup('unknown base class')
        return None

    def instance(s, cls, args, kw, node):
        o = s.new('obj', {})
        s.heap[o[1]][1]['__class__'] = ('cls', cls)
        f = s.lookup(cls, '__init__')
        if f is not None:
            s.apply(f, [o] + list(args), kw, node)
        return o

    # ---- expressions
    def ev(s, e, env, m):
        t = type(e)
        if t is ast.Constant:
            return ('k', e.value)
        if t is ast.Name:
            if e.id in env:
                return env[e.id]
            if e.id in m.env:
                return m.env[e.id]
            if e.id in BUILTINS:
                return ('builtin', e.id)
            raise PyRaise('NameError', e, e.id)
        if t is ast.Attribute:
            return s.attr(s.ev(e.value, env, m), e.attr, e)
        if t is ast.Call:
            f = s.ev(e.func, env, m)
            args = []
            for a in e.args:
                if isinstance(a, ast.Starred):
                    xs = s.items(s.ev(a.value, env, m))
                    if xs is None:
                        raise Unsup('star argument')
                    args += xs
                else:
                    args.append(s.ev(a, env, m))
            kw = {}
            for k in e.keywords:
                if k.arg is None:
                    d = s.ev(k.value, env, m)
                    if not (d[0] == 'ref' and s.heap[d[1]][0] == 'dict'):
                        raise Unsup('double star argument')
                    for a, b in s.heap[d[1]][1]:
                        kw[a[1]] = b
                else:
                    kw[k.arg] = s.ev(k.value, env, m)
            return s.call(f, args, kw, e)
        if t is ast.IfExp:
            return s.ev(e.body if s.truth(s.ev(e.test, env, m), e) else e.orelse, env, m)
        if t is ast.BoolOp:
            v = None
            for x in e.values:
                v = s.ev(x, env, m)
                if x is e.values[-1]:
                    return v
                tr = s.truth(v, e)
                if tr != isinstance(e.op, ast.And):
                    return v
            return v
        if t is ast.UnaryOp:
            v = s.ev(e.operand, env, m)
            if isinstance(e.op, ast.Not):
                return ('k', not s.truth(v, e))
            if v[0] == 'k' and isinstance(e.op, ast.USub):
                return ('k', -v[1])
            if isinstance(e.op, ast.USub):
                return s.binop(ast.Sub(), ('k', 0), v, e)
            raise Unsup('unary')
        if t is ast.Compare:
            l = s.ev(e.left, env, m)
            for op, r_ in zip(e.ops, e.comparators):
                r = s.ev(r_, env, m)
                v = s.compare(op, l, r, e)
                if r_ is e.comparators[-1]:
                    return v
                if not s.truth(v, e):
                    return FALSE_
                l = r
        if t is ast.BinOp:
            return s.binop(e.op, s.ev(e.left, env, m), s.ev(e.right, env, m), e)
        if t is ast.Tuple:
            return ('seq', 'tuple', tuple(s.evs(e.elts, env, m)))
        if t is ast.List:
            return s.new('list', s.evs(e.elts, env, m))
        if t is ast.Set:
            return s.new('set', s.evs(e.elts, env, m))
        if t is ast.Dict:
            d = []
            for k, v in zip(e.keys, e.values):
                if k is None:
                    x = s.ev(v, env, m)
                    if not (x[0] == 'ref' and s.heap[x[1]][0] == 'dict'):
                        raise Unsup('dict')
                    d += s.heap[x[1]][1]
                else:
                    kk = s.ev(k, env, m)
                    if kk[0] not in ('k', 'seq'):
                        raise Unsup('dict key')
                    d = [(a, b) for a, b in d if a != kk] + [(kk, s.ev(v, env, m))]
            return s.new('dict', d)
        if t is ast.Subscript:
            return s.item(s.ev(e.value, env, m), e.slice, env, m, e)
        if t is ast.Lambda:
            return s.mkfn(e, env, m)
        if t in (ast.ListComp, ast.GeneratorExp, ast.SetComp):
            return s.comp(e, env, m)
        if t is ast.DictComp:
            return s.dictcomp(e, env, m)
        if t is ast.JoinedStr:
            out = ''
            for p in e.values:
                v = ('k', p.value) if isinstance(p, ast.Constant) else s.ev(p.value, env, m)
                if v[0] != 'k' or isinstance(p, ast.FormattedValue) and (p.format_spec is not None or p.conversion not in (-1, 115)):
                    return ('op', 'text', ())
                out += str(v[1])
            return ('k', out)
        if t is ast.NamedExpr:
            v = s.ev(e.value, env, m)
            env[e.target.id] = v
            return v
        raise Unsup(t.__name__)

    def evs(s, es, env, m):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                xs = s.items(s.ev(x.value, env, m))
                if xs is None:
                    raise Unsup('star')
                out += xs
            else:
                out.append(s.ev(x, env, m))
        return out

    def comp(s, e, env, m):
        sc = Scope(env, {})
        if len(e.generators) == 1:
            g = e.generators[0]
            it = s.ev(g.iter, env, m)
            xs = s.items(it)
            if xs is None:
                src = s.seqv(it)
                if g.ifs and not s.trivial(g, src, sc, m):
                    return ('op', 'filtered', (s.deep(it),))
                d = len(s.loops)
                s.loops.append((src, {}))
                try:
                    s.assign(g.target, s.elt(src, d), sc, m)
                    v = s.ev(e.elt, sc, m)
                finally:
                    s.loops.pop()
                if isinstance(e, ast.SetComp):
                    return ('op', 'set', (('map', v, src, d),))
                r = ('op', 'list', (src,)) if v == ('elt', src, d) else ('map', v, src, d)
                return ('op', 'gen', (s.deep(r),)) if isinstance(e, ast.GeneratorExp) else r
        out = []

        def go(i):
            if i == len(e.generators):
                out.append(s.ev(e.elt, sc, m))
                return
            g = e.generators[i]
            xs = s.items(s.ev(g.iter, sc, m))
            if xs is None:
                raise Unsup('comprehension')
            for x in xs:
                s.assign(g.target, x, sc, m)
                if all(s.truth(s.ev(c, sc, m), e) for c in g.ifs):
                    go(i + 1)
        go(0)
        return s.new('set' if isinstance(e, ast.SetComp) else 'list', out)

    def trivial(s, g, src, sc, m):
        """the conditions of a comprehension hold for every element"""
        s.loops.append((src, {}))
        s.nofork = True
        try:
            s.assign(g.target, s.elt(src, len(s.loops) - 1), sc, m)
            return all(s.truth(s.ev(x, sc, m), x) for x in g.ifs)
        except NoFork:
            return False
        finally:
            s.nofork = False
            s.loops.pop()

    def dictcomp(s, e, env, m):
        sc = Scope(env, {})
        out = []
        if len(e.generators) == 1 and not e.generators[0].ifs:
            g = e.generators[0]
            it = s.ev(g.iter, env, m)
            if s.items(it) is None:
                # one entry per distinct key of the source
                src = s.seqv(it)
                d = len(s.loops)
                s.loops.append((src, {}))
                try:
                    s.assign(g.target, s.elt(src, d), sc, m)
                    k, v = s.deep(s.ev(e.key, sc, m)), s.deep(s.ev(e.value, sc, m))
                finally:
                    s.loops.pop()
                return ('op', 'dictmap', (k, v, src, d))

        def go(i):
            if i == len(e.generators):
                k, v = s.ev(e.key, sc, m), s.ev(e.value, sc, m)
                if k[0] not in ('k', 'seq'):
                    raise Unsup('dict key')
                out[:] = [(a, b) for a, b in out if a != k] + [(k, v)]
                return
            g = e.generators[i]
            xs = s.items(s.ev(g.iter, sc, m))
            if xs is None:
                raise Unsup('comprehension')
            for x in xs:
                s.assign(g.target, x, sc, m)
                if all(s.truth(s.ev(c, sc, m), e) for c in g.ifs):
                    go(i + 1)
        go(0)
        return s.new('dict', out)

    def item(s, o, sl, env, m, node):
        if isinstance(sl, ast.Slice):
            if sl.lower is None and sl.upper is None and sl.step is None:
                return s.builtin('list', [o], {}, node)
            return ('op', 'slice', (s.deep(o), node.lineno, node.col_offset))
        k = s.ev(sl, env, m)
        return s.getitem(o, k, node)

    def getitem(s, o, k, node):
        if o[0] == 'ref' and s.heap[o[1]][0] == 'dict':
            d = s.heap[o[1]][1]
            k = s.deep(k)
            for a, b in d:
                if s.same(a, k):
                    return b
            raise PyRaise('KeyError', node)
        xs = s.items(o)
        if xs is not None and k[0] == 'k' and isinstance(k[1], int):
            if -len(xs) <= k[1] < len(xs):
                return xs[k[1]]
            raise PyRaise('IndexError', node)
        if xs is not None:
            raise Unsup('index')
        if o[0] == 'op' and o[1] == 'dictmap':
            key, val, src, d = o[2]
            kk = s.deep(k)
            if key == ('elt', src, d) and kk[0] == 'elt' and kk[1] == src:
                return replace(val, key, kk)
        return ('op', 'item', (s.deep(o), s.deep(k)))

    def same(s, a, b):
        return s.truth(s.compare(ast.Eq(), a, b, None), None)

    # ---- attributes and calls
    def attr(s, v, name, node):
        k = v[0]
        if k == 'nmod':
            return s.nattr(v, name, node)
        if k == 'mod':
            mm = s.module(v[1])
            if name in mm.env:
                return mm.env[name]
            raise PyRaise('AttributeError', node, name)
        if k == 'ref' and s.heap[v[1]][0] == 'obj':
            d = s.heap[v[1]][1]
            if name in d:
                return d[name]
            c = d['__class__']
            f = s.lookup(c[1], name)
            if f is None:
                if name in ('__dict__', '__class__', '__doc__', '__module__'):
                    return ('op', 'opaque', (name,))
                raise PyRaise('AttributeError', node, f'no attribute {name}')
            return s.bind(f, v, c, node)
        if k == 'cls':
            f = s.lookup(v[1], name)
            if f is None:
                if name == '__name__':
                    return ('k', s.clss[v[1]][0])
                raise PyRaise('AttributeError', node, name)
            if f[0] == 'static':
                return f[1]
            if f[0] == 'clsm':
                return ('bound', v, f[1])
            return f
        if k == 'nobj':
            nc = s.nobjs[v[1]]['cls']
            if name in ('__str__', '__repr__', '__class__', '__hash__', '__eq__'):
                return ('nmeth', v, name)
            if name not in s.native.mods[nc[1]][nc[2]].exposed:
                raise PyRaise('AttributeError', node, f'{nc[2]} has no method {name}')
            return ('nmeth', v, name)
        if k == 'ncls':
            if name == '__name__':
                return ('k', v[2])
            return ('op', 'opaque', (name,))
        if k == 'ext':
            return ('ext', v[1] + ('.' + v[2] if v[2] else ''), name)
        return ('meth', v, name)

    def bind(s, f, o, c, node):
        if f[0] == 'fn':
            return ('bound', o, f)
        if f[0] == 'prop':
            return s.apply(f[1], [o], {}, node)
        if f[0] == 'static':
            return f[1]
        if f[0] == 'clsm':
            return ('bound', c, f[1])
        return f

    def call(s, f, args, kw, node):
        k = f[0]
        if k == 'fn':
            return s.apply(f, args, kw, node)
        if k == 'bound':
            return s.apply(f[2], [f[1]] + list(args), kw, node)
        if k == 'cls':
            return s.instance(f[1], args, kw, node)
        if k == 'static':
            return s.call(f[1], args, kw, node)
        if k == 'ncls':
            s.nobjs.append(dict(cls=f, args=[s.deep(a) for a in args], kw={a: s.deep(b) for a, b in kw.items()}, node=node))
            return ('nobj', len(s.nobjs) - 1)
        if k == 'nmeth':
            o = f[1]
            nc = s.nobjs[o[1]]['cls']
            cl = s.native.mods[nc[1]][nc[2]]
            if f[2] in ('__str__', '__repr__'):
                return ('op', 'text', (o,))
            if f[2] in ('__class__', '__hash__', '__eq__'):
                return ('op', 'opaque', (f[2],))
            ps = cl.params(f[2])
            vals = [s.deep(a) for a in args]
            kws = {a: s.deep(b) for a, b in kw.items()}
            if len(vals) + len(kws) != len(ps) or any(a not in ps[len(vals):] for a in kws):
                raise PyRaise('TypeError', node, f'{nc[2]}.{f[2]} takes {len(ps)} arguments')
            vals += [kws[p] for p in ps[len(vals):]]
            for a in vals:
                if a[0] == 'op' and a[1] == 'gen' or a[0] == 'zip':
                    raise PyRaise('TypeError', node, f'{nc[2]}.{f[2]} needs a sequence, not an iterator')
            s.calls.append(dict(obj=o, cls=cl, name=f[2], args=vals, node=node, loops=tuple(x[0] for x in s.loops)))
            return ('nres', len(s.calls) - 1, f[2], tuple(vals))
        if k == 'builtin':
            return s.builtin(f[1], args, kw, node)
        if k == 'sym':
            if s.kinds.get(f[1]) == 'callable':
                return ('op', 'app', (f,) + tuple(s.deep(a) for a in args))
            return ('op', 'opaque', ('call',))
        if k == 'meth':
            return s.method(f[1], f[2], args, kw, node)
        if k == 'k':
            raise PyRaise('TypeError', node, 'not callable')
        if k == 'ext':
            if f[1] == 'functools' and f[2] == 'partial' and args:
                return ('partial', args[0], tuple(args[1:]), tuple(sorted(kw.items())))
            return ('op', 'opaque', (f[1], f[2]))
        if k == 'partial':
            d = dict(f[3])
            d.update(kw)
            return s.call(f[1], list(f[2]) + list(args), d, node)
        return ('op', 'opaque', ('call',))

    def method(s, v, name, args, kw, node):
        if v[0] == 'ref':
            kd, x, dep = s.heap[v[1]]
            if kd == 'list' and name == 'append' and isinstance(x, list) and len(args) == 1:
                x.append(args[0])
                return NONE
            if kd == 'dict' and name == 'get':
                try:
                    return s.getitem(v, args[0], node)
                except PyRaise:
                    return args[1] if len(args) > 1 else NONE
            if kd == 'dict' and name in ('items', 'keys', 'values'):
                return s.new('list', [{'items': ('seq', 'tuple', (a, b)), 'keys': a, 'values': b}[name] for a, b in x])
            if kd == 'list' and name in ('extend', 'insert', 'pop', 'remove', 'sort', 'reverse', 'clear'):
                if name == 'extend' and isinstance(x, list) and s.items(args[0]) is not None:
                    x.extend(s.items(args[0]))
                    return NONE
                raise Unsup('list.' + name)
        if v[0] == 'op' and v[1] == 'dictmap' and name in ('keys', 'values', 'items') and not args:
            return ('op', 'distinct ' + name, v[2])
        if v[0] == 'k' and isinstance(v[1], str) and all(a[0] == 'k' for a in args) and not kw and name in ('lower', 'upper', 'strip', 'format', 'capitalize', 'title', 'startswith', 'endswith'):
            return ('k', getattr(v[1], name)(*[a[1] for a in args]))
        if v[0] == 'k' and isinstance(v[1], int) and name in ('bit_length', 'bit_count') and not args:
            return ('k', getattr(v[1], name)())
        if v[0] == 'k' and name not in dir(type(v[1])):
            raise PyRaise('AttributeError', node, name)
        if v[0] == 'k' and isinstance(v[1], str):
            return ('op', 'text', ())
        if v[0] == 'sym' and s.kinds.get(v[1]) == 'callable' and name == '__call__':
            return s.call(v, args, kw, node)
        if v[0] == 'super':
            f = None
            for b in s.clss[v[2]][2]:
                if b[0] == 'cls':
                    f = f or s.lookup(b[1], name)
            if f is None:
                if name == '__init__':
                    return NONE
                raise PyRaise('AttributeError', node, name)
            return s.call(s.bind(f, v[1], ('cls', v[2]), node), args, kw, node)
        if v[0] == 'op' and v[1] == 'opaque':
            return ('op', 'opaque', ())
        return ('op', 'method', (s.deep(v), name) + tuple(s.deep(a) for a in args))

    def builtin(s, n, args, kw, node):
        if n == 'callable':
            v = args[0]
            if v[0] in ('fn', 'bound', 'cls', 'builtin', 'ncls', 'nmeth', 'partial', 'ext'):
                return TRUE_
            if v[0] in ('k', 'seq', 'nobj', 'nres', 'map'):
                return FALSE_
            if v[0] == 'ref':
                if s.heap[v[1]][0] == 'obj':
                    return ('k', s.lookup(s.heap[v[1]][1]['__class__'][1], '__call__') is not None)
                return FALSE_
            if v[0] == 'sym' and s.kinds.get(v[1]) in ('callable', 'str', 'int', 'num', 'bool', 'seq'):
                return ('k', s.kinds[v[1]] == 'callable')
            return ('k', s.fork_atom(('callable', s.deep(v))))
        if n in ('list', 'tuple') and len(args) <= 1:
            if not args:
                return s.new('list', []) if n == 'list' else ('seq', 'tuple', ())
            xs = s.items(args[0])
            if xs is not None:
                return s.new('list', xs) if n == 'list' else ('seq', 'tuple', tuple(xs))
            v = s.deep(args[0])
            if v[0] == 'op' and v[1] == 'gen':
                v = v[2][0]
            if v[0] == 'map' or v[0] == 'op' and v[1] == 'list':
                return v
            return ('op', 'list', (v,))
        if n == 'map' and len(args) == 2:
            xs = s.items(args[1])
            if xs is not None:
                return s.new('list', [s.call(args[0], [x], {}, node) for x in xs])
            src = s.seqv(args[1])
            d = len(s.loops)
            s.loops.append((src, {}))
            try:
                v = s.call(args[0], [s.elt(src, d)], {}, node)
            finally:
                s.loops.pop()
            return ('op', 'gen', (('map', s.deep(v), src, d),))
        if n == 'zip':
            xs = [s.items(a) for a in args]
            if all(x is not None for x in xs):
                return s.new('list', [('seq', 'tuple', t) for t in zip(*xs)])
            return ('zip', tuple(s.seqv(a) for a in args))
        if n == 'isinstance' and len(args) == 2:
            ts = s.items(args[1]) if args[1][0] in ('seq', 'ref') else [args[1]]
            v = args[0]
            for t in ts:
                if t[0] != 'builtin':
                    return ('k', s.fork_atom(('isinstance', s.deep(v), s.deep(args[1]))))
            nm = [t[1] for t in ts]
            if v[0] == 'k':
                return ('k', any(isinstance(v[1], TYPES[x]) for x in nm if x in TYPES))
            kd = s.kinds.get(v[1]) if v[0] == 'sym' else None
            m_ = {'str': 'str', 'int': 'int', 'num': 'float', 'bool': 'bool'}.get(kd)
            if m_:
                return ('k', m_ in nm or m_ == 'bool' and 'int' in nm)
            if kd == 'callable' and not set(nm) - {'str', 'int', 'float', 'list', 'tuple', 'dict', 'set', 'bool'}:
                return FALSE_
            return ('k', s.fork_atom(('isinstance', s.deep(v), tuple(nm))))
        if n == 'getattr' and len(args) >= 2:
            if args[1][0] != 'k':
                raise Unsup('getattr')
            try:
                return s.attr(args[0], args[1][1], node)
            except PyRaise as e:
                if e.et == 'AttributeError' and len(args) == 3:
                    return args[2]
                raise
        if n == 'hasattr' and args[1][0] == 'k':
            try:
                v = s.attr(args[0], args[1][1], node)
                if v[0] == 'meth' and args[0][0] != 'k':
                    if args[1][1] == '__call__':
                        return s.builtin('callable', [args[0]], {}, node)
                    return ('k', s.fork_atom(('hasattr', s.deep(args[0]), args[1][1])))
                return TRUE_
            except PyRaise:
                return FALSE_
        if n == 'setattr' and args[1][0] == 'k' and args[0][0] == 'ref' and s.heap[args[0][1]][0] == 'obj':
            s.heap[args[0][1]][1][args[1][1]] = args[2]
            return NONE
        if n in EXC:
            return ('op', 'exc', (n,))
        if n in ('str', 'repr', 'format'):
            if args and args[0][0] == 'k' and n == 'str':
                return ('k', str(args[0][1]))
            if args and args[0][0] == 'sym' and s.kinds.get(args[0][1]) == 'str' and n == 'str':
                return args[0]
            return ('op', 'text', tuple(s.deep(a) for a in args))
        if n == 'print':
            return NONE
        if n == 'bool' and len(args) == 1:
            v = args[0]
            if v[0] == 'sym' and s.kinds.get(v[1]) == 'bool':
                return v
            return ('k', s.truth(v, node))
        if n in ('int', 'float') and len(args) == 1:
            if args[0][0] == 'k':
                return ('k', TYPES[n](args[0][1]))
            if args[0][0] == 'sym' and s.kinds.get(args[0][1]) == {'int': 'int', 'float': 'num'}[n]:
                return args[0]
            return ('op', n, (s.deep(args[0]),))
        if n == 'len' and s.items(args[0]) is not None:
            return ('k', len(s.items(args[0])))
        if n == 'len':
            return ('op', 'len', (s.deep(args[0]),))
        if n in ('set', 'frozenset'):
            if not args:
                return s.new('set', [])
            xs = s.items(args[0])
            if xs is not None:
                return s.new('set', xs)
            return ('op', 'set', (s.deep(args[0]),))
        if n == 'dict':
            if not args:
                return s.new('dict', [(('k', k), v) for k, v in kw.items()])
            v = args[0]
            if v[0] == 'ref' and s.heap[v[1]][0] == 'dict':
                return s.new('dict', list(s.heap[v[1]][1]) + [(('k', k), x) for k, x in kw.items()])
            xs = s.items(v)
            if xs is not None:
                ps = [s.items(x) for x in xs]
                if all(p is not None and len(p) == 2 for p in ps):
                    return s.new('dict', [(p[0], p[1]) for p in ps])
            src = s.seqv(v)
            if src[0] == 'zip' and len(src[1]) == 2 and not kw:
                d = len(s.loops)
                return ('op', 'dictmap', (s.deep(s.elt(src[1][0], d)), s.deep(s.elt(src[1][1], d)), src, d))
            raise Unsup('dict()')
        if n in ('any', 'all') and s.items(args[0]) is not None:
            r = [s.truth(x, node) for x in s.items(args[0])]
            return ('k', any(r) if n == 'any' else all(r))
        if n in ('sorted', 'reversed', 'filter', 'sum', 'max', 'min', 'enumerate', 'iter', 'next', 'range', 'abs', 'round'):
            if n == 'range' and all(a[0] == 'k' for a in args):
                return s.new('list', [('k', i) for i in range(*[a[1] for a in args])][:256])
            if n == 'enumerate' and s.items(args[0]) is not None:
                return s.new('list', [('seq', 'tuple', (('k', i), x)) for i, x in enumerate(s.items(args[0]))])
            if n == 'iter':
                return args[0]
            return ('op', n, tuple(s.deep(a) for a in args))
        if n == 'type' and len(args) == 1:
            v = args[0]
            if v[0] == 'ref' and s.heap[v[1]][0] == 'obj':
                return s.heap[v[1]][1]['__class__']
            return ('op', 'opaque', ('type',))
        if n == 'super':
            raise Unsup('super')
        return ('op', 'opaque', (n,))

    # ---- operators
    def lin(s, v):
        if v[0] == 'k' and isinstance(v[1], (int, float)) and not isinstance(v[1], bool):
            try:
                return {}, Fraction(v[1])
            except (ValueError, OverflowError):
                return None
        if v[0] == 'sym' and s.kinds.get(v[1]) in ('int', 'num'):
            return {v[1]: Fraction(1)}, Fraction(0)
        if v[0] == 'lin':
            return dict(v[1]), v[2]
        return None

    def unlin(s, co, k):
        co = {a: b for a, b in co.items() if b}
        if not co:
            return ('k', int(k) if k.denominator == 1 else float(k))
        if k == 0 and len(co) == 1 and list(co.values()) == [1]:
            return ('sym', list(co)[0])
        return ('lin', tuple(sorted(co.items())), k)

    def binop(s, op, a, b, node):
        if a[0] == 'k' and b[0] == 'k':
            try:
                r = {ast.Add: lambda: a[1] + b[1], ast.Sub: lambda: a[1] - b[1], ast.Mult: lambda: a[1] * b[1], ast.Div: lambda: a[1] / b[1],
                     ast.FloorDiv: lambda: a[1] // b[1], ast.Mod: lambda: a[1] % b[1], ast.Pow: lambda: a[1] ** b[1], ast.BitAnd: lambda: a[1] & b[1], ast.BitOr: lambda: a[1] | b[1], ast.BitXor: lambda: a[1] ^ b[1],
                     ast.LShift: lambda: a[1] << b[1] if 0 <= b[1] < 64 else 1 / 0, ast.RShift: lambda: a[1] >> b[1]}.get(type(op))
                if r:
                    return ('k', r())
            except Exception:
                raise Unsup('constant arithmetic')
        x, y = s.lin(a), s.lin(b)
        if x and y and isinstance(op, (ast.Add, ast.Sub)):
            g = 1 if isinstance(op, ast.Add) else -1
            co = dict(x[0])
            for v, c in y[0].items():
                co[v] = co.get(v, 0) + g * c
            return s.unlin(co, x[1] + g * y[1])
        if x and y and isinstance(op, ast.Mult) and (not x[0] or not y[0]):
            if not y[0]:
                x, y = y, x
            return s.unlin({v: c * x[1] for v, c in y[0].items()}, y[1] * x[1])
        if isinstance(op, ast.Add) and s.items(a) is not None and s.items(b) is not None and a[0] != 'k':
            return s.new('list', s.items(a) + s.items(b)) if a[0] == 'ref' else ('seq', 'tuple', tuple(s.items(a) + s.items(b)))
        if isinstance(op, ast.Mod) and a[0] == 'k' and isinstance(a[1], str):
            return ('op', 'text', ())
        return ('op', type(op).__name__, (s.deep(a), s.deep(b)))

    def compare(s, op, a, b, node):
        t = type(op)
        if t is ast.NotEq:
            return ('k', not s.truth(s.compare(ast.Eq(), a, b, node), node))
        if t is ast.IsNot:
            return ('k', not s.truth(s.compare(ast.Is(), a, b, node), node))
        if t is ast.NotIn:
            return ('k', not s.truth(s.compare(ast.In(), a, b, node), node))
        if t is ast.In:
            xs = s.items(b)
            if xs is not None and not (b[0] == 'k'):
                for x in xs:
                    if s.truth(s.compare(ast.Eq(), a, x, node), node):
                        return TRUE_
                return FALSE_
            if a[0] == 'k' and b[0] == 'k':
                try:
                    return ('k', a[1] in b[1])
                except TypeError:
                    raise PyRaise('TypeError', node)
            if b[0] == 'op' and b[1] == 'range' or b[0] == 'ref':
                raise Unsup('in')
            return ('k', s.fork_atom(('in', s.deep(a), s.deep(b))))
        if t is ast.Is:
            if a[0] == 'k' and b[0] == 'k':
                return ('k', a[1] is b[1] or a[1] == b[1] and type(a[1]) == type(b[1]))
            if a == b:
                return TRUE_
            for x, y in ((a, b), (b, a)):
                if y[0] == 'k' and y[1] in (None, True, False) and not isinstance(y[1], int) or y == NONE:
                    if x[0] == 'sym':
                        kd = s.kinds.get(x[1])
                        if kd in ('int', 'num', 'str', 'callable', 'seq', 'bool'):
                            return FALSE_
                        return ('k', s.fork_atom(('none', x), opaque=False))
                    if x[0] in ('nobj', 'nres', 'seq', 'map', 'fn', 'cls', 'ncls', 'lin', 'bound', 'elt') or x[0] == 'ref':
                        return FALSE_
                if y[0] == 'k' and isinstance(y[1], bool) and x[0] == 'sym' and s.kinds.get(x[1]) == 'bool':
                    return ('k', s.truth(x, node) == y[1])
            return ('k', s.fork_atom(('is', s.deep(a), s.deep(b))))
        if t is ast.Eq:
            a, b = s.deep(a), s.deep(b)
            if a[0] == 'k' and b[0] == 'k':
                return ('k', a[1] == b[1])
            if a == b and a[0] in ('sym', 'elt', 'k'):
                return TRUE_
            if a[0] == 'k':
                a, b = b, a
            if a[0] == 'seq' and b[0] == 'seq' and a[1] == b[1] != 'set':
                if len(a[2]) != len(b[2]):
                    return FALSE_
                return ('k', all(s.truth(s.compare(ast.Eq(), x, y, node), node) for x, y in zip(a[2], b[2])))
            if a[0] == 'seq' and b[0] == 'k':
                return FALSE_
            if a[0] == 'sym' and b[0] == 'k':
                kd = s.kinds.get(a[1])
                if b[1] in s.excl.get(a[1], ()):
                    return FALSE_
                if b[1] is None:
                    return s.compare(ast.Is(), a, b, node)
                if kd == 'str' and not isinstance(b[1], str) or kd in ('int', 'num') and not isinstance(b[1], (int, float)) or kd == 'callable':
                    return FALSE_
                if kd == 'bool':
                    return ('k', s.truth(a, node) == bool(b[1]))
                if kd in ('int', 'num'):
                    x = s.lin(b)
                    g1 = s.fork_lin({a[1]: Fraction(1)}, -x[1], False)
                    return ('k', g1 and s.fork_lin({a[1]: Fraction(-1)}, x[1], False))
                return ('k', s.fork_atom(('eq', a, b), opaque=False))
            x, y = s.lin(a), s.lin(b)
            if x and y:
                co = dict(x[0])
                for v, c in y[0].items():
                    co[v] = co.get(v, 0) - c
                k = x[1] - y[1]
                return ('k', s.fork_lin(co, k, False) and s.fork_lin({v: -c for v, c in co.items()}, -k, False))
            if {a[0], b[0]} <= {'nobj', 'ncls', 'cls', 'fn', 'builtin', 'k'}:
                return ('k', a == b)
            return ('k', s.fork_atom(('eq', a, b)))
        x, y = s.lin(a), s.lin(b)
        if x and y:
            # a < b  <=>  b - a > 0
            co = dict(y[0])
            for v, c in x[0].items():
                co[v] = co.get(v, 0) - c
            k = y[1] - x[1]
            if t is ast.Gt or t is ast.GtE:
                co, k = {v: -c for v, c in co.items()}, -k
            co = {v: c for v, c in co.items() if c}
            return ('k', s.fork_lin(co, k, t in (ast.Lt, ast.Gt)))
        if a[0] == 'k' and b[0] == 'k':
            raise Unsup('comparison')
        return ('k', s.fork_atom((t.__name__, s.deep(a), s.deep(b))))

    def truth(s, v, node):
        k = v[0]
        if k == 'k':
            return bool(v[1])
        if k == 'sym':
            kd = s.kinds.get(v[1])
            if kd == 'callable':
                return True
            if kd in ('int', 'num'):
                return not s.truth(s.compare(ast.Eq(), v, ('k', 0), node), node)
            if kd == 'bool':
                return s.fork_atom(('truth', v), opaque=False)
            return s.fork_atom(('truth', v), opaque=kd not in ('any', 'str', 'seq') and v[0] != 'nres')
        if k in ('fn', 'cls', 'bound', 'nobj', 'nmeth', 'ncls', 'ext', 'builtin'):
            return True
        xs = s.items(v)
        if xs is not None:
            return bool(xs)
        if k == 'ref' and s.heap[v[1]][0] == 'obj':
            return True
        return s.fork_atom(('truth', s.deep(v)), opaque=k != 'nres')


class Scope(dict):
    """local names over an enclosing scope"""

    def __init__(s, up, loc):
        super().__init__(loc)
        s.up = up
        s.loc = loc

    def __contains__(s, k):
        return dict.__contains__(s, k) or k in s.up

    def __getitem__(s, k):
        if dict.__contains__(s, k):
            return dict.__getitem__(s, k)
        return s.up[k]

    def __setitem__(s, k, v):
        dict.__setitem__(s, k, v)
        s.loc[k] = v

    def get(s, k, d=None):
        return s[k] if k in s else d


def _cp(v):
    k, x, d = v
    return [k, dict(x) if isinstance(x, dict) else list(x) if isinstance(x, list) else x, d]


def _load(t):
    import copy
    t = copy.deepcopy(t)
    for n in ast.walk(t):
        if hasattr(n, 'ctx'):
            n.ctx = ast.Load()
    return t


def _has_elt(v):
    return isinstance(v, tuple) and (bool(v) and v[0] == 'elt' or any(_has_elt(x) for x in v))


def _sub(body, src, d, mk):
    old = ('elt', src, d)
    new = mk()

    def f(x):
        if x == old:
            return new
        if isinstance(x, tuple):
            return tuple(f(y) for y in x)
        return x
    return f(body)


EXC = set(EXC_PARENTS) | {'BaseException', 'SyntaxError', 'OSError', 'StopIteration', 'ZeroDivisionError', 'OverflowError', 'ArithmeticError'}
TYPES = {'str': str, 'int': int, 'float': float, 'bool': bool, 'list': list, 'tuple': tuple, 'dict': dict, 'set': set}
def replace(t, a, b):
    if t == a:
        return b
    return tuple(replace(x, a, b) for x in t) if isinstance(t, tuple) else t


BUILTINS = EXC | set(TYPES) | {'callable', 'map', 'zip', 'isinstance', 'getattr', 'hasattr', 'setattr', 'repr', 'print', 'len', 'frozenset', 'any', 'all', 'sorted', 'reversed', 'filter', 'sum', 'max', 'min',
                               'enumerate', 'iter', 'next', 'range', 'abs', 'round', 'type', 'super', 'property', 'staticmethod', 'classmethod', 'object', 'format', 'id', 'vars', 'NotImplemented', 'Warning'}
