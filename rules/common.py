"""Shared machinery of the rules: function lookup, summaries, obligations, entailment helpers."""
import os, re, sys, time
from engine.terms import *
from engine import terms as TT
from engine.interp import Program, InterpBase, Effect, final, strip_generics, Unsupported
from engine.models import Interp


class Ob:
    """one proof obligation: status ok | bad | open"""

    def __init__(s, rule, fn, status, detail='', sp='', key=''):
        s.rule, s.fn, s.status, s.detail, s.sp = rule, fn, status, detail, sp
        s.key = key or f'{rule}@{fn}'

    def __repr__(s):
        return f'[{s.status}] {s.rule} {s.fn} {s.sp} {s.detail}'


class Missing(Exception):
    pass


ANCHORS = ('minhash::compute_minhash_similarity',)


class Ctx:
    def __init__(s, prog):
        s.P = prog
        s.obs = []
        s.analysed = {}
        s._sum = {}
        s.by = {}
        for k, f in prog.fns.items():
            if f['kind'] == 'Closure':
                continue
            im = f.get('implself')
            ow = (im or {}).get('p') or ((im or {}).get('k') if im else '')
            if ow and im.get('k') == 'prim':
                ow = im['n']
            ow = (ow or '').split('::')[-1]
            mod = strip_generics(f['key']).split('::')
            s.by.setdefault((ow, f['name']), []).append(k)
        s.counts = {'functions': 0, 'effects': 0, 'panic_sites': 0, 'loops': 0, 'call_sites': 0}

    # ---- lookup
    def find(s, owner, name, trait=None, mod=None, crate=None):
        out = []
        for k in s.by.get((owner, name), []):
            f = s.P.fns[k]
            t = (f.get('impltrait') or '').split('<')[0].split('::')[-1] or None
            if trait is not None and t != (trait or None):
                continue
            if mod and mod not in f['key']:
                continue
            if crate and f['crate'] != crate:
                continue
            out.append(k)
        return out

    def fn(s, owner, name, trait='', mod=None, crate=None):
        r = s.find(owner, name, trait, mod, crate)
        if not r:
            raise Missing(f'{owner}::{name}')
        return r[0]

    def summ(s, key, anchors=ANCHORS, args=None, tyenv=None):
        ck = (key, tuple(anchors), tuple(args) if args else None, str(tyenv))
        o = s._sum.get(ck)
        if o is None:
            anc = [k for k, f in s.P.fns.items() if strip_generics(f['path']) in anchors and k != key] if anchors else []
            I = Interp(s.P, anc)
            try:
                o = I.analyse(key, args, tyenv=tyenv)
                o.error = None
            except (Unsupported, RecursionError, KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError) as e:
                if os.environ.get('VERIF_DEBUG'):
                    raise
                o = Failed(s.P.fn(key), e)
            s._sum[ck] = o
            s.counts['functions'] += 1
            s.counts['effects'] += len(o.effects)
            s.counts['panic_sites'] += len(o.panics)
            s.counts['loops'] += len(o.loops)
            s.counts['call_sites'] += getattr(I, 'callsites', 0)
            s.analysed[s.P.fns[key]['path']] = s.P.fns[key]['sp']
        return o

    # ---- obligations
    def ob(s, rule, fn, status, detail='', sp='', key=''):
        if hasattr(fn, 'path'):
            sp = sp or fn.fn.j['sp']
            fn = fn.path
        elif fn in s.P.fns:
            sp = sp or s.P.fns[fn]['sp']
            fn = s.P.fns[fn]['path']
        o = Ob(rule, fn, status, detail, sp, key)
        s.obs.append(o)
        return o

    def ok(s, rule, fn, detail='', sp=''):
        return s.ob(rule, fn, 'ok', detail, sp)

    def bad(s, rule, fn, detail='', sp=''):
        return s.ob(rule, fn, 'bad', detail, sp)

    def open(s, rule, fn, detail='', sp=''):
        return s.ob(rule, fn, 'open', detail, sp)

    def need(s, cond, rule, fn, detail='', sp='', opaque=False):
        """obligation: cond, or a violation (open when the mismatch involves terms the analysis does not understand)"""
        if cond:
            return s.ok(rule, fn, '', sp)
        return (s.open if opaque else s.bad)(rule, fn, detail, sp)

    def entail(s, f, g, rule, fn, detail='', sp='', opaque=False):
        """obligation: f implies g; refuted when it fails whatever the atoms that are not understood mean"""
        if entails(f, g):
            return s.ok(rule, fn, '', sp)
        if not opaque and not entails(must(f), may(g)):
            return s.bad(rule, fn, detail, sp)
        mi = getattr(fn, 'muinit', None)
        if mi and not opaque:
            # a counterexample in the first iteration: carried values are what they were before the loop
            f1, g1 = first_iter(f, mi), first_iter(g, mi)
            if not entails(must(f1), may(g1)):
                return s.bad(rule, fn, detail, sp)
        return s.open(rule, fn, detail, sp)

    def adt(s, name, crate='gaoya'):
        for k, a in s.P.adts.items():
            if a['path'].split('::')[-1] == name and a['crate'] == crate:
                return a
        raise Missing('type ' + name)


def first_iter(g, mi):
    for _ in range(4):
        ats = {x for a in atoms_of(g) for x in subterms(a) if x in mi}
        if not ats:
            break
        g = subst_guard(g, {x: mi[x] for x in ats})
    return g


class Failed:
    def __init__(s, F, e):
        s.fn, s.path, s.key = F, F.path, F.key
        s.error = f'{type(e).__name__}: {e}'
        s.ret = mk('unsupported', s.error)
        s.effects, s.panics, s.subs, s.loops, s.state, s.args, s.diverges = [], [], [], {}, None, [], False


# ---------------------------------------------------------------- term predicates
LAZY = {'split', 'create_signature'}
OPAQUE = {'rec', 'unsupported', 'undef', 'firsto', 'leaves', 'cnt', 'mu', 'mux', 'out', 'unk', 'usub', 'iter?', 'opq', 'mv', 'opaque_it', 'stepped'}


# library functions with a meaning of their own that is not modelled: a value that depends on one is not understood
UNMODELLED = {'pow', 'leading_zeros', 'trailing_zeros', 'leading_ones', 'trailing_ones', 'count_zeros', 'rotate_left', 'rotate_right', 'rem_euclid', 'div_euclid', 'checked_shl', 'checked_shr',
              'wrapping_shl', 'wrapping_shr', 'mul_add', 'recip', 'binary_search', 'binary_search_by', 'binary_search_by_key', 'partition_point', 'size_hint', 'rposition', 'swap_bytes',
              'reverse_bits', 'isqrt', 'ilog2', 'xor', 'transpose', 'into_sorted_vec', 'peek', 'is_char_boundary', 'floor_char_boundary', 'checked_rem', 'overflowing_add', 'overflowing_sub'}


def unmodelled(x):
    return x.op == 'call' and isinstance(x.a[1], tuple) and x.a[0].split('::')[-1].split('<')[0] in UNMODELLED and x.a[0].split('::')[0].lstrip('<') in ('core', 'std', 'alloc', 'num')


def opaque_in(*ts, extra=()):
    """does a term contain something the analysis did not understand?"""
    for t in ts:
        if isinstance(t, int):
            t = b(t)
        for x in subterms(t):
            if (x.op in OPAQUE or x.op in extra) and not hash_out(x):
                return True
            if unmodelled(x):
                return True
            if x.op == 'call' and isinstance(x.a[1], tuple) and x.a[0].split('::')[-1].split('<')[0] not in LAZY and any(isinstance(y, T) and y.op in ('it', 'itphi', 'closure') for y in x.a[1]):
                return True         # a library function that runs an iterator or a closure in a way not modelled
    return False


def hash_out(x):
    """the state of a hasher after hashing a value: an uninterpreted function of both"""
    return x.op == 'out' and x.a[0].op == 'call' and strip_generics(x.a[0].a[0]).split('::')[-1] in ('hash', 'hash_slice', 'write', 'write_u64', 'write_usize', 'write_u8')


def may(g):
    """the guard with the atoms the analysis does not understand quantified away: false only where g is false whatever they are"""
    for a in atoms_of(g):
        if opaque_in(a):
            g = OR(cofactor(g, a, True), cofactor(g, a, False))
    return g


def must(g):
    return NOT(may(NOT(g)))


def is_call(t, name):
    return t.op == 'call' and (t.a[0] == name or strip_generics(t.a[0]).split('::')[-1] == name)


def param(o, n):
    return o.args[n]


def pmap(o):
    """params by name"""
    return {a.a[1]: a for a in o.args if a.op == 'param'}


def idx_env(loops, base=900):
    """replace loop indices by fresh canonical bound variables"""
    return {mk('idx', L): mk('cv', base + n) for n, L in enumerate(loops)}


def isSome(t):
    return is_(t, 'Some')


def unwrap(t):
    return fld(t, 0, 'Some')


def rewrite(t, f, memo=None):
    """bottom-up rewriting by f (which returns a term) on every subterm"""
    return TT.rewrite(t, f) if hasattr(TT, 'rewrite') else t


def lift(g):
    return g if isinstance(g, int) else truth(g)


def short(t, n=260):
    x = showg(t) if isinstance(t, int) else show(t)
    return x if len(x) <= n else x[:n] + '…'


# ---------------------------------------------------------------- unsigned underflow
def _sizevar(t):
    if t.op == 'param':
        return True
    if t.op == 'f2i' or is_call(t, 'f2i'):
        return not opaque_in(t)
    if t.op == 'len':
        x = t.a[0]
        while x.op in ('fld', 'fldv') and isinstance(x.a[0], T):
            x = x.a[0]
        return x.op == 'param'
    return False


def underflows(c, o, rule, pre=None, deny=()):
    """unsigned subtractions that go below zero for some arguments: the condition is a comparison of sizes the caller is free to
    choose (integer parameters, lengths of what the parameters hold), so a small assignment that satisfies it is a refutation.
    Anything else about a subtraction is left alone."""
    from itertools import product
    for e in o.subs:
        g = e.guard
        ats = list(atoms_of(g))
        if not ats or any(a.op not in ('pos', 'eqz') for a in ats):
            continue
        vs = []
        for a in ats:
            for m in to_poly(a.a[0]):
                for v in m:
                    v = v[0] if isinstance(v, tuple) else v
                    if v not in vs:
                        vs.append(v)
        if not vs or len(vs) > 4 or not all(isinstance(v, T) and _sizevar(v) and v not in deny for v in vs):
            continue
        for vals in product(range(4), repeat=len(vs)):
            env = dict(zip(vs, map(ci, vals)))
            if pre is not None and not pre({v: n for v, n in zip(vs, vals)}):
                continue
            if subst_guard(g, env) == TRUE:
                c.bad(rule, o, f'{short(e.args[0])} - {short(e.args[1])} is below zero when ' + ', '.join(f'{short(v)} = {n}' for v, n in zip(vs, vals)), e.sp)
                break


def norm(t, loops):
    """loop-carried integers as of the beginning of the iteration"""
    for _ in range(4):
        env = {}
        for x in subterms(t):
            if x.op == 'mu' and x.a[0] in loops and x in getattr(loops[x.a[0]], 'pre', {}):
                env[x] = loops[x.a[0]].pre[x]
        if not env:
            break
        t = subst(t, env)
    return t
