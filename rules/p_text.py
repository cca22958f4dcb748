"""C19 (shingle iterators yield exactly the n-grams) and C20 (tokenising never panics)."""
from .common import *
from engine.lin import Lin
from itertools import permutations


class Odd(Exception):
    pass


class Wrong(Exception):
    pass


class WrongCut(Wrong):
    """the text is cut elsewhere than at character boundaries"""


# ------------------------------------------------------------------ character positions
def boundary(D, v):
    x = at(D, v)
    return NOT(AND(lt(ci(127), x), lt(x, ci(192))))


def charpos(D, k):
    """byte offset of character number k"""
    if k is ci(0):
        return ci(0)
    return mk('charpos', D, k)


def nchars(D):
    return mk('len', mk('chars', D))


CONT = tuple(range(0x80, 0xC0))
LEAD = tuple(range(0, 0x80)) + tuple(range(0xC2, 0xF5))      # the bytes that start a character in UTF-8


def by_kind(g, D, v):
    """guard g folded for every byte value at v: (g for continuation bytes, g for leading bytes); Wrong if bytes of one kind differ"""
    x = at(D, v)
    if not any(y is x for y in subterms(b(g))):
        return g, g
    out = []
    for kind, name in ((CONT, 'continuation'), (LEAD, 'leading')):
        r = None
        for n in kind:
            h = subst_guard(g, {x: ci(n)})
            if any(y is x for y in subterms(b(h))):
                raise Odd('byte test ' + showg(g)[:100])
            if r is None:
                r = (h, n)
            elif r[0] != h:
                if any(y.op in OPAQUE_BYTE for y in subterms(b(h))):
                    raise Odd('byte test ' + showg(h)[:100])
                raise WrongCut(f'{name} bytes 0x{r[1]:02x} and 0x{n:02x} are treated differently: not a test for character boundaries')
        out.append(r[0])
    return tuple(out)


OPAQUE_BYTE = ('call', 'trunc', 'undef', 'unsupported', 'bitand', 'shr')


def is_boundary(g, D, v):
    return by_kind(g, D, v) == (FALSE, TRUE)


class CharNorm:
    """rewrites terms about byte scans of D into characters: counts of boundary bytes, positions of the K-th one"""

    def __init__(s, o, D, env, me):
        s.o, s.D, s.env, s.me = o, D, env, me
        s.exit = {}
        s.n = nchars(D)

    def count_to(s, R):
        D = s.D
        if R is ln(D):
            return s.n
        if R.op == 'firsto':
            return s.exit_char(R.a[0])
        if R.op == 'charpos':
            return R.a[1]
        return mk('bc', D, R)

    def rw(s, x):
        D = s.D
        if x.op == 'sum' and x.a[2] is ci(1):
            bd = x.a[0]
            v = mk('bv', bd.a[0])
            g = x.a[1].a[0]
            if any(y is at(D, v) for y in subterms(b(g))) and is_boundary(g, D, v):
                if bd.a[1].op == 'bv' or bd.a[1] is ln(D) or bd.a[1].op in ('firsto', 'idx', 'charpos'):
                    return s.count_to(bd.a[1])
        if x.op in ('exists', 'last'):
            bd, g = x.a[0], x.a[1].a[0]
            k = s.char_index(bd, g)
            if k is None and x.op == 'exists' and s.is_chars(bd.a[1]):
                k = s.threshold(bd, g)
                return b(lt(k, s.n)) if k is not None else None
            if k is None:
                return None
            R = bd.a[1]
            if x.op == 'last':
                return charpos(D, k)
            if R is ln(D):
                return b(lt(k, s.n))
            if R.op == 'firsto':
                return b(lt(k, s.exit_char(R.a[0])))
            if R.op == 'charpos':
                return b(lt(k, R.a[1]))
        if x.op == 'len' and s.is_chars(x):
            return s.n
        if x.op == 'fld' and x.a[1] == 0 and x.a[0].op == 'at' and x.a[0].a[0].op == 'char_indices' and x.a[0].a[0].a[0] is D:
            return charpos(D, x.a[0].a[1])
        if x.op == 'first' and s.is_chars(x.a[0].a[1]):
            return s.threshold(x.a[0], truth(x.a[1]))
        if x.op == 'firsto' and s.is_chars(s.o.loops[x.a[0]].count):
            return s.exit_char(x.a[0])
        if x.op == 'firsto':
            return charpos(D, s.exit_char(x.a[0]))
        if x.op == 'leaves':
            return b(lt(s.exit_char(x.a[0]), s.n))
        return None

    def char_index(s, bd, g):
        """g = 'v is the boundary of character number K'  ->  K"""
        D, v = s.D, mk('bv', bd.a[0])
        cnt = mk('bc', D, v)
        for a in atoms_of(g):
            if a.op == 'eqz' and any(y is cnt for y in subterms(a.a[0])):
                p = to_poly(a.a[0])
                c = p.get((cnt,), 0)
                if c not in (1, -1):
                    return None
                rest = from_poly({m: (-x if c == 1 else x) for m, x in p.items() if m != (cnt,)})
                if contains(rest, v):
                    return None
                if by_kind(g, D, v) == (FALSE, eq(cnt, rest)):
                    return rest
        return None

    def exit_char(s, L):
        """number of the character at which loop L is left early (valid when it is left early)"""
        if L in s.exit:
            return s.exit[L]
        i = s.o.loops[L]
        D, ix = s.D, mk('idx', L)
        chars_it = s.is_chars(i.count)
        if i.count is not ln(D) and not chars_it:
            raise Odd('loop not over the bytes of the text')
        e = i.early
        step, size = ci(1), fld(s.me, 3)
        e = subst_guard(e, s.env)
        mus = [m for m in subterms(b(e)) if m.op == 'mu']
        cont, e = by_kind(e, D, ix)
        if cont != FALSE:
            raise Odd('loop left at a continuation byte')
        st, sz = s.env_of(fld(s.me, s.roles['step'])), s.env_of(fld(s.me, s.roles['size']))
        pool = mus + ([ix] if chars_it else [])
        # the position looked at: the byte index, or the offset part of char_indices
        here = charpos(D, ix) if chars_it else ix
        e = truth(rewrite(b(e), s.rw)) if chars_it else e
        for ch, nx, en in permutations(pool + [mk('sym', '#unused')] * (3 - len(pool)), 3):
            def setp(K, old):
                m = eq(ch, K)
                return OR(AND(m, pos(here)), AND(NOT(m), pos(old)))
            N, E = setp(st, nx), setp(sz, en)
            for f, r in ((AND(N, E), minmax('max', st, sz)), (E, sz), (N, st), (OR(N, E), minmax('min', st, sz))):
                if e == f:
                    s.exit[L] = r
                    return r
        raise Odd(f'loop left early under {showg(e)[:120]}')

    def is_chars(s, n):
        return n is s.n or n.op == 'len' and n.a[0].op in ('char_indices', 'chars') and n.a[0].a[0] is s.D

    def threshold(s, bd, g):
        """g(v) = 'v >= K' for character numbers v  ->  K"""
        v = mk('bv', bd.a[0])
        st, sz = s.env_of(fld(s.me, s.roles['step'])), s.env_of(fld(s.me, s.roles['size']))
        base = Lin().ge(sz, ci(1)).ge(v, ci(0))
        for x in subterms(b(g)):
            if x.op == 'charpos':
                base.ge(x, x.a[1])
        for K in (sz, st):
            if base.copy().ge(v, K).decide(g) == TRUE and base.copy().lt(v, K).decide(g) == FALSE:
                return K
        return None

    def env_of(s, t):
        return subst(t, s.env)

    def __call__(s, t):
        if isinstance(t, int):
            return truth(s(b(t)))
        t = subst(t, s.env)
        return rewrite(t, s.rw)


# ------------------------------------------------------------------ the iterator as a transition system
ROLES = ('data', 'from', 'to', 'size', 'step')


def roles(c, o_new):
    """field index of each role, from the constructor: data, from_size, to_size (parameters 0-2), size (starts as from), step (constant 1)"""
    r = o_new.ret
    if r.op != 'agg' or len(o_new.args) != 3:
        raise Odd('constructor ' + short(r))
    d, f, t = o_new.args
    ix = {}
    for n, x in enumerate(r.a[2]):
        if x is d:
            ix['data'] = n
        elif x is t:
            ix['to'] = n
        elif x is f:
            ix.setdefault('f', []).append(n)
        elif x.op == 'const':
            ix.setdefault('const', []).append((n, x))
        elif x.op == 'agg' and x.a[0] == 'PhantomData':
            pass
        else:
            raise Wrong(f'field {n} starts as {short(x)}') if not opaque_in(x, extra=('call',)) and any(y in o_new.args for y in subterms(x)) else Odd(f'field {n} starts as {short(x)}')
    if 'data' not in ix or 'to' not in ix:
        raise Wrong('the constructor does not take over its parameters: ' + short(r))
    return ix


def changed(o, me, n):
    """is field n ever written by next?"""
    return any(e.loc and e.loc[1] and e.loc[1][0][1] == n for e in o.effects if e.op == 'write' and e.loc and showloc(e.loc[0], ()) == showloc(('V', me), ()))


def assign_roles(c, o, o_new):
    ix = roles(c, o_new)
    me = o.args[0]
    fin = final(o, me)
    fs = ix.get('f', [])
    var = [n for n in fs if fld(fin, n) is not fld(me, n)]
    const = [n for n in fs if n not in var]
    if len(var) != 1 or len(const) != 1:
        raise Odd(f'size fields {fs}')
    R = {'data': ix['data'], 'to': ix['to'], 'size': var[0], 'from': const[0]}
    env = {}
    for n, x in ix.get('const', []):
        if fld(fin, n) is not fld(me, n):
            raise Odd(f'field {n} changes')
        env[fld(me, n)] = x
        R['step'] = n
    return R, env


def cases(n, f, t, s):
    def base():
        return Lin().ge(f, ci(1)).ge(s, f).ge(t, s).ge(n, ci(0))
    one = ci(1)
    table = {
        'fits, longer sizes follow': [base().lt(s, n).lt(s, t)],
        'fits exactly, longer sizes follow': [base().eq(n, s).lt(s, t)],
        'fits, last size': [base().lt(s, n).eq(s, t)],
        'fits exactly, last size, more text': [base().eq(n, s).eq(s, t).lt(one, n)],
        'fits exactly, last size, last character': [base().eq(n, s).eq(s, t).eq(n, one)],
        'too long, shorter sizes at the next position': [base().eq(n, sub(s, one)).lt(f, s).lt(f, n)],
        'too long, nothing left': [base().eq(n, sub(s, one)).lt(f, s).eq(f, n)],
        'shortest size does not fit': [base().eq(s, f).lt(n, s)],
    }
    out = {}
    for k, cs_ in table.items():
        cs_ = [z for x in cs_ for z in (x.copy().eq(s, one), x.copy().lt(one, s))]
        cs_ = [z for x in cs_ for z in (x.copy().eq(n, ci(0)), x.copy().eq(n, one), x.copy().lt(one, n))]
        out[k] = [x for x in cs_ if not x.empty()]
    return out


class SliceView:
    def __init__(s, D):
        s.D, s.n = D, ln(D)

    def prefix(s, ctx, t, k, d=None):
        """is t the first k items (of what is left after d items)?"""
        d = d or ci(0)
        return ctx.same(t, slice_(s.D, d, add(d, k))) or (ctx.holds(eq(add(k, d), s.n)) and d is ci(0) and ctx.resolve(t) is s.D)

    def drop1(s, ctx, t):
        return ctx.same(t, slice_(s.D, ci(1), s.n)) or (ctx.holds(NOT(lt(ci(1), s.n))) and empty(ctx, t))

    def facts(s, ctx):
        return ctx


def empty(ctx, t):
    t = ctx.resolve(t)
    try:
        return ctx.holds(eq(ln(t), ci(0)))
    except Exception:
        return False


class StrView(SliceView):
    def __init__(s, D):
        s.D, s.n = D, nchars(D)

    def prefix(s, ctx, t, k, d=None):
        t = ctx.resolve(t)
        if d is not None and d is not ci(0):
            return False
        if ctx.holds(eq(k, s.n)):
            return t is s.D or t.op == 'slice' and t.a[0] is s.D and ctx.same(t.a[1], ci(0)) and ctx.same(t.a[2], ln(s.D))
        return t.op == 'slice' and t.a[0] is s.D and ctx.same(t.a[1], ci(0)) and t.a[2].op == 'charpos' and ctx.same(t.a[2].a[1], k)

    def drop1(s, ctx, t):
        t = ctx.resolve(t)
        if ctx.holds(NOT(lt(ci(1), s.n))):
            return t is EMPTY or t.op == 'slice' and t.a[0] is s.D and ctx.same(t.a[1], ln(s.D)) or t is cs('') or empty(ctx, t)
        return t.op == 'slice' and t.a[0] is s.D and t.a[1].op == 'charpos' and ctx.same(t.a[1].a[1], ci(1)) and ctx.same(t.a[2], ln(s.D))

    def facts(s, ctx):
        ctx.ge(ln(s.D), s.n)
        return ctx


PLAIN = {'agg', 'slice', 'fld', 'param', 'const', 'poly', 'charpos', 'len', 'chars', 'phi', 'b', 'pos', 'eqz', 'upd', 'empty', 'min', 'max', 'sym', 'self'}


# calls whose result is known not to be the text they are given (for some text)
CHANGES = ('next', 'trim', 'trim_start', 'trim_end', 'trim_left', 'trim_right', 'trim_matches', 'trim_end_matches', 'trim_start_matches')


def understood(*ts):
    """only data, sizes, character positions and comparisons of them"""
    for t in ts:
        for x in subterms(t):
            if x.op not in PLAIN and not (x.op == 'call' and x.a[0].split('::')[-1].split('<')[0] in CHANGES):
                return False
    return True


def transitions(c, key, o_new, rule, view_cls, charwise):
    """the body of next against the transition table of the n-gram enumeration"""
    o = c.summ(key)
    if o.error:
        return c.open(rule, o, o.error), None, None
    me = o.args[0]
    try:
        R, env = assign_roles(c, o, o_new)
        for nme, x in [(n_, env[fld(me, n_)]) for n_ in [R['step']]] if 'step' in R else []:
            if x is not ci(1):
                raise Wrong(f'positions advance by {short(x)} instead of one')
        D, f, t, s = (fld(me, R[k]) for k in ('data', 'from', 'to', 'size'))
        view = view_cls(D)
        norm = (lambda x: subst(x, env) if isinstance(x, T) else subst_guard(x, env))
        if charwise:
            norm = CharNorm(o, D, env, me)
            norm.roles = R
        ret = norm(o.ret)
        fin = final(o, me)
        data2, size2 = norm(fld(fin, R['data'])), norm(fld(fin, R['size']))
        for k in ('from', 'to'):
            if fld(fin, R[k]) is not fld(me, R[k]):
                raise Wrong(f'{k}_size changes while iterating')
    except Wrong as e:
        return c.bad(rule, o, str(e)), None, (e if isinstance(e, WrongCut) else None)
    except Odd as e:
        return c.open(rule, o, str(e)), None, None
    eager = None      # does next move on to the next position as soon as the longer sizes do not fit any more?
    table = cases(view.n, f, t, s)
    for name, ctxs in table.items():
        for ctx in ctxs:
            ctx = view.facts(ctx.copy())
            if ctx.empty():
                continue
            ctx = posfacts(view, ctx, ret, data2, size2)
            r, d2, s2 = ctx.resolve(ret), ctx.resolve(data2), ctx.resolve(size2)
            bad = None
            if name.startswith('fits'):
                if not (r.op == 'agg' and r.a[1] == 'Some' and view.prefix(ctx, r.a[2][0], s)):
                    bad = f'yields {short(r)} instead of the first {short(s)} items'
                stay = ctx.same(s2, add(s, ci(1))) and ctx.resolve(d2) is D
                move = ctx.same(s2, f) and view.drop1(ctx, d2)
                if name == 'fits, longer sizes follow':
                    okst = stay
                elif name == 'fits exactly, longer sizes follow':
                    okst = stay or move
                    eager = move and not stay
                else:
                    okst = move
                if not bad and not okst:
                    bad = f'goes on with size {short(s2)} of {short(d2)}'
            elif name.startswith('too long'):
                if eager:
                    c.ok(rule, o, name + ' (unreachable)')
                    continue
                if r.op == 'call' and r.a[0].split('::')[-1].split('<')[0] == 'next' and len(r.a[1]) == 1:
                    st = r.a[1][0]
                    x, y = ctx.resolve(norm(fld(st, R['size']))), ctx.resolve(norm(fld(st, R['data'])))
                    if not (ctx.same(x, f) and view.drop1(ctx, y)):
                        bad = f'continues with size {short(x)} of {short(y)}'
                elif name.endswith('nothing left'):
                    if not (r.op == 'agg' and r.a[1] == 'None'):
                        bad = f'yields {short(r)} although nothing is left'
                else:
                    if not (r.op == 'agg' and r.a[1] == 'Some' and view.prefix(ctx, r.a[2][0], f, ci(1))):
                        bad = f'yields {short(r)} instead of the first size at the next position'
                    elif not (view.drop1(ctx, d2) and ctx.same(s2, add(f, ci(1)))):
                        bad = f'goes on with size {short(s2)} of {short(d2)}'
            else:
                if not (r.op == 'agg' and r.a[1] == 'None'):
                    bad = f'yields {short(r)} although the text is too short'
            if bad:
                c.need(False, rule, o, f'{name}: {bad}', opaque=not understood(r, d2, s2))
            else:
                c.ok(rule, o, name)
    return (view, norm, table), o, R


def no_cut(c, key, o_new, rule, tr):
    """every slice of the iterator is inside the data and at character boundaries, in every reachable case"""
    got, o, R = tr
    if o is None:
        return
    view, norm, table = got
    me = o.args[0]
    D = fld(me, R['data'])
    sites = {}
    for e in o.effects:
        if e.op == 'panic' or e.op == 'strslice':
            sites.setdefault((e.op, e.sp), []).append(e)
    pan = [e for e in o.panics]
    for e in pan:
        st = 'ok'
        why = ''
        for name, ctxs in table.items():
            for ctx in ctxs:
                ctx = view.facts(ctx.copy())
                if ctx.empty():
                    continue
                g = b(norm(e.guard))
                ctx = posfacts(view, ctx, g)
                g = truth(ctx.resolve(g))
                d = ctx.decide(g)
                if d != FALSE:
                    st = 'bad' if understood(b(g)) else 'open'
                    why = f'{name}: {e.kind if hasattr(e, "kind") else e.op} panics if {short(g)}'
        c.ob(rule, o, st, why, e.sp)
    for e in o.effects:
        if e.op != 'strslice':
            continue
        st, why = 'ok', ''
        for name, ctxs in table.items():
            for ctx in ctxs:
                ctx = view.facts(ctx.copy())
                if ctx.empty():
                    continue
                g = b(norm(e.guard))
                ctx = posfacts(view, ctx, g, *[norm(x) for x in e.args[1:3]])
                if ctx.decide(truth(ctx.resolve(g))) == FALSE:
                    continue
                for x in e.args[1:3]:
                    x = ctx.resolve(norm(x))
                    okb = ctx.same(x, ci(0)) or x is ln(D) or x.op == 'charpos' and x.a[0] is D and ctx.holds(NOT(lt(view.n, x.a[1])))
                    if not okb:
                        st = 'bad' if understood(x) and x.op != 'phi' else 'open'
                        why = f'{name}: cut at {short(x)}, which need not be a character boundary'
        c.ob('cut-at-character-boundary', o, st, why, e.sp)


def posfacts(view, ctx, *ts):
    """character k starts at byte k or later (extended increasingly past the end), and before the end if there is one"""
    ctx = ctx.copy()
    ts = ts + tuple(ctx.resolve(t) for t in ts)
    for x in {y for t in ts for y in subterms(t)}:
        if x.op == 'charpos':
            ctx.ge(x, x.a[1])
            if ctx.holds(lt(x.a[1], view.n)):
                ctx.lt(x, ln(x.a[0]))
    return ctx


def iterators(c):
    ks = c.find('MultiShingles', 'next', 'Iterator')
    if not ks:
        raise Missing('Iterator for MultiShingles')
    out = []
    for k in ks:
        ty = c.P.fns[k]['implself']['a']
        t = [x for x in ty if x.get('k') not in ('region', 'lifetime')]
        isstr = any(x.get('k') == 'prim' and x.get('n') == 'str' or x.get('k') == 'str' for x in t)
        out.append((k, isstr))
    return out


def analysed(c, rule):
    o_new = c.summ(c.fn('MultiShingles', 'new'))
    for k, isstr in iterators(c):
        yield k, o_new, transitions(c, k, o_new, rule, StrView if isstr else SliceView, isstr)


def c19(c):
    for k, o_new, tr in analysed(c, 'next-enumerates-every-size-at-every-position'):
        pass
    tokenizers(c)


def sizes_ok(env):
    """documented arguments: shingle sizes from 1, from <= to"""
    n = {v.a[1]: x for v, x in env.items() if v.op == 'param'}
    return all(x >= 1 for x in n.values()) and not any(f in n and t in n and n[f] > n[t] for f in n for t in n if 'from' in str(f) and 'to' in str(t))


def c20(c):
    obs = c.obs
    n0 = len(obs)
    o_new = c.summ(c.fn('MultiShingles', 'new'))
    for k, isstr in iterators(c):
        keep = len(c.obs)
        tr = transitions(c, k, o_new, 'next-enumerates-every-size-at-every-position', StrView if isstr else SliceView, isstr)
        # the transition table (C19) also gives the invariant used here; a broken table leaves the panic sites undecided
        broken = [x for x in c.obs[keep:] if x.status != 'ok']
        del c.obs[keep:]
        if tr[1] is None:
            if tr[2] is not None:
                c.bad('cut-at-character-boundary', k, str(tr[2]))
            else:
                c.open('slices-stay-in-bounds', k, broken[0].detail if broken else '')
            continue
        no_cut(c, k, o_new, 'slices-stay-in-bounds', tr)
    for n in ('whitespace_split', 'whitespace_split_boxed', 'shingle_text', 'shingle_text_range', 'shingle_text_boxed', 'shingle_tokens'):
        for k in c.find('', n, mod='text'):
            o = c.summ(k)
            for e in o.panics:
                c.need(entails(e.guard, FALSE), 'tokenizer-does-not-panic', o, short(e.guard), e.sp, opaque=opaque_in(b(e.guard)))
            for e in o.effects:
                if e.op == 'strslice':
                    okc = all(x is ci(0) or x is ln(e.args[0]) for x in e.args[1:3])
                    tested = any(x.op == 'call' and x.a[0].endswith('is_char_boundary') for x in subterms(b(e.guard)))
                    c.need(okc, 'cut-at-character-boundary', o, f'{short(e.args[1])} .. {short(e.args[2])}', e.sp, opaque=opaque_in(*e.args[1:3]) or tested)
            underflows(c, o, 'tokenizer-does-not-panic', pre=sizes_ok)
            if not o.panics:
                c.ok('tokenizer-does-not-panic', o)
    # every closure and helper of the text module (iterator adaptors are lazy): panic sites
    for k, f in sorted(c.P.fns.items()):
        if '::text::' in f['key'] and f['kind'] == 'Closure' and 'tokenizers' in f['key']:
            o = c.summ(k)
            for e in o.panics:
                c.need(entails(e.guard, FALSE), 'tokenizer-does-not-panic', o, short(e.guard), e.sp, opaque=opaque_in(b(e.guard)))
            if not o.panics:
                c.ok('tokenizer-does-not-panic', o)


def unwrap_it(t):
    while t.op == 'agg' and t.a[0] in ('Box',):
        t = t.a[2][0]
    return t


def closure_key(c, t):
    return t.a[0] if t.op == 'clo' else None


def tokenizers(c):
    for n in ('whitespace_split', 'whitespace_split_boxed'):
        k = c.fn('', n, mod='text')
        o = c.summ(k)
        words(c, o)
    for n in ('shingle_text', 'shingle_text_boxed'):
        o = c.summ(c.fn('', n, mod='text'))
        t = o.ret
        text, size = o.args[:2]
        good = is_call(t, 'new') and 'Shingles' in t.a[0] and tuple(t.a[1]) == (text, size) or \
            t.op == 'agg' and t.a[0] == 'MultiShingles' and multi(c, t, text, size, size)
        c.need(good, 'shingles-of-the-given-size', o, short(t), opaque=opaque_in(t) or t.op not in ('call', 'agg'))
    o = c.summ(c.fn('', 'shingle_text_range', mod='text'))
    c.need(multi(c, o.ret, *o.args[:3]), 'shingles-of-the-given-range', o, short(o.ret), opaque=opaque_in(o.ret) or o.ret.op != 'agg')
    o = c.summ(c.fn('', 'shingle_tokens', mod='text'))
    tokens, size = o.args[:2]
    t = o.ret
    while t.op == 'it' and t.a[0] == 'seq':
        t = t.a[1]
    good = False
    if t.op == 'coll' and t.a[1] is EMPTY and len(t.a[2]) == 1:
        bs, g, e = t.a[2][0]
        if len(bs) == 1 and g.a[0] == TRUE and (is_call(e, 'join') and e.a[1][1] is cs('') or is_call(e, 'concat') and len(e.a[1]) == 1) and e.a[1][0].op == 'at':
            src = e.a[1][0].a[0]
            good = is_call(src, 'new') and 'Shingles' in src.a[0] and tuple(src.a[1]) == (tokens, size) and bs[0].a[1] is ln(src) and 'rev' not in bs[0].a[2] and e.a[1][0].a[1] is mk('bv', bs[0].a[0])
    drops = any(x.op == 'call' and x.a[0].split('::')[-1].split('<')[0] in DROPS or x.op == 'it' and x.a[0] in DROPS for x in subterms(o.ret))
    c.need(good, 'token-shingles-of-the-given-size', o, short(t), opaque=(opaque_in(t) or t.op != 'coll') and not drops)
    for k in c.find(None, 'as_shingles') + c.find('', 'as_shingles') + c.find('str', 'as_shingles'):
        o = c.summ(k)
        if len(o.args) == 3:
            c.need(multi(c, o.ret, *o.args[:3]), 'shingles-of-the-given-range', o, short(o.ret), opaque=opaque_in(o.ret))


def multi(c, t, data, f, to):
    """t is what MultiShingles::new(data, f, to) builds"""
    o = c.summ(c.fn('MultiShingles', 'new'))
    return t is subst(o.ret, dict(zip(o.args, (data, f, to)))) or (is_call(t, 'new') and 'MultiShingles' in t.a[0] and tuple(t.a[1]) == (data, f, to))


OTHER_SPLIT = ('split_whitespace', 'split_ascii_whitespace', 'lines', 'split_terminator', 'split_inclusive', 'splitn', 'rsplit', 'rsplitn', 'char_indices', 'chars')


def words(c, o):
    rule = 'words-are-maximal-runs'
    text = o.args[0]
    t = unwrap_it(o.ret)
    sp = filt = None
    if t.op == 'it' and t.a[0] == 'filter':
        filt, src = t.a[1], t.a[2]
        while src.op == 'it' and src.a[0] == 'seq':
            src = src.a[1]
        if is_call(src, 'split') and src.a[1][0] is text:
            sp = src.a[1][1]
    if sp is None:
        other = [x.a[0] for x in subterms(t) if x.op == 'call' and x.a[0].split('::')[-1].split('<')[0] in OTHER_SPLIT]
        unf = is_call(t.a[1] if t.op == 'it' and t.a[0] == 'seq' else t, 'split')
        if unf:
            return c.bad(rule, o, 'empty pieces are not filtered out')
        if other:
            return c.bad(rule, o, f'{other[0]} splits differently')
        return c.open(rule, o, short(t))
    ks = [closure_fn(c, x) for x in (sp, filt)]
    if None in ks:
        return c.open(rule, o, short(t))
    p, q = c.summ(ks[0]), c.summ(ks[1])
    ch, x = p.args[-1], q.args[-1]
    good, why = char_set(truth(p.ret), ch)
    c.need(good is True, 'split-at-ascii-whitespace-and-punctuation', p, f'{why}: {short(p.ret)}', opaque=good is None)
    g2 = truth(q.ret)
    w = pos(ln(x))
    good = entails(g2, w) and entails(w, g2)
    c.need(good, 'only-empty-pieces-are-dropped', q, short(q.ret), opaque=opaque_in(q.ret) or unknown_calls(q.ret))
    c.ok(rule, o)


PUNCT = {ord(x) for x in '!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~'}
SPACE = {9, 10, 12, 13, 32}
UP, LOW, DIG = set(range(65, 91)), set(range(97, 123)), set(range(48, 58))
CHARS = {   # members of the predicate among the ASCII characters; whether other characters can be members
    'is_ascii_punctuation': (PUNCT, False), 'is_ascii_whitespace': (SPACE, False), 'is_ascii_alphanumeric': (UP | LOW | DIG, False), 'is_ascii_alphabetic': (UP | LOW, False),
    'is_ascii_digit': (DIG, False), 'is_ascii_uppercase': (UP, False), 'is_ascii_lowercase': (LOW, False), 'is_ascii_control': (set(range(32)) | {127}, False),
    'is_ascii_graphic': (set(range(33, 127)), False), 'is_ascii_hexdigit': (DIG | set(range(65, 71)) | set(range(97, 103)), False), 'is_ascii': (set(range(128)), False),
    'is_whitespace': (SPACE | {11}, True), 'is_alphanumeric': (UP | LOW | DIG, True), 'is_alphabetic': (UP | LOW, True), 'is_numeric': (DIG, True), 'is_control': (set(range(32)) | {127}, True),
    'is_uppercase': (UP, True), 'is_lowercase': (LOW, True),
}


def char_atom(a, ch, code):
    """truth of an atom for one character (None: any character that is not ASCII): True, False, 'either' or None"""
    if a.op == 'call' and a.a[1] and a.a[1][-1] is ch:
        k = CHARS.get(a.a[0].split('::')[-1].split('<')[0])
        if k is None:
            return None
        return code in k[0] if code is not None else 'either' if k[1] else False
    if a.op in ('pos', 'eqz', 'eq') and ch in subterms(a):
        t = a.a[0] if a.op != 'eq' else sub(a.a[0], a.a[1])
        p = dict(to_poly(t))
        k = p.pop((), 0)
        if list(p) != [(ch,)]:
            return None
        m = p[(ch,)]
        if code is None:
            lo, hi = m * 128 + k, m * 0x10ffff + k
            if a.op == 'pos':
                return True if min(lo, hi) > 0 else False if max(lo, hi) <= 0 else 'either'
            return False if min(lo, hi) > 0 or max(lo, hi) < 0 else 'either'
        v = m * code + k
        return v > 0 if a.op == 'pos' else v == 0
    return None


def char_set(g, ch):
    """the set of characters a predicate accepts is the ASCII whitespace and punctuation: True, False (with a counterexample) or None"""
    unknown = False
    for code in list(range(128)) + [None]:
        want = code in PUNCT or code in SPACE
        gs = [g]
        for a in atoms_of(g):
            v = char_atom(a, ch, code)
            if v is None:
                unknown = True
                gs = [x for y in gs for x in (cofactor(y, a, True), cofactor(y, a, False))] if len(gs) < 64 else []
            elif v == 'either':
                gs = [x for y in gs for x in (cofactor(y, a, True), cofactor(y, a, False))]
            else:
                gs = [cofactor(y, a, v) for y in gs]
        if not unknown and (TRUE if want else FALSE) != gs[0] or not unknown and any(x != (TRUE if want else FALSE) for x in gs):
            return False, f'{"splits" if not want else "does not split"} at {repr(chr(code)) if code is not None else "characters that are not ASCII"}'
        if unknown and gs and all(x == (FALSE if want else TRUE) for x in gs):
            return False, f'{"splits" if not want else "does not split"} at {repr(chr(code)) if code is not None else "characters that are not ASCII"}'
    return (None, 'not understood') if unknown else (True, '')


KNOWN_CHAR = ('is_ascii_punctuation', 'is_ascii_whitespace', 'is_whitespace', 'is_alphanumeric', 'is_ascii_alphanumeric', 'is_ascii_digit', 'is_ascii_control',
              'is_alphabetic', 'is_ascii_alphabetic', 'is_ascii_graphic', 'is_numeric', 'is_control')


def unknown_calls(t):
    return any(x.op == 'call' and x.a[0].split('::')[-1].split('<')[0] not in KNOWN_CHAR for x in subterms(t))


def callg(t, name, ch):
    for x in subterms(t):
        if x.op == 'call' and x.a[0].split('::')[-1].split('<')[0] == name and x.a[1] and x.a[1][-1] is ch:
            return truth(x)
    return FALSE


DROPS = ('unique', 'dedup', 'skip', 'take', 'step_by', 'filter', 'skip_while', 'take_while', 'unique_by', 'dedup_by')


def closure_fn(c, t):
    if t.op == 'fnitem':
        import json
        k = json.loads(t.a[0]).get('key')
        return k if k in c.P.fns else None
    if t.op == 'clo':
        for y in t.a:
            if isinstance(y, str) and y in c.P.fns:
                return y
    return None
