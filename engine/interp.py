"""Gated value-flow analysis over dumped MIR.

One pass per function in reverse post-order; control-flow joins merge the abstract
stores (gated by ROBDD path conditions, no path enumeration); loops are summarised by
a fixpoint over the changed locations followed by recognition of the recurrence each
location obeys; local calls and closures are analysed in place, library calls through
the transfer functions in models.py; everything not understood becomes an opaque term.
Nothing of the analysed program is executed and no solver is involved.
"""
import json, re
from .terms import *
from . import terms as TT


class State:
    __slots__ = ('store', 'pc', 'facts')

    def __init__(s, store, pc, facts):
        s.store, s.pc, s.facts = store, pc, facts

    def copy(s, pc=None):
        return State(dict(s.store), s.pc if pc is None else pc, s.facts)


class Effect:
    def __init__(s, **k):
        s.__dict__.update(k)

    def __repr__(s):
        l = showloc(*s.loc) if s.loc else ''
        return f"{s.op} {l} ({', '.join(show(a) for a in s.args)}) if {showg(s.guard)} loops={s.loops} @{s.sp}"


class DriverFound(Exception):
    def __init__(s, loc, it):
        s.loc, s.it = loc, it


class Unsupported(Exception):
    pass


class LoopInfo:
    def __init__(s, L, count):
        s.L, s.count = L, count
        s.early = FALSE      # guard (over idx(L)) under which an iteration leaves the loop
        s.par = False
        s.src = None
        s.flags = ()
        s.mus = []


def mark_boxes(x, locals_):
    """moves of whole boxes (the box carries its current content with it)"""
    if isinstance(x, list):
        for y in x:
            mark_boxes(y, locals_)
    elif isinstance(x, dict):
        if x.get('op') == 'move' and 'place' in x:
            if not x['place']['p'] and (locals_[x['place']['l']].get('p') or '').endswith('boxed::Box'):
                x['box'] = True
            return
        for y in x.values():
            if isinstance(y, (list, dict)):
                mark_boxes(y, locals_)


class Fn:
    def __init__(s, j):
        s.j = j
        s.key, s.path, s.name = j['key'], j['path'], j['name']
        s.bbs = j['bbs']
        mark_boxes(s.bbs, j['locals'])
        n = len(s.bbs)
        s.succ = []
        for bb in s.bbs:
            s.succ.append(s._succ(bb['term']))
        # blocks from which a return is reachable
        pred = [[] for _ in range(n)]
        for i, ss in enumerate(s.succ):
            for t in ss:
                pred[t].append(i)
        live = set(i for i, bb in enumerate(s.bbs) if bb['term']['t'] == 'return')
        wl = list(live)
        while wl:
            x = wl.pop()
            for p in pred[x]:
                if p not in live:
                    live.add(p)
                    wl.append(p)
        s.live = live
        # blocks that only lead to an `unreachable` terminator
        s.unreach = set(i for i, bb in enumerate(s.bbs) if bb['term']['t'] in ('unreachable', 'stop'))
        ch = True
        while ch:
            ch = False
            for i in range(n):
                if i not in s.unreach and i not in live and s.succ[i] and all(t in s.unreach for t in s.succ[i]):
                    s.unreach.add(i)
                    ch = True
        # rpo over live blocks
        seen, order = set(), []

        def dfs(r):
            st = [(r, iter(s.succ[r]))]
            seen.add(r)
            while st:
                x, it = st[-1]
                for t in it:
                    if t in live and t not in seen:
                        seen.add(t)
                        st.append((t, iter(s.succ[t])))
                        break
                else:
                    order.append(x)
                    st.pop()
        if 0 in live:
            dfs(0)
        s.rpo = order[::-1]
        pos_ = {x: i for i, x in enumerate(s.rpo)}
        # dominators
        dom = {x: None for x in s.rpo}
        if s.rpo:
            dom[0] = 0
            ch = True
            while ch:
                ch = False
                for x in s.rpo[1:]:
                    ps = [p for p in pred[x] if p in dom and dom[p] is not None]
                    nd = ps[0]
                    for p in ps[1:]:
                        a, c = p, nd
                        while a != c:
                            while pos_[a] > pos_[c]:
                                a = dom[a]
                            while pos_[c] > pos_[a]:
                                c = dom[c]
                        nd = a
                    if dom[x] != nd:
                        dom[x] = nd
                        ch = True
        s.loops = {}

        def dominates(a, x):
            while True:
                if x == a:
                    return True
                if x == 0:
                    return False
                x = dom[x]
        for u in s.rpo:
            for h in s.succ[u]:
                if h in pos_ and pos_[h] <= pos_[u]:
                    if not dominates(h, u):
                        raise Unsupported('irreducible control flow in ' + s.path)
                    body = s.loops.setdefault(h, {h})
                    wl = [u]
                    while wl:
                        x = wl.pop()
                        if x in body:
                            continue
                        body.add(x)
                        wl.extend(p for p in pred[x] if p in pos_)
        s.pos = pos_

    def _succ(s, t):
        k = t['t']
        if k in ('goto', 'drop', 'assert'):
            return [t['to']]
        if k == 'switch':
            r = []
            for _, x in t['vals']:
                if x not in r:
                    r.append(x)
            if t['else'] is not None and t['else'] not in r:
                r.append(t['else'])
            return r
        if k == 'call':
            return [t['to']] if t.get('to') is not None else []
        return []


_UINT = {'u8', 'u16', 'u32', 'u64', 'u128', 'usize'}
_BITS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64,
         'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i128': 128, 'isize': 64, 'char': 32, 'bool': 1}


def strip_generics(p):
    out, d = [], 0
    i = 0
    while i < len(p):
        c = p[i]
        if c == '<':
            d += 1
        elif c == '>' and p[i - 1] != '-':
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return re.sub(r'(::)+', '::', ''.join(out)).strip(':')


class Program:
    def __init__(s, dirname, crates=('gaoya', 'pygaoya')):
        s.fns, s.adts, s.consts, s.impls = {}, {}, {}, []
        s.raw = {}
        for c in crates:
            d = json.load(open(f'{dirname}/{c}.json'))
            s.raw[c] = d
            for f in d['fns']:
                f['crate'] = c
                s.fns[f['key']] = f
            for a in d['adts']:
                a['crate'] = c
                s.adts[a['key']] = a
            for k in d['consts']:
                s.consts[k['key']] = k
            for i in d['impls']:
                i['crate'] = c
                s.impls.append(i)
        s._fn = {}

    def fn(s, key):
        f = s._fn.get(key)
        if f is None:
            f = s._fn[key] = Fn(s.fns[key])
        return f


def is_vecbox(t):
    """the allocation inside `vec![...]`, written once before it becomes the Vec"""
    return t.op == 'call' and t.a[0] == 'std::boxed::Box::new_uninit'


class Summary:
    pass


def ssum_here(g):
    return phi([(g, ci(1)), (NOT(g), ci(0))])


class InterpBase:
    def __init__(s, prog, anchors=()):
        s.prog = prog
        s.anchors = set(anchors)      # fn keys kept opaque
        s.effects = []
        s.loopstack = []              # (L, outer pc, outer facts)
        s.loops = {}
        s.fnstack = []
        s._ids = {}
        s._rids = []
        s.drv = []
        s.clo_env = {}
        s.depth = 0
        s.steps = 0
        s.analysed = set()
        s.opaque = {}
        s.callsites = 0
        s.muinit = {}                 # loop-carried value -> value before the loop
        s.narrow = []                 # arithmetic in integers narrower than 32 bits

    # ------------------------------------------------------------ ids
    def nid(s, key):
        i = s._ids.get(key)
        if i is None:
            i = s._ids[key] = len(s._ids) + 1
        return i

    # ------------------------------------------------------------ store
    def load(s, st, root, path):
        v = st.store.get(root)
        if v is None:
            v = root[1] if root[0] == 'V' else UNDEF
        for p in path:
            v = s.proj(v, p)
        return v

    def proj(s, v, p):
        if p[0] == 'f':
            return fld(v, p[1], p[2])
        if p[0] == 'at':
            return at(v, p[1])
        if p[0] == 'ent':
            return fld(get(v, p[1]), 0, 'Some')
        if p[0] == 'sub':
            return slice_(v, p[1], p[2])
        raise Unsupported(str(p))

    def put(s, v, path, val):
        if not path:
            return val
        p, rest = path[0], path[1:]
        if p[0] == 'f':
            return upd(v, p[1], p[2], s.put(fld(v, p[1], p[2]), rest, val))
        if p[0] == 'at':
            return upa(v, p[1], s.put(at(v, p[1]), rest, val))
        if p[0] == 'ent':
            nv = s.put(fld(get(v, p[1]), 0, 'Some'), rest, val)
            while v.op == 'mins' and v.a[1] is p[1]:
                v = v.a[0]
            return mk('mins', v, p[1], nv)
        if p[0] == 'sub':
            return mk('usub', v, p[1], p[2], s.put(slice_(v, p[1], p[2]), rest, val))
        raise Unsupported(str(p))

    def raw_set(s, st, root, path, val):
        base = st.store.get(root)
        if base is None:
            base = root[1] if root[0] == 'V' else UNDEF
        st.store[root] = s.put(base, path, val)

    def log_only(s, root, path):
        return root[0] == 'V' and any(p[0] in ('at', 'sub') for p in path)

    def write(s, st, root, path, val, op='write', args=None, sp=None):
        """assignment through a place; logs when it is visible to the caller"""
        if root[0] == 'V':
            s.log(st, op, (root, path), args if args is not None else (val,), sp)
        if s.log_only(root, path):
            return
        s.raw_set(st, root, path, val)

    def log(s, st, op, loc, args, sp=None, cond=TRUE, **kw):
        g = AND(s.outer(), st.pc, cond)
        if g == FALSE:
            return
        s.effects.append(Effect(op=op, loc=loc, args=tuple(args), guard=g, loops=tuple(x[0] for x in s.loopstack),
                                sp=sp or s.cursp, fn=s.fnstack[-1] if s.fnstack else '', stack=tuple(s.fnstack),
                                seq=len(s.effects), facts=st.facts, **kw))

    def outer(s):
        g = TRUE
        for x in s.loopstack:
            g = AND(g, x[1])
        return g

    cursp = ''

    def panic(s, st, kind, cond, sp=None, args=()):
        cond = s.simp(st, cond)
        if cond == FALSE:
            return
        s.log(st, 'panic', None, args, sp, cond, kind=kind, pcond=cond)
        st.facts = AND(st.facts, OR(NOT(st.pc), NOT(cond)))

    def simp(s, st, g):
        ctx = AND(st.facts, st.pc)
        if AND(ctx, g) == FALSE:
            return FALSE
        if AND(ctx, NOT(g)) == FALSE:
            return TRUE
        return g

    # ------------------------------------------------------------ joins
    def merge(s, sts):
        sts = [x for x in sts if x is not None and x.pc != FALSE]
        if not sts:
            return None
        if len(sts) == 1:
            return sts[0]
        pc = FALSE
        for x in sts:
            pc = OR(pc, x.pc)
        facts = FALSE
        for x in sts:
            facts = OR(facts, AND(x.facts, x.pc))
        facts = OR(facts, NOT(pc))
        # gates: a partition
        gates = []
        used = FALSE
        for i, x in enumerate(sts):
            if i == len(sts) - 1:
                g = NOT(used)
            else:
                g = AND(restrict(x.pc, AND(pc, NOT(used))), NOT(used))
            gates.append(g)
            used = OR(used, g)
        store = {}
        roots = {}
        for x in sts:
            for r in x.store:
                roots[r] = 1
        for r in roots:
            vals = []
            for g, x in zip(gates, sts):
                v = x.store.get(r)
                if v is None and r[0] == 'V':
                    v = r[1]
                if v is not None:
                    vals.append((g, v))
            v0 = vals[0][1]
            if all(v is v0 for _, v in vals):
                store[r] = v0
            else:
                store[r] = s.joinv(vals)
        return State(store, pc, facts)

    def joinv(s, vals):
        live = [(g, v) for g, v in vals if v is not UNDEF and g != FALSE]
        if not live:
            return UNDEF
        v0 = live[0][1]
        if all(v is v0 for _, v in live):
            return v0
        if len(live) < len(vals):
            return phi(live)
        ops = set(v.op for _, v in live)
        if ops == {'agg'} and len(set((v.a[0], v.a[1], len(v.a[2])) for _, v in live)) == 1:
            n = len(v0.a[2])
            return mk('agg', v0.a[0], v0.a[1], tuple(s.joinv([(g, v.a[2][i]) for g, v in live]) for i in range(n)))
        if 'upd' in ops:
            def ubase(t):
                while t.op == 'upd':
                    t = t.a[0]
                return t
            bases = set(ubase(v) for _, v in live)
            if len(bases) == 1:
                base = bases.pop()
                keys = set()
                for _, v in live:
                    while v.op == 'upd':
                        keys.add(v.a[1])
                        v = v.a[0]
                r = base
                for k in sorted(keys, key=lambda k: (k[0], k[1] or '')):
                    r = upd(r, k[0], k[1], s.joinv([(g, fld(v, k[0], k[1])) for g, v in live]))
                return r
        if 'coll' in ops:
            def split(v):
                return (v.a[1], v.a[2]) if v.op == 'coll' else (v, ())
            sp_ = [(g,) + split(v) for g, v in live]
            bases = set(x[1] for x in sp_)
            kinds = set(v.a[0] for _, v in live if v.op == 'coll')
            if len(bases) == 1 and len(kinds) == 1:
                pre = sp_[0][2]
                for _, _, gs in sp_[1:]:
                    n = 0
                    while n < len(pre) and n < len(gs) and pre[n] == gs[n]:
                        n += 1
                    pre = pre[:n]
                gens = list(pre)
                for g, _, gs in sp_:
                    for bs, c, e in gs[len(pre):]:
                        gens.append((bs, b(AND(c.a[0], g)), e))
                # the same element appended on several branches
                out = list(pre)
                for bs, c, e in gens[len(pre):]:
                    for i in range(len(pre), len(out)):
                        if out[i][0] == bs and out[i][2] is e:
                            out[i] = (bs, b(OR(out[i][1].a[0], c.a[0])), e)
                            break
                    else:
                        out.append((bs, c, e))
                return coll(kinds.pop(), bases.pop(), tuple(out))
        if ops <= {'upa'} or ('upa' in ops):
            def ab(t):
                return (t.a[0], t.a[1]) if t.op == 'upa' else (t, None)
            bs = set(ab(v)[0] for _, v in live)
            ix = set(ab(v)[1] for _, v in live) - {None}
            if len(bs) == 1 and len(ix) == 1:
                base, i = bs.pop(), ix.pop()
                return upa(base, i, s.joinv([(g, v.a[2] if v.op == 'upa' else at(base, i)) for g, v in live]))
        if 'mins' in ops:
            def mb(t):
                return (t.a[0], t.a[1]) if t.op == 'mins' else (t, None)
            bs = set(mb(v) for _, v in live)
            if len(bs) == 1 and ops == {'mins'}:
                base, k = bs.pop()
                return mk('mins', base, k, s.joinv([(g, v.a[2]) for g, v in live]))
        return phi(live)

    # ------------------------------------------------------------ places / operands
    def locs(s, st, frame, place):
        cur = [(TRUE, ('loc', frame, place['l']), ())]
        var = None
        for p in place['p']:
            if p == '*':
                nx = []
                for c, r, pa in cur:
                    v = s.load(st, r, pa)
                    for c2, leaf in parts_of(v):
                        if leaf.op == 'ref':
                            nx.append((AND(c, c2), leaf.a[0], leaf.a[1]))
                        else:
                            nx.append((AND(c, c2), ('V', leaf), ()))
                cur = nx
            elif isinstance(p, str):
                raise Unsupported('place projection')
            elif 'f' in p:
                cur = [(c, r, pa + (('f', p['f'], var),)) for c, r, pa in cur]
                var = None
            elif 'dc' in p:
                var = p['n']
            elif 'ix' in p:
                i = s.load(st, ('loc', frame, p['ix']), ())
                cur = [(c, r, pa + (('at', i),)) for c, r, pa in cur]
            elif 'cix' in p:
                nx = []
                for c, r, pa in cur:
                    i = ci(p['cix'])
                    if p['end']:
                        i = sub(ln(s.load(st, r, pa)), i)
                    nx.append((c, r, pa + (('at', i),)))
                cur = nx
            elif 'sub' in p:
                nx = []
                for c, r, pa in cur:
                    n = ln(s.load(st, r, pa))
                    hi = sub(n, ci(p['to'])) if p['end'] else ci(p['to'])
                    nx.append((c, r, pa + (('sub', ci(p['sub']), hi),)))
                cur = nx
            else:
                raise Unsupported('place projection ' + str(p))
        return cur

    def read(s, st, frame, place):
        ls = s.locs(st, frame, place)
        if len(ls) == 1:
            return s.load(st, ls[0][1], ls[0][2])
        return phi([(c, s.load(st, r, p)) for c, r, p in ls])

    def mkref(s, root, path):
        if root[0] == 'V' and not path:
            return root[1]
        return mk('ref', root, path)

    def assign(s, st, frame, place, val, sp=None):
        ls = s.locs(st, frame, place)
        for c, r, p in ls:
            if len(ls) > 1 and c != TRUE:
                old = s.load(st, r, p)
                s.write(st, r, p, phi([(c, val), (NOT(c), old)]), sp=sp)
            else:
                s.write(st, r, p, val, sp=sp)

    def const(s, o):
        if 'fn' in o:
            return mk('fnitem', json.dumps(o['fn'], sort_keys=True))
        v = o.get('val')
        t = o.get('ty') or {}
        if isinstance(v, dict):
            return s.cval(v, t)
        if 'sym' in o:
            r = mk('sym', str(o['sym']))
            if t.get('n') in _UINT:
                UNSIGNED.add(r)
            return r
        if t.get('k') == 'fndef':
            return mk('fnitem', json.dumps(t['f'], sort_keys=True))
        return mk('kconst', json.dumps({k: x for k, x in o.items() if k not in ('sp',)}, sort_keys=True)[:400])

    def cval(s, v, t):
        if 'int' in v:
            return ci(int(v['int']))
        if 'float' in v:
            return cf(float(v['float']))
        if 'bool' in v:
            return b(TRUE if v['bool'] else FALSE)
        if 'char' in v:
            return ci(ord(v['char']) if isinstance(v['char'], str) else int(v['char']))
        if 'str' in v:
            return cs(v['str'])
        if 'zst' in v:
            if t.get('k') == 'tuple':
                return UNIT
            if t.get('k') == 'fndef':
                return mk('fnitem', json.dumps(t['f'], sort_keys=True))
            if t.get('k') == 'closure':
                return mk('clo', t['key'], ())
            return agg(t.get('key', t.get('k', 'zst')), '', ())
        if 'static' in v:
            return mk('static', str(v['static']))
        if 'refto' in v:
            x = v['refto']
            return s.cval(x, {}) if isinstance(x, dict) else mk('kconst', json.dumps(v, sort_keys=True)[:200])
        return mk('kconst', json.dumps(v, sort_keys=True)[:400])

    def operand(s, st, frame, o):
        k = o['op']
        if k in ('copy', 'move'):
            v = s.read(st, frame, o['place'])
            if k == 'move' and o.get('box'):
                v = st.store.get(('V', v), v)
            return v
        if k == 'const':
            if 'promoted' in o and not (isinstance(o.get('val'), dict) and ('int' in o['val'] or 'str' in o['val'])):
                r = s.promoted(o)
                if r is not None:
                    return r
            return s.const(o)
        return mk('rtcheck')

    def promoted(s, o):
        key = o.get('pkey')
        f = s.prog.fns.get(key)
        if not f:
            return None
        pr = f.get('promoted') or []
        i = o['promoted']
        if i >= len(pr):
            return None
        body = dict(pr[i])
        body.setdefault('key', f'{key}#p{i}')
        body.setdefault('path', f['path'] + f'#promoted{i}')
        body.setdefault('name', 'promoted')
        try:
            F = s.prog._fn.get(body['key'])
            if F is None:
                F = s.prog._fn[body['key']] = Fn(body)
            st = State({}, TRUE, TRUE)
            r, st = s.run_fn(F, s.nid(('prom', key, i)), [], st, {})
            return s.deref_term(st, r)
        except (Unsupported, KeyError):
            return None

    def deref_term(s, st, t):
        if t is not None and t.op == 'ref':
            return s.load(st, t.a[0], t.a[1])
        return t

    # ------------------------------------------------------------ rvalues
    def rvalue(s, st, frame, rv, place, F):
        k = rv['r']
        if k == 'use':
            return s.operand(st, frame, rv['o'])
        if k == 'ref' or k == 'rawptr':
            m = rv.get('m')
            ls = s.locs(st, frame, rv['place'])
            if m and m != 'fake' or (k == 'rawptr' and m):
                return phi([(c, s.mkref(r, p)) for c, r, p in ls]) if len(ls) > 1 else s.mkref(ls[0][1], ls[0][2])
            return phi([(c, s.load(st, r, p)) for c, r, p in ls]) if len(ls) > 1 else s.load(st, ls[0][1], ls[0][2])
        if k == 'bin':
            x, y = s.operand(st, frame, rv['a']), s.operand(st, frame, rv['b'])
            if rv['op'] in ('Sub', 'SubUnchecked', 'SubWithOverflow') and (rv.get('ty') or {}).get('n') in _UINT and len(s.effects) < 4000:
                under_ = s.simp(st, pos(sub(y, x))) if x.op != 'b' and y.op != 'b' else FALSE
                if under_ != FALSE:
                    s.log(st, 'usub', None, (x, y), s.cursp, under_)
            return s.binop(rv['op'], x, y, rv.get('ty'))
        if k == 'un':
            x = s.operand(st, frame, rv['o'])
            if rv['op'] == 'Not':
                return notop(x, rv.get('ty'))
            if rv['op'] == 'Neg':
                return sub(ci(0), x) if x.op != 'const' or x.a[0] == 'int' else cf(-x.a[1])
            if rv['op'] == 'PtrMetadata':
                return ln(s.val(st, x))
            return mk('un', rv['op'], x)
        if k == 'cast':
            if rv['kind'] == 'BoxDerefTransmute':
                pl = rv['o']['place']
                base = {'l': pl['l'], 'p': [q for q in pl['p']]}
                while base['p'] and isinstance(base['p'][-1], dict) and 'f' in base['p'][-1]:
                    base['p'] = base['p'][:-1]
                return s.read(st, frame, base)
            return castop(rv['kind'], s.operand(st, frame, rv['o']), rv.get('from'), rv['ty'])
        if k == 'discr':
            v = s.read(st, frame, rv['place'])
            return mk('discr', v, tuple((n, int(x)) for n, x in rv['variants']))
        if k == 'agg':
            ops = [s.operand(st, frame, o) for o in rv['ops']]
            kk = rv['k']
            if kk == 'tuple':
                return agg('tuple', '', ops)
            if kk == 'array':
                return agg('array', '', ops)
            if kk == 'closure':
                t = mk('clo', rv['key'], tuple(ops))
                s.clo_env[t] = s.tyenv
                return t
            if kk == 'adt':
                name = rv['akey']
                n = name.split('::')[-1]
                if name.startswith(('core::option::Option', 'core::result::Result', 'core::cmp::Ordering',
                                    'core::ops::control_flow::ControlFlow')):
                    return agg(n, rv['variant'], ops)
                if name.startswith('core::ops::range::'):
                    return agg(n, '', ops)
                if n == 'Cow' and len(ops) == 1:
                    return s.val(st, ops[0])
                return agg(name, rv['variant'] if rv.get('enum') else '', ops)
            return mk('aggx', str(kk), tuple(ops))
        if k == 'repeat':
            n = rv['n']
            cnt = ci(int(n)) if str(n).isdigit() else mk('sym', str(n))
            UNSIGNED.add(cnt)
            return mk('rep', s.operand(st, frame, rv['o']), cnt)
        return mk('rvx', json.dumps(rv, sort_keys=True)[:120])

    def val(s, st, t):
        """the value behind a (possibly mutable) reference"""
        if t.op == 'ref':
            return s.load(st, t.a[0], t.a[1])
        if t.op == 'phi':
            return phi([(c.a[0], s.val(st, x)) for c, x in t.a])
        if ('V', t) in st.store:
            return st.store[('V', t)]
        return t

    def binop(s, op, x, y, ty):
        n = ty.get('n') if ty else None
        fl = n in ('f32', 'f64')
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if x.op == 'discr' and y.op == 'const' or y.op == 'discr' and x.op == 'const':
                d, c = (x, y) if x.op == 'discr' else (y, x)
                nm = [m for m, v in d.a[1] if v == c.a[1]]
                g = is_(d.a[0], nm[0]) if nm else FALSE
                return b(g if op == 'Eq' else NOT(g))
            if x.op == 'discr' and y.op == 'discr' and op in ('Eq', 'Ne'):
                g = eq(x.a[0], y.a[0])
                return b(g if op == 'Eq' else NOT(g))
            if op == 'Eq':
                g = feq(x, y) if fl else eq(x, y)
            elif op == 'Ne':
                g = NOT(feq(x, y) if fl else eq(x, y))
            elif op == 'Lt':
                g = lt(x, y, fl)
            elif op == 'Ge':
                g = NOT(lt(x, y, fl))
            elif op == 'Gt':
                g = lt(y, x, fl)
            else:
                g = NOT(lt(y, x, fl))
            return b(g)
        if n in ('u8', 'i8', 'u16', 'i16') and op[:3] in ('Add', 'Sub', 'Mul') and not (x.op == 'const' and y.op == 'const'):
            s.narrow.append((s.fnstack[-1] if s.fnstack else '', s.cursp, f'{op[:3]} in {n}'))
        return arith(op, x, y, fl, n)

    # ------------------------------------------------------------ functions
    def run_fn(s, F, frame, args, st, tyenv):
        s.steps += 1
        if s.steps > 200000:
            raise Unsupported('analysis budget exceeded')
        s.analysed.add(F.key)
        for i, a in enumerate(args):
            st.store[('loc', frame, i + 1)] = a
        old, s.tyenv = s.tyenv, tyenv
        s.fnstack.append(F.path)
        s.depth += 1
        try:
            outs = s.region(F, frame, None, 0, st, None)
        finally:
            s.depth -= 1
            s.fnstack.pop()
            s.tyenv = old
        res = s.merge([x for t, x in outs if t == 'ret'])
        if res is None:
            return None, None
        r = res.store.get(('loc', frame, 0), UNIT)
        for k in [k for k in res.store if k[0] == 'loc' and k[1] == frame]:
            if r.op == 'ref' and r.a[0] == k:
                continue
            del res.store[k]
        return r, res

    tyenv = {}

    def region(s, F, frame, blocks, entry, st, loop):
        pend = {entry: [st]}
        out = []

        def deliver(t, x):
            if x is None or x.pc == FALSE:
                return
            if t == 'ret':
                out.append((t, x))
            elif (blocks is None or t in blocks) and not (loop is not None and t == entry):
                pend.setdefault(t, []).append(x)
            else:
                out.append((t, x))
        for bb in F.rpo:
            if bb not in pend or (blocks is not None and bb not in blocks):
                continue
            cur = s.merge(pend.pop(bb))
            if cur is None:
                continue
            if bb in F.loops and not (loop is not None and bb == entry):
                for t, x in s.loop(F, frame, bb, cur):
                    deliver(t, x)
            else:
                for t, x in s.block(F, frame, bb, cur):
                    deliver(t, x)
        return out

    def block(s, F, frame, bi, st):
        bb = F.bbs[bi]
        for q in bb['st']:
            if q['s'] == 'assign':
                s.cursp = q.get('sp') or s.cursp
                v = s.rvalue(st, frame, q['rv'], q['place'], F)
                if v.op in ('fld', 'at', 'get', 'param', 'call', 'rem') and v not in UNSIGNED and not q['place']['p']:
                    t = F.j['locals'][q['place']['l']]
                    if t.get('n') in _UINT:
                        UNSIGNED.add(v)
                s.assign(st, frame, q['place'], v, q.get('sp'))
            elif q['s'] == 'setdiscr':
                raise Unsupported('set discriminant')
        t = bb['term']
        k = t['t']
        s.cursp = t.get('sp') or s.cursp
        if k == 'goto':
            return [(t['to'], st)]
        if k == 'return':
            return [('ret', st)]
        if k == 'drop':
            v = None
            pty = t.get('pty') or {}
            if 'Guard' in json.dumps(pty):
                v = s.read(st, frame, t['place'])
                s.log(st, 'drop', None, (v,), t.get('sp'), pty=pty)
            return [(t['to'], st)]
        if k == 'assert':
            c = truth(s.operand(st, frame, t['o']))
            if not t['exp']:
                c = NOT(c)
            s.panic(st, 'assert:' + str(t['msg']), NOT(c), t.get('sp'))
            return [(t['to'], st)]
        if k == 'switch':
            return s.switch(F, frame, t, st)
        if k == 'call':
            return s.call_term(F, frame, bi, t, st)
        return []

    def switch(s, F, frame, t, st):
        v = s.operand(st, frame, t['o'])
        conds = []
        rest = TRUE
        for val, to in t['vals']:
            val = int(val)
            if v.op == 'discr':
                nm = [n for n, x in v.a[1] if x == val]
                c = is_(v.a[0], nm[0]) if nm else FALSE
            elif v.op == 'b' or t['ty'].get('n') == 'bool':
                c = truth(v)
                c = NOT(c) if val == 0 else c
            elif v.op == 'phi' and any(x.op == 'discr' for _, x in v.a):
                c = FALSE
                for g, x in v.a:
                    if x.op == 'discr':
                        nm = [n for n, y in x.a[1] if y == val]
                        c = OR(c, AND(g.a[0], is_(x.a[0], nm[0]) if nm else FALSE))
                    else:
                        c = OR(c, AND(g.a[0], eq(x, ci(val))))
            else:
                c = eq(v, ci(val))
            conds.append((AND(c, rest), to))
            rest = AND(rest, NOT(c))
        conds.append((rest, t['else']))
        if v.op == 'discr' and len(conds) > 1 and t['else'] in F.unreach:
            # exhaustive match: the last arm takes what is left
            vals = conds[:-1]
            used = FALSE
            fixed = []
            for i, (c, to) in enumerate(vals):
                if i == len(vals) - 1 and not any(x == 'cmp' for x in ()):
                    c = NOT(used)
                fixed.append((c, to))
                used = OR(used, c)
            conds = fixed
        byt = {}
        for c, to in conds:
            if to is None:
                continue
            byt[to] = OR(byt.get(to, FALSE), c)
        out = []
        pan = FALSE
        live = []
        for to, c in byt.items():
            if to in F.unreach:
                continue
            c = s.simp(st, c)
            if c == FALSE:
                continue
            if to not in F.live:
                pan = OR(pan, c)
                s.panic_block(F, frame, to, st, c)
            else:
                live.append((to, c))
        if pan != FALSE:
            st.facts = AND(st.facts, OR(NOT(st.pc), NOT(pan)))
        if len(live) == 1:
            return [(live[0][0], st)]
        for i, (to, c) in enumerate(live):
            if i == len(live) - 1 and pan != FALSE:
                # the remaining paths do not panic: keep the gates a partition
                used = FALSE
                for _, c2 in live[:-1]:
                    used = OR(used, c2)
                c = NOT(used)
            out.append((to, st.copy(AND(st.pc, c))))
        return out

    def panic_block(s, F, frame, bi, st, cond):
        """describe the panic reached from block bi"""
        seen = set()
        kind, sp = 'panic', None
        x = bi
        while x is not None and x not in seen:
            seen.add(x)
            t = F.bbs[x]['term']
            if t['t'] == 'call':
                fn = (t['f'].get('fn') or {})
                sp = t.get('sp')
                kind = strip_generics(fn.get('path', '?')).split('::')[-1]
                if not t.get('to') or 'panic' in fn.get('path', ''):
                    break
            nx = F.succ[x]
            x = nx[0] if nx else None
        s.log(st, 'panic', None, (), sp or s.cursp, cond, kind=kind, pcond=cond)

    # ------------------------------------------------------------ loops
    def loop(s, F, frame, h, st):
        L = s.nid(('loop', frame, h) + tuple(x[0] for x in s.loopstack[-1:]))
        B = F.loops[h]

        def run_iter(x, mode):
            s.drv.append(mode)
            try:
                outs = s.region(F, frame, B, h, x, h)
            finally:
                s.drv.pop()
            cont = s.merge([y for t, y in outs if t == h])
            return cont, [(t, y) for t, y in outs if t != h]
        mark = len(s.effects)
        found = None
        det = {'mode': 'detect', 'start': dict(st.store), 'pc': st.pc, 'depth': len(s.loopstack)}
        try:
            run_iter(st.copy(), det)
        except DriverFound as d:
            found = d
        del s.effects[mark:]
        if found is not None:
            loc = found.loc

            def body(x, elem):
                return run_iter(x, {'mode': 'elem', 'loc': loc, 'val': some(elem), 'used': False})
            fin, exits = s.drive(found.it, ('for', L), st, body)
            if fin is not None:
                s.raw_set(fin, loc[0], loc[1], mk('it', 'done'))
                c, ex = run_iter(fin, {'mode': 'elem', 'loc': loc, 'val': NONE, 'used': False})
                exits = exits + ex
            return exits
        fin, exits = s.run_single(L, None, st, lambda x, i: run_iter(x, {'mode': 'none'}))
        return exits

    def diff(s, root, v0, v1, path, out):
        if v0 is v1:
            return
        if v0 is UNDEF or v1 is UNDEF:
            if v0 is not v1:
                out.append((root, path))
            return
        if v0.op == 'agg' and v1.op == 'agg' and v0.a[0] == v1.a[0] and v0.a[1] == v1.a[1] \
                and len(v0.a[2]) == len(v1.a[2]) and v0.a[0] != 'array':
            for i, (x, y) in enumerate(zip(v0.a[2], v1.a[2])):
                s.diff(root, x, y, path + (('f', i, v0.a[1] if v0.a[1] in ('Some', 'Ok', 'Err') else None),), out)
            return
        if v1.op == 'upd' or v0.op == 'upd':
            def ub(t):
                while t.op == 'upd':
                    t = t.a[0]
                return t
            if ub(v0) is ub(v1):
                keys = set()
                for t in (v0, v1):
                    while t.op == 'upd':
                        keys.add(t.a[1])
                        t = t.a[0]
                for k in sorted(keys, key=lambda k: (k[0], k[1] or '')):
                    s.diff(root, fld(v0, *k), fld(v1, *k), path + (('f',) + k,), out)
                return
        out.append((root, path))

    def run_single(s, L, count, st0, body, src=None, par=False, flags=()):
        """body(state, index) -> (continue-state | None, [(target, state)])"""
        info = LoopInfo(L, count)
        info.par, info.src, info.flags = par, src, flags
        s.loops[L] = info
        i = mk('idx', L)
        if count is ci(0):
            return st0, []
        mus = []          # [root, path, v0, mu, bound, tried]
        rounds = 0
        s.loopstack.append((L, st0.pc, st0.facts))
        try:
            while True:
                rounds += 1
                if rounds > 40:
                    raise Unsupported('loop fixpoint')
                mark = len(s.effects)
                st = st0.copy(TRUE)
                st.facts = AND(st0.facts, st0.pc)
                if count is not None:
                    st.facts = AND(st.facts, pos(sub(count, i)))
                for m in mus:
                    s.raw_set(st, m[0], m[1], m[4] if m[4] is not None else m[3])
                start = dict(st.store)
                cont, exits = body(st, i)
                new = []
                if cont is not None:
                    ch = []
                    for r in cont.store:
                        a0 = start.get(r)
                        if a0 is None:
                            if r[0] != 'V' or L in r[1].fr:
                                continue          # created by this very iteration
                            a0 = r[1]
                        s.diff(r, a0, cont.store[r], (), ch)
                    for r, p in ch:
                        cov = False
                        for m in mus:
                            if m[0] == r and p[:len(m[1])] == m[1]:
                                cov = True
                        if not cov:
                            new.append((r, p))
                if new:
                    for r, p in new:
                        mus = [m for m in mus if not (m[0] == r and m[1][:len(p)] == p)]
                        v0 = s.load(st0, r, p)
                        mu = mk('mu', L, s.nid(('mu', L, r, p)))
                        if nonneg_int(v0):
                            UNSIGNED.add(mu)
                        s.muinit[mu] = v0
                        mus.append([r, p, v0, mu, None, False])
                    del s.effects[mark:]
                    continue
                # closed forms inside the iteration
                again = False
                for m in mus:
                    if m[4] is None and not m[5] and cont is not None:
                        m[5] = True
                        u = s.load(cont, m[0], m[1])
                        bd_ = s.closed_form(u, m[3], m[2], L, i)
                        if bd_ is not None:
                            m[4] = bd_
                            again = True
                if again:
                    del s.effects[mark:]
                    for m in mus:
                        if m[4] is None:
                            m[5] = False
                    continue
                break
        finally:
            s.loopstack.pop()
        info.mus = [(m[0], m[1], m[2], m[3], m[4], s.load(cont, m[0], m[1]) if cont is not None else None) for m in mus]
        info.rounds = rounds
        # ------------------------------------------------ exits
        if count is None:
            normal = None
            for n, (t, x) in enumerate(exits):
                P = s.while_bound(x.pc, L, i)
                if P is not None:
                    normal = n
                    count = P
                    break
            info.count = count
            if normal is not None:
                more = pos(sub(count, i))
                nt, nst = exits.pop(normal)
                rest = []
                for t, x in exits:
                    x.pc = cof_true(x.pc, more)
                    if x.pc != FALSE:
                        rest.append((t, x))
                exits = rest
                # gates inside the continuing state no longer mention the loop test
                lat = {}
                for m, mi in zip(mus, info.mus):
                    u = mi[5]
                    lat[m[3]] = cof_term(u, more) if u is not None else None
                info.mus = [mi[:5] + (lat[mi[3]],) for mi in info.mus]
            else:
                nt, nst = None, None
        else:
            nt, nst = None, None
        us = {m[3]: mi[5] for m, mi in zip(mus, info.mus)}
        e = FALSE
        for t, x in exits:
            e = OR(e, x.pc)
        info.early = e
        if count is None:
            count = mk('cnt', L)
            info.count = count
        fl = tuple(flags)

        def at_count(N):
            env = {}
            for m in mus:
                if m[4] is not None:
                    continue
                env[m[3]] = s.exit_value(m, us, mus, L, i, N, fl)
            return env
        info.pre = {}
        for m in mus:
            u = us.get(m[3])
            if m[4] is None and u is not None and (nonneg_int(m[2]) or any(x.op == 'poly' for _, x in parts_of(u))):
                pre = s.before([m], us, mus, L, i, fl)
                if pre:
                    info.pre.update(pre)
        outs = []
        res = None
        if e != FALSE:
            # values carried around the loop, as they are before iteration i
            need = [m for m in mus if m[4] is None and any(m[3] in subterms(a) for a in atoms_of(e))]
            if need:
                pre = s.before(need, us, mus, L, i, fl)
                if pre is not None:
                    e = subst_guard(e, pre)
                    info.early = e
        if e != FALSE and len(exits) == 1 and (info.count.op != 'cnt' or nst is None):
            # leaves the loop at a fixed index: the loop is just shorter
            P = s.while_bound(e, L, i)
            x = exits[0][1]
            if P is not None and nonneg(P) and all(s.load(x, m[0], m[1]) is (m[4] if m[4] is not None else m[3]) for m in mus):
                if count.op == 'cnt':
                    count, cut = P, TRUE
                else:
                    full, count = count, minmax('min', count, P)
                    cut = pos(sub(full, P))
                info.count, info.early = count, FALSE
                env = at_count(count)
                env2 = dict(env)
                env2[i] = count
                t = exits[0][0]
                stx = State({}, AND(st0.pc, cut), st0.facts)
                for r, v in x.store.items():
                    if r[0] == 'V' and L in r[1].fr:
                        r = ('V', subst(r[1], env2))
                    stx.store[r] = subst(v, env2) if L in v.fr else v
                outs.append((t, stx))
                if nst is not None:
                    sty = State({}, AND(st0.pc, NOT(cut)), st0.facts)
                    for r, v in nst.store.items():
                        if r[0] == 'V' and L in r[1].fr:
                            continue
                        sty.store[r] = subst(v, env2) if L in v.fr else v
                    sty.facts = drop_loop(st0.facts, L)
                    outs.append((nt, sty))
                elif cut != TRUE:
                    res = st0.copy(AND(st0.pc, NOT(cut)))
                    for m in mus:
                        s.raw_set(res, m[0], m[1], subst(m[4], {i: count}) if m[4] is not None else env[m[3]])
                return res, outs
        k = 1 + max(bdd_bv(e), count.bv)
        bd = binder(k, count, fl)
        ec = subst_guard(e, {i: mk('bv', k)}) if e != FALSE else FALSE
        # the exit condition may depend on values carried around the loop
        e_open = any(x.fr and L in x.fr for x in atoms_of(ec)) if ec != FALSE else False
        if e_open:
            left = atom(mk('leaves', L, bd))
        else:
            left = exists(bd, ec) if ec != FALSE else FALSE
        if cont is not None or nst is not None or not exits:
            env = at_count(count)
            if nst is not None:
                base = nst
                env2 = dict(env)
                env2[i] = count
                stx = State({}, AND(st0.pc, NOT(left)), st0.facts)
                for r, v in base.store.items():
                    if r[0] == 'V' and L in r[1].fr:
                        continue
                    stx.store[r] = subst(v, env2) if L in v.fr else v
                # the loop test itself ended the loop
                stx.facts = drop_loop(AND(st0.facts, NOT(left)), L)
                outs.append((nt, stx))
            elif info.count.op != 'cnt' or not exits:
                res = st0.copy(AND(st0.pc, NOT(left)))
                for m in mus:
                    if m[4] is not None:
                        v = subst(m[4], {i: count})
                    else:
                        v = env[m[3]]
                    s.raw_set(res, m[0], m[1], v)
                if cont is not None and exits == []:
                    fx = cont.facts
                    if L not in bdd_fr(fx):
                        res.facts = AND(res.facts, OR(NOT(st0.pc), fx)) if False else res.facts
        if exits:
            first = mk('first', bd, b(ec)) if not e_open else mk('firsto', L)
            if info.count.op == 'cnt':
                left = TRUE
            env = at_count(first)
            env2 = dict(env)
            env2[i] = first
            for t, x in exits:
                stx = State({}, AND(st0.pc, left), st0.facts)
                if len(exits) > 1:
                    stx.pc = AND(stx.pc, subst_guard(x.pc, env2))
                for r, v in x.store.items():
                    if r[0] == 'V' and L in r[1].fr:
                        r = ('V', subst(r[1], env2))
                    stx.store[r] = subst(v, env2) if L in v.fr else v
                outs.append((t, stx))
        return res, outs

    def while_bound(s, pc, L, i):
        """exit guard  !(P - idx > 0)  ->  P"""
        ats = atoms_of(pc)
        if len(ats) != 1:
            return None
        t = ats[0]
        neg = pc != atom(t)
        if t.op == 'pos':
            p = to_poly(t.a[0])
            if not neg:      # leaves while (t>0): continue iff 1 - t > 0
                p = padd({(): 1}, p, -1)
        elif t.op == 'eqz' and not neg:      # leaves when x == 0 (counting down by one / i != n)
            p = to_poly(t.a[0])
            if p.get((i,), 0) == 1:
                p = {m: -c for m, c in p.items()}
        else:
            return None
        k = -p.get((i,), 0)
        if k < 1 or k > 1 and t.op == 'eqz':
            return None
        q = {m: c for m, c in p.items() if m != (i,)}
        P = from_poly(q)
        if L in P.fr:
            return None
        if k > 1:
            # leaves when P - k*i <= 0: after ceil(P/k) rounds
            P = add(P, ci(k - 1))
            return div(P, ci(k)) if nonneg(P) else None
        return P

    def closed_form(s, u, mu, v0, L, i):
        if u is mu or mu not in subterms(u):
            return None
        d = sub(u, mu) if u.op in ('poly', 'mu') or u.op == 'phi' else None
        if u.op == 'poly':
            if L not in d.fr:
                return add(v0, mul(d, i))
            return None
        if u.op in ('shr', 'shl') and u.a[0] is mu and L not in u.a[1].fr:
            return (shr if u.op == 'shr' else shl)(v0, mul(u.a[1], i))
        return None

    def before(s, need, us, mus, L, i, fl):
        """values of carried locations before iteration i, when each obeys a recurrence of its own"""
        env = {}
        for x in need:
            o = x[3]
            uo = us.get(o)
            if uo is None:
                return None
            so = subterms(uo)
            if any(y[3] in so for y in mus if y[4] is None and y[3] is not o):
                return None
            if uo is o:
                env[o] = x[2]
                continue

            def bdi(*ts):
                k = 1
                for t in ts:
                    k = max(k, (bdd_bv(t) if isinstance(t, int) else t.bv) + 1)
                return binder(k, i, fl), {i: mk('bv', k)}
            v = s.recur(uo, o, x[2], L, i, i, bdi, fl)
            if v is None:
                return None
            env[o] = v
        return env

    def exit_value(s, m, us, mus, L, i, N, fl):
        root, path, v0, mu = m[0], m[1], m[2], m[3]
        u = us.get(mu)
        if u is None or u is mu:
            return v0
        others = [x[3] for x in mus if x[4] is None and x[3] is not mu]

        def bdr(*ts):
            k = 1
            for t in ts:
                k = max(k, (bdd_bv(t) if isinstance(t, int) else t.bv) + 1)
            k = max(k, N.bv + 1)
            return binder(k, N, fl), {i: mk('bv', k)}
        st = subterms(u)
        free = not any(o in st for o in others)
        if free:
            r = s.recur(u, mu, v0, L, i, N, bdr, fl)
            if r is not None:
                return r
        # carried values that do not depend on each other: use their value before iteration i
        if not free:
            env = s.before([x for x in mus if x[4] is None and x[3] is not mu and x[3] in st], us, mus, L, i, fl)
            if env is not None:
                u2 = subst(u, env)
                r = s.recur(u2, mu, v0, L, i, N, bdr, fl)
                if r is not None:
                    return r
        # a system of recurrences, kept as is
        need, todo = [], [mu]
        while todo:
            x = todo.pop(0)
            if x in need:
                continue
            need.append(x)
            if us.get(x) is None:
                continue
            ss = subterms(us[x])
            todo += [o[3] for o in mus if o[4] is None and o[3] in ss]
        v0s = {x[3]: x[2] for x in mus}
        ts = [us[x] for x in need if us.get(x) is not None]
        bd, env = bdr(*ts)
        env = dict(env)
        for n, x in enumerate(need):
            env[x] = mk('mv', bd.a[0], n)
        return mk('rec', bd, tuple(v0s[x] for x in need), tuple(subst(us[x], env) if us.get(x) is not None else UNDEF for x in need))

    def capped(s, u, mu, v0, bdr):
        """elements whose adding depends on what was added before: the tests on that become atoms of their own"""
        gens = []
        for n, (bs, g, e) in enumerate(u.a[2]):
            if mu in subterms((bs, e)):
                return None
            h = g.a[0]
            bd, env = bdr(g, e, *bs)
            h = subst_guard(h, env)
            for a in atoms_of(h):
                if mu not in subterms(a):
                    continue
                if u.a[0] == 'set' and a.op == 'has' and a.a[0] is mu and a.a[1] is subst(e, env):
                    h = cofactor(h, a, False)
                    continue
                x = a.a[0] if a.op == 'pos' else None
                k = add(x, mk('len', mu)) if x is not None else None
                if k is not None and k.op == 'const' and k.a[1] > 0:
                    y = mk('fewer', k)           # fewer than k so far
                elif x is not None and sub(x, mk('len', mu)).op == 'const' and sub(x, mk('len', mu)).a[1] < 0:
                    y = mk('more', sub(x, mk('len', mu)))
                else:
                    y = mk('unk', 'sofar', subst(a, {mu: mk('sofar')}), mk('bv', bd.a[0]), n)
                h = OR(AND(atom(y), cofactor(h, a, True)), AND(NOT(atom(y)), cofactor(h, a, False)))
            gens.append(((bd,) + tuple(subst(x, env) for x in bs), b(h), subst(e, env)))
        return coll(u.a[0], v0, tuple(gens))

    def increment(s, u, mu):
        """d with u = mu + d, d not depending on mu"""
        ds = []
        for c, x in parts_of(u):
            if any(mu in subterms(a) for a in atoms_of(c)) or x.op not in ('poly', 'mu', 'const', 'param'):
                return None
            p = to_poly(x)
            own = [(m, k) for m, k in p.items() if any(mu in subterms(y) for y in m)]
            if len(own) != 1 or own[0][1] != 1 or len(own[0][0]) != 1:
                return None
            y = own[0][0][0]
            rest = from_poly({m: k for m, k in p.items() if m != own[0][0]})
            if y is mu:
                ds.append((c, rest))
            elif y.op == 'phi' and x.op == 'poly':
                d = s.increment(y, mu)
                if d is None:
                    return None
                ds.append((c, add(d, rest)))
            else:
                return None
        return phi(ds) if ds else None

    def recur(s, u, mu, v0, L, i, N, bdr, fl):
        # additive
        d = s.increment(u, mu)
        if d is not None:
            bd, env = bdr(d)
            return add(v0, ssum(bd, TRUE, subst(d, env)))
        if u.op == 'wadd' and mu in u.a:
            d = u.a[0] if u.a[1] is mu else u.a[1]      # a counter too wide to wrap (narrow ones are reported)
            if mu not in subterms(d):
                bd, env = bdr(d)
                return add(v0, ssum(bd, TRUE, subst(d, env)))
        # boolean flag
        if u.op == 'b':
            at_ = mu
            u1, u0 = cofactor(u.a[0], at_, True), cofactor(u.a[0], at_, False)
            dep = lambda g: any(mu in subterms(a) for a in atoms_of(g))
            if not dep(u1) and not dep(u0):
                if u1 == TRUE:
                    bd, env = bdr(u0)
                    return b(OR(truth(v0), exists(bd, subst_guard(u0, env))))
                if u0 == FALSE:
                    bd, env = bdr(u1)
                    return b(AND(truth(v0), NOT(exists(bd, subst_guard(NOT(u1), env)))))
        # append
        if u.op == 'coll' and u.a[0] == 'vec' and u.a[1] is mu and mu in subterms(tuple(e for _, _, e in u.a[2])) and all(not bs for bs, _, _ in u.a[2]):
            # elements that mention how many were appended before
            gs = [g for _, g, _ in u.a[2]]
            if not any(mu in subterms(g) for g in gs):
                k = 1 + max([i.bv] + [g.bv for g in gs])
                bd_ = binder(k, i, fl)
                n = ln(v0)
                for g in gs:
                    n = add(n, ssum(bd_, subst_guard(g.a[0], {i: mk('bv', k)}), ci(1)))
                gens = []
                for bs, g, e in u.a[2]:
                    gens.append((bs, g, subst(e, {mk('len', mu): n})))
                    n = add(n, ssum_here(g.a[0]))
                u = mk('coll', u.a[0], mu, tuple(gens))
        if u.op == 'coll' and u.a[1] is mu:
            gens = []
            okk = True
            for bs, g, e in u.a[2]:
                ss = subterms((bs, g, e))
                if mu in ss:
                    okk = False
                    break
                bd, env = bdr(g, e, *bs)
                gens.append(((bd,) + tuple(subst(x, env) for x in bs), subst(g, env), subst(e, env)))
            if okk:
                return coll(u.a[0], v0, tuple(gens))
            r = s.capped(u, mu, v0, bdr)
            if r is not None:
                return r
        # guarded updates of the carried value
        parts = parts_of(u)
        keep = FALSE
        act = []
        for c, x in parts:
            if x is mu:
                keep = OR(keep, c)
            else:
                act.append((c, x))
        if len(act) == 1:
            c, x = act[0]
            csub = set()
            for a in atoms_of(c):
                csub |= subterms(a)
            # min / max
            if x.op in ('min', 'max') and mu in x.a and mu not in csub:
                y = x.a[1] if x.a[0] is mu else x.a[0]
                if mu not in subterms(y):
                    bd, env = bdr(b(c), y)
                    return mk('over', x.op, bd, subst(b(c), env), subst(y, env), v0)
            if mu not in subterms(x):
                for name, strict, loose in (('min', lambda y: lt(y, mu), lambda y: NOT(lt(mu, y))),
                                            ('max', lambda y: lt(mu, y), lambda y: NOT(lt(y, mu)))):
                    for f in (strict, loose):
                        a = f(x)
                        if a > 1 and implies(c, a):
                            g = restrict(c, a)
                            if AND(g, a) == c and not any(mu in subterms(z) for z in atoms_of(g)):
                                bd, env = bdr(b(g), x)
                                return mk('over', name, bd, subst(b(g), env), subst(x, env), v0)
                    for f in (lambda y: flt(y, mu) if name == 'min' else flt(mu, y),
                              lambda y: NOT(flt(mu, y)) if name == 'min' else NOT(flt(y, mu))):
                        a = f(x)
                        if a > 1 and implies(c, a):
                            g = restrict(c, a)
                            if AND(g, a) == c and not any(mu in subterms(z) for z in atoms_of(g)):
                                bd, env = bdr(b(g), x)
                                return mk('over', name, bd, subst(b(g), env), subst(x, env), v0)
            for o, nm in (('bitor', 'or'), ('bitxor', 'xor'), ('bitand', 'and')):
                if x.op == o and mu in x.a and mu not in csub:
                    y = x.a[1] if x.a[0] is mu else x.a[0]
                    if mu not in subterms(y):
                        bd, env = bdr(b(c), y)
                        return mk('over', nm, bd, subst(b(c), env), subst(y, env), v0)
            if x.op in ('fadd',) and mu in x.a and mu not in csub:
                y = x.a[1] if x.a[0] is mu else x.a[0]
                if mu not in subterms(y):
                    bd, env = bdr(b(c), y)
                    return mk('over', 'fsum', bd, subst(b(c), env), subst(y, env), v0)
            # map insertion
            if x.op == 'mins' and x.a[0] is mu and mu not in csub and mu not in subterms(x.a[1]):
                key, v = x.a[1], x.a[2]
                if mu not in subterms(v):
                    bd, env = bdr(b(c), key, v)
                    return mk('mapgen', v0, bd, subst(b(c), env), subst(key, env), subst(v, env))
                cnt = count_map(mu, key, v)
                if cnt is not None:
                    bd, env = bdr(b(c), key)
                    return mk('cntmap', v0, bd, subst(b(c), env), subst(key, env), cnt)
            if x.op == 'mrem' and x.a[0] is mu and mu not in csub and mu not in subterms(x.a[1]):
                bd, env = bdr(b(c), x.a[1])
                return mk('mapdel', v0, bd, subst(b(c), env), subst(x.a[1], env))
            # last assignment
            if mu not in subterms(x) and mu not in csub:
                if c == TRUE:
                    r = subst(x, {i: sub(N, ci(1))})
                    g = pos(N)
                    return phi([(g, r), (NOT(g), v0)])
                bd, env = bdr(b(c))
                g = exists(bd, subst_guard(c, env))
                return phi([(g, subst(x, {i: last(bd, subst(b(c), env).a[0])})), (NOT(g), v0)])
        # pointwise
        if u.op == 'upa' and u.a[0] is mu and u.a[1] is i:
            X = mk('at', mu, i)
            ph = mk('ph', 0)
            f = subst(u.a[2], {X: ph})
            if mu not in subterms(f):
                bd, env = bdr(f)
                return mk('pw', bd, v0, mk('bv', bd.a[0]), subst(f, env), ph)
        # pointwise counting: every element gets its own running total
        if u.op == 'pw' and u.a[1] is mu and u.a[2] is mk('bv', u.a[0].a[0]) and mu not in subterms(u.a[3]):
            b1, _, bv1, val, ph = u.a
            cnt1 = subst(b1.a[1], {mk('len', mu): ln(v0)})
            ds, okd = [], mu not in subterms(cnt1)
            for c, x in parts_of(val):
                d = sub(x, ph)
                if ph in subterms(d) or any(ph in subterms(a) for a in atoms_of(c)):
                    okd = False
                    break
                ds.append((c, d))
            if okd and cnt1 is ln(v0):
                tmp = mk('param', -99, 'elem')
                d = subst(phi(ds), {bv1: tmp})
                bd, env = bdr(d)
                tot = ssum(bd, TRUE, subst(d, env))
                k = max(tot.bv, cnt1.bv, N.bv) + 1
                return mk('pw', binder(k, cnt1, b1.a[2]), v0, mk('bv', k), add(ph, subst(tot, {tmp: mk('bv', k)})), ph)
            if cnt1 is ln(v0) and mu not in subterms(cnt1):
                # any other recurrence of one element on its own
                tmp, acc, e0 = mk('param', -99, 'elem'), mk('param', -98, 'acc'), mk('param', -97, 'elem0')
                r = s.recur(subst(val, {ph: acc, bv1: tmp}), acc, e0, L, i, N, bdr, fl)
                if r is not None and acc not in subterms(r) and i not in subterms(r):
                    k = max(r.bv, cnt1.bv, N.bv) + 1
                    return mk('pw', binder(k, cnt1, b1.a[2]), v0, mk('bv', k), subst(r, {tmp: mk('bv', k), e0: ph}), ph)
        # conditional pointwise (phi of upa handled by joinv); conditional append to map of collections etc.
        return None

    # ------------------------------------------------------------ calls
    def call_term(s, F, frame, bi, t, st):
        sp = t.get('sp')
        s.callsites += 1
        args = [s.operand(st, frame, a) for a in t['args']]
        fo = t['f']
        fn = fo.get('fn')
        site = (frame, bi)
        atys = t.get('atys') or []
        dty = t.get('dty')
        if fn is None:
            f = s.operand(st, frame, fo)
            st, r = s.call_value(st, f, args, site)
        else:
            st, r = s.call_fn(st, fn, args, site, atys, dty)
        if st is None or r is None:
            return []
        if t.get('to') is None:
            return []
        s.cursp = sp or s.cursp
        if r.op in ('fld', 'at', 'get', 'call', 'param') and (dty or {}).get('n') in _UINT:
            UNSIGNED.add(r)
        s.assign(st, frame, t['dest'], r, sp)
        return [(t['to'], st)]

    def sub_ty(s, t):
        env = s.tyenv
        if not env or not isinstance(t, dict):
            return t
        k = t.get('k')
        if k == 'param':
            return env.get(t['n'], t)
        r = dict(t)
        if 'a' in r and isinstance(r['a'], list):
            r['a'] = [s.sub_ty(x) for x in r['a']]
        if 't' in r:
            r['t'] = s.sub_ty(r['t'])
        if k == 'fndef':
            f = dict(r['f'])
            f['args'] = [s.sub_ty(x) for x in f['args']]
            r['f'] = f
        return r

    def resolve(s, fn):
        """(local fn key, type args) or None"""
        r = fn.get('res')
        if r and r['key'] in s.prog.fns:
            return r['key'], [s.sub_ty(x) for x in r['args']]
        if not fn.get('trait'):
            if fn['key'] in s.prog.fns:
                return fn['key'], [s.sub_ty(x) for x in fn['args']]
            return None
        args = [s.sub_ty(x) for x in fn['args']]
        if args and not (args[0].get('k') == 'param') and fn.get('trait'):
            self_t = args[0]
            while self_t.get('k') == 'ref':
                self_t = self_t['t']
            for im in s.prog.impls:
                if im.get('trait') == fn['trait'] or (im.get('trait') or '').split('<')[0] == fn['trait']:
                    env = {}
                    if unify(im['self'], self_t, env):
                        for nm, key, kd in im['items']:
                            if nm == fn['name'] and key in s.prog.fns:
                                g = s.prog.fns[key].get('generics') or []
                                return key, [env.get(x, {'k': 'param', 'n': x}) for x in g]
        if fn['key'] in s.prog.fns and not s.abstract_trait(fn):
            # provided method of a local trait
            if args and args[0].get('k') == 'param' or True:
                return fn['key'], args
        return None

    def abstract_trait(s, fn):
        return False

    def call_fn(s, st, fn, args, site, atys=(), dty=None):
        from . import models
        res = None if fn['name'] in ('call', 'call_mut', 'call_once') and (fn.get('trait') or '').split('::')[-1] in ('Fn', 'FnMut', 'FnOnce') else s.resolve(fn)
        if res is not None:
            key, targs = res
            if key not in s.anchors and not s.in_stack(key) and s.depth < 40:
                return s.inline(st, key, targs, args, site)
            r = mk('call', s.prog.fns[key]['path'], tuple(s.val(st, a) for a in args))
            return s.opaque_call(st, r, args, fn, site)
        return models.call(s, st, fn, args, site, atys, dty)

    def in_stack(s, key):
        return s.prog.fns[key]['path'] in s.fnstack

    def inline(s, st, key, targs, args, site):
        F = s.prog.fn(key)
        g = F.j.get('generics') or []
        env = {n: t for n, t in zip(g, targs) if not (t.get('k') == 'param' and t.get('n') == n)}
        frame = s.nid(('frame', site, key) + tuple(x[0] for x in s.loopstack[-1:]))
        r, st2 = s.run_fn(F, frame, args, st, env)
        return st2, r

    def opaque_call(s, st, r, args, fn=None, site=None):
        nm = strip_generics(fn['path']) if fn else '?'
        s.opaque[nm] = s.opaque.get(nm, 0) + 1
        s.log(st, 'call', None, (r,), None, callee=nm, targs=[s.sub_ty(t) for t in (fn or {}).get('args') or []])
        for n, a in enumerate(args):
            for c, leaf in parts_of(a):
                if leaf.op == 'ref':
                    s.write(st, leaf.a[0], leaf.a[1], mk('out', r, n), op='havoc', args=(r,))
        return st, r

    def call_value(s, st, f, args, site):
        """call a closure / fn item / unknown callable with untupled args"""
        if f.op == 'ref':
            f = s.load(st, f.a[0], f.a[1])
        if f.op == 'phi':
            outs = []
            for c, x in f.a:
                g = AND(st.pc, c.a[0])
                if g == FALSE:
                    continue
                s2, r = s.call_value(st.copy(g), x, args, site)
                if s2 is not None:
                    s2.store[('loc', 'cv', site)] = r
                    outs.append(s2)
            m = s.merge(outs)
            if m is None:
                return None, None
            return m, m.store.pop(('loc', 'cv', site))
        if f.op == 'clo':
            key = f.a[0]
            F = s.prog.fn(key) if key in s.prog.fns else None
            if F is not None and s.fnstack.count(F.path) < 2:
                frame = s.nid(('clo', site, key) + tuple(x[0] for x in s.loopstack[-1:]))
                r, st2 = s.run_fn(F, frame, [f] + list(args), st, s.clo_env.get(f, {}))
                return st2, r
        if f.op == 'fnitem':
            fn = json.loads(f.a[0])
            return s.call_fn(st, fn, list(args), (site, 'fi'))
        if f.op == 'ctor':
            pass
        r = mk('call', 'callable', (f,) + tuple(s.val(st, a) for a in args))
        return s.opaque_call(st, r, args, None, site)

    # ------------------------------------------------------------ entry
    def analyse(s, key, args=None, names=None, tyenv=None):
        F = s.prog.fn(key)
        argc = F.j['argc']
        nm = {}
        for n, pl in F.j.get('names') or []:
            if isinstance(pl, dict) and not pl.get('p') and 1 <= pl['l'] <= argc:
                nm[pl['l']] = n
        if args is None:
            args = []
            for n in range(argc):
                t = F.j['locals'][n + 1]
                p = mk('param', n, nm.get(n + 1, f'arg{n}'))
                if strip_ref(t).get('n') in _UINT:
                    UNSIGNED.add(p)
                args.append(p)
        s.effects = []
        s.loops = {}
        s.loopstack = []
        s.fnstack = []
        s.drv = []
        s.steps = 0
        s.narrow = []
        s.muinit = {}
        st = State({}, TRUE, TRUE)
        vargs = []
        for n, a in enumerate(args):
            t = F.j['locals'][n + 1]
            vargs.append(a)
        frame = s.nid(('entry', key))
        r, st2 = s.run_fn(F, frame, vargs, st, tyenv or {})
        o = Summary()
        o.key, o.path, o.fn = key, F.path, F
        o.args = args
        o.ret = r
        o.state = st2
        o.subs = [e for e in s.effects if e.op == 'usub']
        o.effects = [e for e in s.effects if e.op != 'usub' and not (e.op == 'write' and e.loc and e.loc[0][0] == 'V' and is_vecbox(e.loc[0][1]))]
        o.panics = [e for e in s.effects if e.op == 'panic']
        o.loops = s.loops
        o.narrow = list(s.narrow)
        o.muinit = s.muinit
        o.interp = s
        o.diverges = st2 is None
        return o


def final(summary, param):
    """the value the pointee of a &mut parameter has when the function returns"""
    if summary.state is None:
        return param
    return summary.state.store.get(('V', param), param)


# ---------------------------------------------------------------- helpers
def strip_ref(t):
    while t.get('k') == 'ref':
        t = t['t']
    return t


def unify(p, t, env):
    """pattern type p (with impl params) against concrete t"""
    if p.get('k') == 'param':
        if p['n'] in env:
            return json.dumps(env[p['n']], sort_keys=True) == json.dumps(t, sort_keys=True)
        env[p['n']] = t
        return True
    if p.get('k') != t.get('k'):
        return False
    k = p['k']
    if k == 'adt':
        return p['key'] == t['key'] and len(p['a']) == len(t['a']) and all(unify(x, y, env) for x, y in zip(p['a'], t['a']))
    if k in ('ref', 'ptr', 'slice'):
        return unify(p['t'], t['t'], env)
    if k == 'array':
        return unify(p['t'], t['t'], env)
    if k == 'tuple':
        return len(p['a']) == len(t['a']) and all(unify(x, y, env) for x, y in zip(p['a'], t['a']))
    if k == 'const':
        return True
    return p.get('n') == t.get('n')


def upa(v, i, x):
    if at(v, i) is x:
        return v
    if v.op == 'upa' and v.a[1] is i:
        return upa(v.a[0], i, x)
    if v.op == 'agg' and v.a[0] == 'array' and i.op == 'const' and 0 <= i.a[1] < len(v.a[2]):
        fs = list(v.a[2])
        fs[i.a[1]] = x
        return mk('agg', 'array', '', tuple(fs))
    return mk('upa', v, i, x)


TT._SC['upa'] = upa


def notop(x, ty=None):
    if x.op == 'b':
        return b(NOT(x.a[0]))
    n = (ty or {}).get('n')
    if n == 'bool':
        return b(NOT(truth(x)))
    if x.op == 'bitnot':
        return x.a[0]
    return mk('bitnot', x)


def nonneg_int(t):
    return t.op in ('const', 'poly', 'len', 'sum', 'fld', 'idx') and nonneg(t)


def castop(kind, x, frm, to):
    tn = to.get('n')
    if kind == 'IntToInt':
        fn_ = (frm or {}).get('n')
        if x.op == 'b':
            return phi([(x.a[0], ci(1)), (NOT(x.a[0]), ci(0))])
        if fn_ == 'bool':
            g = truth(x)
            return phi([(g, ci(1)), (NOT(g), ci(0))])
        if x.op == 'discr':
            return mk('i_discr', x)
        bf, bt = _BITS.get(fn_), _BITS.get(tn)
        if bf and bt and (bf <= bt):
            if fn_ in _UINT:
                UNSIGNED.add(x)
                if bf == bt <= 32 and tn not in _UINT:
                    return wrapi(bt, x)
            return x
        if x.op == 'const':
            return ci(x.a[1] & ((1 << bt) - 1)) if tn in _UINT else x
        return mk('trunc', tn or '?', x)
    if kind == 'IntToFloat':
        if x.op == 'const' and x.a[0] == 'int':
            return cf(float(x.a[1]))
        return mk('i2f' if tn == 'f64' else 'i2f32', x)
    if kind == 'FloatToInt':
        return mk('f2i', x)
    if kind == 'FloatToFloat':
        if tn == 'f32':
            return mk('f32', x)
        return x
    return x


def arith(op, x, y, fl, n=None):
    for o in ('AddUnchecked', 'SubUnchecked', 'MulUnchecked', 'ShlUnchecked', 'ShrUnchecked'):
        if op == o:
            op = o[:3]
    if op in ('AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow'):
        return tup(arith(op[:3], x, y, fl, n), FALSE_T)
    if fl:
        return fop({'Add': 'fadd', 'Sub': 'fsub', 'Mul': 'fmul', 'Div': 'fdiv', 'Rem': 'frem'}[op], x, y)
    if op in ('Add', 'Sub', 'Mul'):
        f = {'Add': add, 'Sub': sub, 'Mul': mul}[op]
        if x.op == 'phi' and y.op != 'phi':
            return phi([(c.a[0], f(v, y)) for c, v in x.a])
        if y.op == 'phi' and x.op != 'phi':
            return phi([(c.a[0], f(x, v)) for c, v in y.a])
        if x.op == 'b' or y.op == 'b':
            return mk('arith', op, x, y)
        return f(x, y)
    if op == 'Div':
        return div(x, y)
    if op == 'Rem':
        return rem(x, y)
    if op == 'BitAnd':
        return bitand(x, y)
    if op == 'BitOr':
        return bitor(x, y)
    if op == 'BitXor':
        return bitxor(x, y)
    if op == 'Shl':
        return shl(x, y)
    if op == 'Shr':
        return shr(x, y)
    if op == 'Cmp':
        return mk('cmp', x, y, 'i')
    return mk('arith', op, x, y)


def cof_true(g, more):
    """g under the assumption that guard `more` (a literal) holds"""
    if more <= 1:
        return g
    ats = atoms_of(more)
    if len(ats) == 1:
        return cofactor(g, ats[0], more == atom(ats[0]))
    return restrict(g, more)


def cof_term(t, more, memo=None):
    """restrict all gates in t by `more`"""
    if memo is None:
        memo = {}
    if t in memo:
        return memo[t]
    if t.op == 'phi':
        r = phi([(cof_true(c.a[0], more), cof_term(x, more, memo)) for c, x in t.a])
    elif t.op == 'b':
        r = b(cof_true(t.a[0], more))
    elif t.op == 'agg':
        r = mk('agg', t.a[0], t.a[1], tuple(cof_term(x, more, memo) for x in t.a[2]))
    elif t.op == 'coll':
        r = coll(t.a[0], t.a[1], tuple((bs, b(cof_true(g.a[0], more)), e) for bs, g, e in t.a[2]))
    elif t.op in ('upa', 'mins', 'upd'):
        r = mk(t.op, *[cof_term(x, more, memo) if isinstance(x, T) else x for x in t.a])
    elif t.op == 'poly':
        p = {}
        for c, m in t.a:
            q = {(): c}
            for f in m:
                q = pmul(q, to_poly(cof_term(f, more, memo)))
            p = padd(p, q)
        r = from_poly(p)
    else:
        r = t
    memo[t] = r
    return r


def drop_loop(facts, L):
    if L in bdd_fr(facts):
        return TRUE
    return facts


def count_map(mu, key, v):
    """v as a function of get(mu,key): (initial value, increment) of a counting map"""
    g = get(mu, key)
    some_, none_ = None, None
    isg = is_(g, 'Some')
    ps = parts_of(v)
    if len(ps) != 2:
        return None
    for c, x in ps:
        if c == isg:
            some_ = x
        elif c == NOT(isg):
            none_ = x
    if some_ is None or none_ is None:
        return None
    d = sub(some_, fld(g, 0, 'Some'))
    if mu in subterms(d) or mu in subterms(none_):
        return None
    return tup(none_, d)
