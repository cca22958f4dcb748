"""C11: the id containers are interchangeable (each one refines the abstract set of ids)."""
from .common import *


def containers(c):
    """impls of the IdContainer trait: [(type name, {method: key})]"""
    out = {}
    for k, f in c.P.fns.items():
        if f['kind'] == 'Closure':
            continue
        t = (f.get('impltrait') or '').split('<')[0].split('::')[-1]
        im = f.get('implself')
        if t == 'IdContainer' and im and im.get('p'):
            out.setdefault(im['p'].split('::')[-1], {})[f['name']] = k
    return out


def held(c, name, crate='gaoya'):
    """index of the field that holds the ids, and 'set' or 'vec'"""
    for i, f in enumerate(c.adt(name, crate)['variants'][0]['fields']):
        p = f['ty'].get('p', '').split('::')[-1] if f['ty'].get('k') == 'adt' else ''
        if 'HashSet' in p or 'BTreeSet' in p:
            return i, 'set'
        if p in ('Vec', 'SmallVec', 'VecDeque'):
            return i, 'vec'
    return None, None


def added(o, me, cont, item):
    """guard under which item is a member of the final contents, given the old contents stay members; None if unknown"""
    t = fld(final(o, me), cont[0])
    old = fld(me, cont[0])
    return member_guard(t, old, item)


def member_guard(t, old, item):
    if t is old:
        return has(old, item)
    if t.op == 'phi':
        g = FALSE
        for cc, x in t.a:
            m = member_guard(x, old, item)
            if m is None:
                return None
            g = OR(g, AND(cc.a[0], m))
        return g
    if t.op == 'coll':
        base = member_guard(t.a[1], old, item) if t.a[1] is not EMPTY else FALSE
        if base is None:
            return None
        g = base
        for bs, gg, e in t.a[2]:
            if not bs and e is item:
                g = OR(g, gg.a[0])
            elif not bs:
                g = OR(g, AND(gg.a[0], eqv(e, item)))
            else:
                return None
        return g
    return None


def has(old, item):
    return atom(mk('has', old, item))


def eqv(x, y):
    return eq(x, y)


def keeps(t, old):
    """the old contents are all members of t, and t has nothing else but single added elements: list of (guard, elem) or None"""
    if t is old:
        return []
    if t.op == 'phi':
        out = []
        for cc, x in t.a:
            r = keeps(x, old)
            if r is None:
                return None
            out += [(AND(cc.a[0], g), e) for g, e in r]
        return out
    if t.op == 'coll':
        r = keeps(t.a[1], old) if t.a[1] is not EMPTY else None
        if r is None:
            return None
        for bs, gg, e in t.a[2]:
            if bs:
                return None
            r = r + [(gg.a[0], e)]
        return r
    return None


def c11(c):
    cs = containers(c)
    want = ('HashSetContainer', 'VecContainer', 'SmallVecContainer')
    for n in want:
        if n not in cs:
            raise Missing('id container ' + n)
    deflt = [k for k in c.find('', 'is_empty') if 'IdContainer' in c.P.fns[k]['key']]
    for n, ms in sorted(cs.items()):
        F, kind = held(c, n)
        if F is None:
            c.open('container-contents', ms.get('push') or n, f'no collection field in {n}')
            continue
        # new: empty
        o = c.summ(ms['new'])
        v = fld(o.ret, F)
        c.need(ln(v) is ci(0), 'new-container-is-empty', o, short(v), opaque=bool(o.error) or opaque_in(v))
        # push: the id is a member afterwards, nothing is lost and nothing else is added
        o = c.summ(ms['push'])
        me, item = o.args[0], o.args[1]
        old, t = fld(me, F), fld(final(o, me), F)
        opq = bool(o.error) or opaque_in(t) or havoc(o)
        m = member_guard(t, old, item)
        kp = keeps(t, old)
        c.need(m is not None and entails(TRUE, m), 'push-holds-the-id', o, short(t), opaque=opq or m is None and t.op not in ('coll', 'phi'))
        c.need(kp is not None and all(e is item or entails(g, eqv(e, item)) for g, e in kp), 'push-keeps-the-others', o, short(t), opaque=opq)
        nodup = kind == 'set' or (kp is not None and bool(kp) and all(entails(g, NOT(has(old, item))) for g, e in kp))
        no_panic(c, o)
        # len and is_empty: zero exactly when nothing is held
        o = c.summ(ms['len'])
        c.need(o.ret is ln(fld(o.args[0], F)), 'len-is-number-held', o, short(o.ret), opaque=bool(o.error) or opaque_in(o.ret))
        if 'is_empty' in ms:
            o = c.summ(ms['is_empty'])
            want_e = eq(ln(fld(o.args[0], F)), ci(0))
            c.need(same_guard(truth(o.ret), want_e), 'is_empty-iff-nothing-held', o, short(o.ret), opaque=bool(o.error) or opaque_in(o.ret))
        # copies: exactly the members are added to the given set
        for m_ in ('copy_to', 'copy_refs_to'):
            o = c.summ(ms[m_])
            me, dst = o.args[0], o.args[1]
            t = final(o, dst)
            good = copies(t, dst, fld(me, F))
            c.need(good, 'copy-adds-exactly-the-members', o, short(t), opaque=bool(o.error) or opaque_in(t) or havoc(o))
            c.need(fld(final(o, me), F) is fld(me, F), 'copy-leaves-the-container', o, '')
            no_panic(c, o)
        # remove: every occurrence of exactly the given id
        o = c.summ(ms['remove'])
        me, item = o.args[0], o.args[1]
        old, t = fld(me, F), fld(final(o, me), F)
        good, why = removes(t, old, item, nodup)
        c.need(good, 'remove-takes-out-exactly-the-id', o, why or short(t), opaque=bool(o.error) or opaque_in(t, extra=('out',)) or havoc(o))
        no_panic(c, o)
    for k in deflt:
        o = c.summ(k)
        me = o.args[0]
        r = o.ret
        lens = [x for x in subterms(r) if x.op == 'call' and x.a[0].split('::')[-1].split('<')[0] == 'len'] + \
               [x for x in subterms(r) if x.op == 'len' and x.a[0] is me] + [ln(me)]
        good = any(same_guard(truth(r), eq(x, ci(0))) for x in lens)
        c.need(good, 'is_empty-iff-nothing-held', o, short(r), opaque=bool(o.error) or opaque_in(r))
    if not deflt and not all('is_empty' in m for m in cs.values()):
        raise Missing('IdContainer::is_empty')


def no_panic(c, o):
    for e in o.panics:
        if e.guard != FALSE:
            c.open('container-operation-does-not-panic', o, short(e.guard), e.sp)


def havoc(o):
    return any(e.op == 'havoc' for e in o.effects)


def same_guard(a, bb):
    return entails(a, bb) and entails(bb, a)


def copies(t, dst, src):
    if t.op == 'phi':
        return all(copies(x, dst, src) or (x is dst and entails(cc.a[0], eq(ln(src), ci(0)))) for cc, x in t.a)
    if t.op != 'coll' or t.a[1] is not dst or len(t.a[2]) != 1:
        return False
    bs, g, e = t.a[2][0]
    return g.a[0] == TRUE and len(bs) == 1 and bs[0].a[1] is ln(src) and e is at(src, mk('bv', bs[0].a[0]))


def removes(t, old, item, nodup):
    """is t the old contents without (every occurrence of) item?"""
    if t is old:
        return False, 'nothing is removed'
    if t.op == 'phi':
        for cc, x in t.a:
            if x is old:
                if not entails(cc.a[0], NOT(has(old, item))):
                    return False, f'kept unchanged if {short(cc.a[0])}'
                continue
            r, why = removes(x, old, item, nodup)
            if not r:
                return r, why
        return True, ''
    if t.op == 'coll' and t.a[1] is EMPTY and len(t.a[2]) == 1:
        bs, g, e = t.a[2][0]
        if len(bs) == 1 and bs[0].a[1] is ln(old) and e is at(old, mk('bv', bs[0].a[0])):
            w = NOT(eq(e, item))
            if same_guard(g.a[0], w):
                return True, ''
            return False, f'keeps the ids with {short(g.a[0])}'
    if t.op == 'without' and t.a[0] is old:
        if not nodup:
            return False, 'takes out one occurrence only, but the same id can be held more than once'
        if eq(at(old, t.a[1]), item) == TRUE or t.a[1].op == 'first':
            bd, g = (t.a[1].a[0], t.a[1].a[1]) if t.a[1].op == 'first' else (None, None)
            if bd is None or same_guard(truth(g), eq(at(old, mk('bv', bd.a[0])), item)):
                return True, ''
        return False, f'takes out position {short(t.a[1])}'
    return False, ''
