"""The native classes behind the Python indexes: one text-to-signature path (C22), bulk = single (C06), constructors (C23, C12)."""
from .minhash import *
from . import p_minhash as PM
from . import simhash as SH

TOK = ('shingle_text', 'shingle_text_range', 'whitespace_split')
PRIMS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128}
CONT = {'HashSetContainer': 'set', 'VecContainer': 'vec', 'SmallVecContainer': 'smallvec'}
LIBIDX = {'MinHashIndex': 'min', 'SimHashIndex': 'sim'}


def head(t):
    return (t or {}).get('p', '').split('::')[-1] if (t or {}).get('k') == 'adt' else ''


def tysig(t):
    """compact text of an argument / result type"""
    k = t.get('k')
    if k == 'ref':
        return '&' + tysig(t['t']) if tysig(t['t']) != 'str' else 'str'
    if k == 'prim':
        return t['n']
    if k == 'str':
        return 'str'
    if k == 'tuple':
        return '(' + ','.join(tysig(x) for x in t['a']) + ')'
    if k == 'adt':
        h = head(t)
        if h == 'String':
            return 'str'
        if h in ('Vec', 'Option'):
            return f'{h}<{tysig(t["a"][0])}>'
        if h == 'Result':
            return tysig(t['a'][0])
        return h
    return k or '?'


# kind of a native method by its types: (arguments) -> result
KINDS = {
    (('i64', 'str'), '()'): 'insert-doc',
    (('i64', 'Vec<str>'), '()'): 'insert-tokens',
    (('Vec<i64>', 'Vec<str>'), '()'): 'insert-docs',
    (('Vec<i64>', 'Vec<Vec<str>>'), '()'): 'insert-token-lists',
    (('str',), 'Vec<i64>'): 'query-doc',
    (('str',), 'Vec<(i64,N)>'): 'query-doc-scored',
    (('Vec<str>',), 'Vec<i64>'): 'query-tokens',
    (('Vec<str>',), 'Vec<(i64,N)>'): 'query-tokens-scored',
    (('Vec<str>',), 'Vec<Vec<i64>>'): 'query-docs',
    (('Vec<str>',), 'Vec<Vec<(i64,N)>>'): 'query-docs-scored',
    (('Vec<Vec<str>>',), 'Vec<Vec<i64>>'): 'query-token-lists',
    (('Vec<Vec<str>>',), 'Vec<Vec<(i64,N)>>'): 'query-token-lists-scored',
    (('i64',), '()'): 'remove',
    ((), 'usize'): 'size',
}


class Native:
    """one #[pyclass]: field roles, exposed methods and their kinds"""

    def __init__(s, c, a):
        s.c, s.a = c, a
        s.name = a['path'].split('::')[-1]
        s.key = a['key']
        s.inner = s.hasher = s.tok = s.low = None
        s.hash = s.cont = None
        fs = a['variants'][0]['fields']
        for i, f in enumerate(fs):
            t = f['ty']
            h = head(t)
            if h in LIBIDX:
                s.inner, s.index, s.ity = i, h, t
                s.hash = PRIMS.get(t['a'][0].get('n'))
                if h == 'MinHashIndex':
                    s.cont = CONT.get(head(t['a'][2]))
            elif h.startswith(('MinHash', 'SuperMinHash', 'SimHash')):
                s.hasher, s.hty = i, t
            elif h == 'TokenizerSpecification' or t.get('key', '').startswith('pygaoya::'):
                s.tok, s.tty = i, t
            elif t.get('n') == 'bool':
                s.low = i
        s.min = s.index == 'MinHashIndex'
        s.methods = {}
        exposed = set()
        for k, f in c.P.fns.items():
            if f['crate'] != 'pygaoya' or f['kind'] == 'Closure' or s.name not in f['path']:
                continue
            m = re.fullmatch(r'__pymethod_(.+?)__', f['name'])
            if m and f'{s.name}>' in f['path']:
                exposed.add(m.group(1))
        for k, f in c.P.fns.items():
            if f['crate'] != 'pygaoya' or f['kind'] == 'Closure' or (f.get('implself') or {}).get('key') != s.key or f.get('impltrait'):
                continue
            n = f['name']
            if n in exposed or n == 'new':
                s.methods[n] = k
        s.exposed = exposed
        s.pyname = py_name(c, s)

    def self_args(s, k):
        f = s.c.P.fns[k]
        return bool(f['inputs']) and head(strip_ref_(f['inputs'][0])) == s.name

    def argtypes(s, n):
        f = s.c.P.fns[s.methods[n]]
        ins = f['inputs'][1:] if s.self_args(s.methods[n]) else f['inputs']
        return [tysig(t) for t in ins]

    def kind(s, n):
        f = s.c.P.fns[s.methods[n]]
        if not s.self_args(s.methods[n]):
            return None
        out = tysig(f['output']).replace('(i64,f64)', '(i64,N)').replace('(i64,usize)', '(i64,N)').replace('(i64,f32)', '(i64,N)').replace('(i64,u32)', '(i64,N)')
        return KINDS.get((tuple(s.argtypes(n)), out))

    def names(s, n):
        """parameter names (without self), for keyword arguments"""
        f = s.c.P.fns[s.methods[n]]
        nm = {}
        for x, pl in f.get('names') or []:
            if isinstance(pl, dict) and not pl.get('p') and 1 <= pl['l'] <= f['argc']:
                nm[pl['l']] = x
        off = 1 if s.self_args(s.methods[n]) else 0
        return [nm.get(i + 1 + off, f'arg{i}') for i in range(f['argc'] - off)]


def strip_ref_(t):
    while t.get('k') == 'ref':
        t = t['t']
    return t


def natives(c):
    if getattr(c, '_natives', None) is None:
        c._natives = _natives(c)
    return c._natives


def _natives(c):
    out = []
    for k, a in sorted(c.P.adts.items()):
        if a['crate'] == 'pygaoya' and a['variants'] and any(head(f['ty']) in LIBIDX for f in a['variants'][0]['fields']):
            n = Native(c, a)
            if n.exposed:
                out.append(n)
    if not out:
        raise Missing('native classes of the Python package')
    for n in out:
        if None in (n.inner, n.hasher, n.tok, n.low):
            raise Undecided(f'{n.name}: fields')
    return out


class Undecided(Exception):
    pass


def anchors(c, more=()):
    names = set(TOK) | {'create_signature', 'calculate_minhash_params'} | set(more)
    return tuple(sorted({strip_generics(f['path']) for f in c.P.fns.values()
                         if f['crate'] == 'gaoya' and f['name'] in names and f['kind'] != 'Closure'
                         and (f['name'] not in more or (f.get('implself') or {}).get('p', '').split('::')[-1] in LIBIDX)}))


# ------------------------------------------------------------------ the signature of a text
def variant(c, N, v, *fields):
    return agg(N.tty['key'], v, tuple(fields))


FROM, TO = mk('param', -20, 'FROM'), mk('param', -21, 'TO')
UNSIGNED.add(FROM)
UNSIGNED.add(TO)


def cases(c, N, me):
    """(label, environment) for every tokenizer and lower-casing setting"""
    vs = [x['name'] for x in c.P.adts[N.tty['key']]['variants']]
    tk, lw = fld(me, N.tok), fld(me, N.low)
    for v in vs:
        if not c.P.adts[N.tty['key']]['variants'][vs.index(v)]['fields']:
            sub_ = [(v, variant(c, N, v))]
        else:
            sub_ = [(f'{v}(from)', variant(c, N, v, tup(FROM, agg('Option', 'None', ())))), (f'{v}(from, to)', variant(c, N, v, tup(FROM, some(TO))))]
        for lab, t in sub_:
            for low in (TRUE, FALSE):
                yield lab, low == TRUE, {tk: t, lw: b(low)}


def lower(t):
    return t.op == 'call' and strip_generics(t.a[0]).split('::')[-1] == 'to_lowercase' and t.a[1][0]


def callname(t):
    return strip_generics(t.a[0]).split('::')[-1] if t.op == 'call' else None


def seq_src(t):
    while t.op == 'it' and t.a[0] in ('seq', 'ref', 'iter', 'cloned', 'copied'):
        t = t.a[1]
    return t


def words_of(t, doc):
    """t is the list of words of doc"""
    t = seq_src(t)
    if callname(t) == 'whitespace_split' and t.a[1][0] is doc:
        return True
    if t.op == 'coll' and t.a[0] == 'vec' and t.a[1] is EMPTY and len(t.a[2]) == 1:
        bs, g, e = t.a[2][0]
        if len(bs) == 1 and g.a[0] == TRUE and not bs[0].a[2] and e.op == 'at' and e.a[1] is mk('bv', bs[0].a[0]):
            s_ = seq_src(e.a[0])
            return callname(s_) == 'whitespace_split' and s_.a[1][0] is doc
    return False


def tokens_ok(lab, tk, doc):
    """tk denotes the tokens of doc for the tokenizer case (shingle iterators by what they enumerate)"""
    tk = seq_src(tk)
    n = callname(tk)
    if lab.startswith('CharShingle'):
        if n == 'shingle_text':
            return tk.a[1][0] is doc and tk.a[1][1] is FROM and lab.endswith('(from)')
        if n == 'shingle_text_range':
            return tk.a[1][0] is doc and tk.a[1][1] is FROM and tk.a[1][2] is (FROM if lab.endswith('(from)') else TO)
        return None if n is None else False
    if lab == 'WhiteSpace':
        return words_of(tk, doc)
    # word shingles: an iterator object over the words
    hi = FROM if lab.endswith('(from)') else TO
    if n == 'new' and 'hingles' in tk.a[0]:
        a = tk.a[1]
        if len(a) == 2:
            return words_of(a[0], doc) and a[1] is FROM and hi is FROM
        if len(a) == 3:
            return words_of(a[0], doc) and a[1] is FROM and a[2] is hi
    if tk.op == 'agg' and tk.a[0] not in ('tuple', 'array'):
        return words_of(tk.a[2][0], doc) and tk.a[2][1] is FROM and tk.a[2][2] is hi if len(tk.a[2]) >= 3 else None
    if n in ('shingle_text', 'shingle_text_range', 'whitespace_split'):
        return False
    return None


LIBINS = ('insert', 'par_bulk_insert', 'par_bulk_insert_pairs')


def lib_call(c, e):
    """(method, args) of a call effect on the library index"""
    t = e.args[0]
    if t.op != 'call':
        return None
    n = strip_generics(t.a[0]).split('::')
    if len(n) > 1 and n[-2] in LIBIDX and n[-1] in LIBINS:
        return n[-1], t.a[1]
    return None


def sig_ok(N, me, lab, low, t, doc):
    """t is the signature of doc in this configuration: True / False / None (not understood)"""
    if callname(t) != 'create_signature' or len(t.a[1]) != 2:
        return None if opaque_in(t) or t.op in ('phi', 'fld') else False
    if t.a[1][0] is not fld(me, N.hasher):
        return False
    tk = t.a[1][1]
    if lab == 'tokens':
        return seq_src(tk) is doc
    lows = [x for x in subterms(tk) if lower(x)]
    if low:
        hit = [x for x in lows if x.a[1][0] is doc]
        if not hit:
            return False
        doc = hit[0]
    elif lows:
        return False
    return tokens_ok(lab, tk, doc)


def labels(c, N, me, tokens):
    if tokens:
        return [('tokens', False, {})]
    vs = {x['name'] for x in c.P.adts[N.tty['key']]['variants']}
    if vs != {'CharShingle', 'WhiteSpace', 'WhiteSpaceShingle'}:
        raise Undecided(f'tokenizer variants {sorted(vs)}')
    return list(cases(c, N, me))


def case_label(lab, low):
    return lab if lab == 'tokens' else f'{lab}, lowercase={low}'


def inserted(o, e):
    """(id, signature, number of items or None, guard) of a call to a library insertion, per item ITEM; None if not understood"""
    m, a = e.lib
    if m == 'insert':
        if not e.loops:
            return a[1], a[2], None, e.guard
        if len(e.loops) != 1 or o.loops[e.loops[0]].early != FALSE or o.loops[e.loops[0]].par:
            return None
        L = e.loops[0]
        env = {mk('idx', L): ITEM}
        return subst(a[1], env), subst(a[2], env), o.loops[L].count, subst_guard(e.guard, env)
    if e.loops:
        return None
    if m == 'par_bulk_insert':
        return at(a[1], ITEM), at(a[2], ITEM), minmax('min', ln(a[1]), ln(a[2])), e.guard
    return fld(at(a[1], ITEM), 0), fld(at(a[1], ITEM), 1), ln(a[1]), e.guard


INSERTS = {'insert-doc': (False, False), 'insert-tokens': (True, False), 'insert-docs': (False, True), 'insert-token-lists': (True, True)}
QUERIES = {'query-doc': (False, False, False), 'query-doc-scored': (False, False, True), 'query-tokens': (True, False, False), 'query-tokens-scored': (True, False, True),
           'query-docs': (False, True, False), 'query-docs-scored': (False, True, True), 'query-token-lists': (True, True, False), 'query-token-lists-scored': (True, True, True)}


def insert_routes(c, rule_sig, rule_items):
    A = anchors(c, LIBINS)
    for N in natives(c):
        for n, k in sorted(N.methods.items()):
            kind = N.kind(n)
            if kind not in INSERTS:
                continue
            tokens, bulk = INSERTS[kind]
            o = c.summ(k, A)
            if o.error:
                c.open(rule_sig, o, o.error)
                continue
            me = o.args[0]
            ids, docs = o.args[1], o.args[2]
            want_id, doc = (at(ids, ITEM), at(docs, ITEM)) if bulk else (ids, docs)
            calls = []
            for e in o.effects:
                if e.op == 'call':
                    e.lib = lib_call(c, e)
                    if e.lib:
                        calls.append(e)
                elif e.op not in ('panic', 'capacity', 'read') and e.loc is not None and e.loc[0] == ('V', me):
                    p = e.loc[1]
                    if not (p and p[0][0] == 'f' and p[0][1] == N.inner and e.op == 'havoc'):
                        c.need(False, rule_items, o, f'{e.op} of {showloc(*e.loc)[:100]}', e.sp, opaque=e.op == 'havoc')
            for lab, low, env in labels(c, N, me, tokens):
                done = FALSE
                opq = not calls and any(e.op == 'havoc' for e in o.effects)
                for e in calls:
                    g0 = subst_guard(e.guard, env)
                    if g0 == FALSE:
                        continue
                    it = inserted(o, e)
                    if it is None:
                        opq = True
                        continue
                    idt, sg, cnt, g = it
                    idt, sg, g = subst(idt, env), subst(sg, env), subst_guard(g, env)
                    cnt = subst(cnt, env) if cnt is not None else None
                    s_ = sig_ok(N, me, lab, low, sg, doc)
                    if s_ is None:
                        opq = True
                    c.need(bool(s_), rule_sig, o, f'{case_label(lab, low)}: the signature inserted is {short(sg)}', e.sp, opaque=s_ is None or opaque_in(sg))
                    okn = cnt is None if not bulk else cnt in (ln(ids), ln(docs), minmax('min', ln(ids), ln(docs)))
                    okk = idt is want_id and okn
                    c.need(okk, rule_items, o, f'{case_label(lab, low)}: inserts under {short(idt)}, {short(cnt) if cnt is not None else 1} items', e.sp,
                           opaque=opaque_in(idt) or cnt is not None and opaque_in(cnt))
                    if okk:
                        done = OR(done, g)
                c.entail(TRUE, done, rule_items, o, f'{case_label(lab, low)}: every item is inserted only if {short(done)}', opaque=opq)


def same_rows(M, me, q, x, y, ordered=True):
    """same comprehension up to container kind; None when they cannot be compared"""
    rx, ry = results(x), results(y)
    if rx is None or ry is None:
        return None
    if len(rx) != len(ry):
        return False
    fx = PM.length_facts(M, me, q)
    tg = lambda r: tuple(t for t in r.tags if t[0] in ('sorted', 'rev', 'slice', 'best') and (ordered or t[0] in ('slice', 'best')))
    dd = lambda r: any('set' in z.a[2] for z in r.binders) or any(t[0] == 'kind' and t[1] == 'set' for t in r.tags)
    for p, s in zip(rx, ry):
        if len(p.outer) or len(s.outer):
            return None
        if [(z.a[0], z.a[1]) for z in p.binders] != [(z.a[0], z.a[1]) for z in s.binders] or dd(p) != dd(s) or tg(p) != tg(s) or p.elem is not s.elem:
            return False
        f2 = fx
        if isinstance(M, SH.SimHash):      # nothing is ever removed: an id in a table is in the map
            f2 = AND(fx, isSome(M.stored(me, p.id)))
        if not (entails(AND(p.guard, f2), s.guard) and entails(AND(s.guard, f2), p.guard)):
            return False
    return True


def query_routes(c, rule):
    A = anchors(c)
    MM, SM = MinHash(c), SH.SimHash(c)
    for N in natives(c):
        gen = c.P.fns[c.fn(N.index, 'query_owned')]['generics']
        tyenv = dict(zip(gen, N.ity['a']))
        spec = {}
        for sc_, nm in ((False, 'query_owned'), (True, 'query_owned_return_similarity' if N.min else 'query_return_distance')):
            spec[sc_] = c.summ(c.fn(N.index, nm), A, tyenv=tyenv)
        for n, k in sorted(N.methods.items()):
            kind = N.kind(n)
            if kind not in QUERIES:
                continue
            tokens, bulk, scored = QUERIES[kind]
            o = c.summ(k, A)
            so = spec[scored]
            if o.error or so.error:
                c.open(rule, o, o.error or so.error)
                continue
            me = o.args[0]
            inner = fld(me, N.inner)
            docs = o.args[1]
            SH.ME_OF[0] = inner
            for lab, low, env in labels(c, N, me, tokens):
                r = subst(o.ret, env)
                if bulk:
                    el = at(r, ITEM) if r.op == 'pw' and ln(r) is ln(docs) else None
                    if el is not None and el.op != 'at':
                        r = el
                    else:
                        if not (r.op == 'coll' and r.a[0] == 'vec' and r.a[1] is EMPTY and len(r.a[2]) == 1):
                            c.need(False, rule, o, f'{case_label(lab, low)}: {short(r)}', opaque=opaque_in(r) or r.op not in ('coll', 'sorted', 'slice', 'rev'))
                            continue
                        bs, g, el = r.a[2][0]
                        if len(bs) != 1 or bs[0].a[1] is not ln(docs) or set(bs[0].a[2]) - {'par'} or g.a[0] != TRUE:
                            c.need(False, rule, o, f'{case_label(lab, low)}: results for {[short(x) for x in bs]} if {short(g)}, not one per input in order', opaque=opaque_in(r))
                            continue
                        r = subst(el, {mk('bv', bs[0].a[0]): ITEM})
                    doc = at(docs, ITEM)
                else:
                    doc = docs
                sigs = list(dict.fromkeys(x for x in subterms(r) if callname(x) == 'create_signature'))
                if len(sigs) != 1:
                    c.need(False, rule, o, f'{case_label(lab, low)}: uses {len(sigs)} signatures in {short(r)}', opaque=opaque_in(r, extra=('call',)) if not sigs else opaque_in(r))
                    continue
                s_ = sig_ok(N, me, lab, low, sigs[0], doc)
                if not s_:
                    c.need(False, rule, o, f'{case_label(lab, low)}: the query signature is {short(sigs[0])}', opaque=s_ is None or opaque_in(sigs[0]))
                    continue
                want = subst(so.ret, {so.args[0]: inner, so.args[1]: sigs[0]})
                q = r is want or same_rows(MM if N.min else SM, inner, sigs[0], r, want, scored)
                c.need(bool(q), rule, o, f'{case_label(lab, low)}: returns {short(r)} instead of {short(want)}', opaque=q is None or opaque_in(r, want))


def c22(c):
    guard(c, insert_routes, 'text-becomes-the-same-signature', 'every-item-is-inserted')
    guard(c, query_routes, 'query-is-for-the-signature-of-the-text')


def guard(c, f, *a):
    try:
        f(c, *a)
    except Undecided as e:
        c.open('native-class-shape', str(e), 'not understood')


def c06_native(c):
    """bulk routes against single routes: a fault shared by both is not a difference between them"""
    n0 = len(c.obs)
    guard(c, insert_routes, 'text-becomes-the-same-signature', 'every-item-is-inserted')
    guard(c, query_routes, 'query-is-for-the-signature-of-the-text')
    bulk = {}
    for N in natives(c):
        for n, k in N.methods.items():
            kd = N.kind(n)
            if kd in INSERTS:
                bulk[c.P.fns[k]['path']] = (INSERTS[kd][1], N.name, 'insert', INSERTS[kd][0])
            elif kd in QUERIES:
                bulk[c.P.fns[k]['path']] = (QUERIES[kd][1], N.name, 'query', QUERIES[kd][0], QUERIES[kd][2])
    faults = {}
    for o in c.obs[n0:]:
        if o.status == 'bad' and o.fn in bulk:
            faults.setdefault(bulk[o.fn][1:], set()).add(bulk[o.fn][0])
    for o in c.obs[n0:]:
        if o.status == 'bad' and o.fn in bulk and faults[bulk[o.fn][1:]] == {True, False}:
            o.status = 'open'
            o.detail += ' (single and bulk routes both differ from the library operation)'


def c04_native(c):
    guard(c, size_remove)


def size_remove(c):
    for N in natives(c):
        for n, k in sorted(N.methods.items()):
            kind = N.kind(n)
            if kind == 'size':
                o = c.summ(k, anchors(c))
                so = c.summ(c.fn(N.index, 'size'), anchors(c))
                w = subst(so.ret, {so.args[0]: fld(o.args[0], N.inner)})
                c.need(o.ret is w, 'size-is-the-size-of-the-index', o, short(o.ret), opaque=opaque_in(o.ret))
            elif kind == 'remove':
                A = tuple(strip_generics(f['path']) for f in c.P.fns.values() if f['crate'] == 'gaoya' and f['name'] in ('remove', 'bulk_remove')
                          and (f.get('implself') or {}).get('p', '').split('::')[-1] in LIBIDX)
                o = c.summ(k, A)
                got = FALSE
                for e in o.effects:
                    if e.op == 'call' and e.args[0].op == 'call' and strip_generics(e.args[0].a[0]).split('::')[-2:] == [N.index, 'remove'] and not e.loops:
                        c.need(e.args[0].a[1][1] is o.args[1], 'remove-takes-out-the-given-id', o, short(e.args[0]), e.sp)
                        got = OR(got, e.guard)
                c.entail(TRUE, got, 'remove-takes-out-the-given-id', o, f'only if {short(got)}', opaque=bool(o.error) or any(e.op == 'havoc' for e in o.effects) and got == FALSE)


# ------------------------------------------------------------------ constructors
def roles(c, N, o):
    """which argument of `new` is what: by type, and by flow for the three counts of a MinHash index"""
    ty = N.argtypes('new')
    r = {}
    by = {}
    for i, t in enumerate(ty):
        by.setdefault(t, []).append(i)
    one = lambda t: by.get(t, [None])[0] if len(by.get(t, [])) == 1 else None
    for t in ('Option<str>', 'str'):
        if one(t) is not None:
            r['analyzer'] = one(t)
    for t in ('Option<bool>', 'bool'):
        if one(t) is not None:
            r['lowercase'] = one(t)
    for t in ('Option<(usize,usize)>', '(usize,usize)'):
        if one(t) is not None:
            r['ngram_range'] = one(t)
    if N.min:
        r['threshold'] = one('f64')
        return r, by.get('Option<usize>', [])
    return r, by.get('usize', [])


def leaves_ok(c, N, o):
    return leaves_of(N, o.ret)


def leaves_of(N, ret):
    """Ok(index) leaves of the constructor: [(guard, struct)], guard of the Err leaves, anything else"""
    out, er, odd = [], FALSE, False
    for g, t in parts_of(ret):
        if t.op == 'agg' and t.a[1] == 'Ok':
            for g2, s in parts_of(t.a[2][0]):
                out.append((AND(g, g2), s))
        elif t.op == 'agg' and t.a[1] == 'Err':
            er = OR(er, g)
            x = t.a[2][0]
            names = [strip_generics(y.a[0]) for y in subterms(x) if y.op == 'call']
            if not any('PyValueError' in y or y.endswith('new_err') for y in names):
                odd = True
        elif t.op == 'agg' and t.a[0] not in ('tuple', 'Option') and head(N.a) == '':
            out.append((g, t))
        else:
            odd = True
    return out, er, odd


def c09_native(c):
    guard(c, reproducible_hashers)


def reproducible_hashers(c):
    """the hasher of a native index depends on the arguments of its constructor only"""
    from . import graph as G
    for N in natives(c):
        if 'new' not in N.methods or N.hasher is None:
            continue
        o = c.summ(N.methods['new'])
        if o.error:
            c.open('hasher-reproducible', o, o.error)
            continue
        for g, t in leaves_of(N, o.ret)[0]:
            h = fld(t, N.hasher)
            nd = [n for n in (strip_generics(y.a[0]) for y in subterms(h) if y.op == 'call') if any(n.endswith(d) for d in G.NONDET)]
            c.need(not nd, 'hasher-reproducible', o, f'the hasher is built from {", ".join(sorted(set(nd)))}')


def native_constructors(c):
    A = tuple(x for x in anchors(c) if not x.endswith('create_signature')) + tuple(
        strip_generics(c.P.fns[k]['path']) for k in c.find('SimHashIndex', 'new', ''))
    for N in natives(c):
        if 'new' not in N.methods:
            raise Missing(f'{N.name}::new')
        o = c.summ(N.methods['new'], A)
        if o.error:
            c.open('constructor', o, o.error)
            continue
        ls, er, odd = leaves_ok(c, N, o)
        r, nums = roles(c, N, o)
        if odd or not ls or (N.min and (r.get('threshold') is None or len(nums) != 3)) or (not N.min and len(nums) != 2):
            c.open('constructor', o, f'shape not understood: {short(o.ret)}')
            continue
        best = None
        import itertools
        for perm in itertools.permutations(nums):
            bad = ctor_bad(c, N, o, A, ls, er, r, perm)
            if best is None or len([x for x in bad if not x[2]]) < len([x for x in best[1] if not x[2]]):
                best = (perm, bad)
            if not bad:
                break
        perm, bad = best
        N.roles = dict(r)
        for nm, i in zip(('num_bands', 'band_width', 'num_hashes') if N.min else ('num_blocks', 'max_distance'), perm):
            N.roles[nm] = i
        rules_ = {'index-as-asked', 'hasher-has-the-signature-length', 'lowercase-flag', 'tokenizer', 'unusable-sizes-are-rejected'} if N.min else {'index-as-asked', 'lowercase-flag', 'tokenizer'}
        for rule, why, op in bad:
            (c.open if op else c.bad)(rule, o, why)
            rules_.discard(rule)
        for x in sorted(rules_):
            c.ok(x, o)


def opt(t, d=None):
    return unwrap(t)


def ctor_bad(c, N, o, A, ls, er, r, perm):
    bad = []
    ar = o.args
    if N.min:
        thr = ar[r['threshold']]
        lib = c.summ(c.fn('MinHashIndex', 'new_index'), A, tyenv=dict(zip(c.P.fns[c.fn('MinHashIndex', 'new_index')]['generics'], N.ity['a'])))
        none = agg('Option', 'None', ())
        X = [mk('param', -30 - i, n) for i, n in enumerate(('BANDS', 'WIDTH', 'HASHES'))]
        for x in X:
            UNSIGNED.add(x)
        for mask in range(8):
            has = [bool(mask >> i & 1) for i in range(3)]
            env = {ar[p]: some(X[i]) if has[i] else none for i, p in enumerate(perm)}
            what = ', '.join(f'{n} {"given" if h else "absent"}' for n, h in zip(('bands', 'width', 'hashes'), has))
            ls_, er_, odd = leaves_of(N, subst(o.ret, env))
            usable = has[0] and has[1] or has[2]
            if odd:
                bad.append(('index-as-asked', f'{what}: {short(subst(o.ret, env))}', True))
                continue
            if er_ != (FALSE if usable else TRUE):
                bad.append(('unusable-sizes-are-rejected', f'{what}: an error is returned iff {short(er_)}', opaque_in(b(er_))))
            for g, s in ls_ if usable else ():
                inner, hs = fld(s, N.inner), fld(s, N.hasher)
                if has[0] and has[1]:
                    eb, ew = X[0], X[1]
                else:
                    pr = [x for x in subterms(s) if callname(x) == 'calculate_minhash_params']
                    if len(set(pr)) != 1:
                        bad.append(('index-as-asked', f'{what}: the index is {short(inner)}', opaque_in(inner)))
                        continue
                    pr = pr[0]
                    if not (pr.a[1][0] is thr and pr.a[1][1] is X[2]):
                        bad.append(('index-as-asked', f'{what}: parameters are computed by {short(pr)}', opaque_in(pr)))
                    eb, ew = fld(pr, 0), fld(pr, 1)
                want = subst(lib.ret, {lib.args[0]: eb, lib.args[1]: ew, lib.args[2]: thr})
                if inner is not want:
                    bad.append(('index-as-asked', f'{what}: the index is {short(inner)} instead of one with {short(eb)} bands of {short(ew)} and threshold {short(thr)}', opaque_in(inner)))
                n = hasher_len(c, N, hs, A)
                if n is None:
                    bad.append(('hasher-has-the-signature-length', f'{short(hs)}', True))
                elif n is not mul(eb, ew):
                    bad.append(('hasher-has-the-signature-length', f'{what}: the hasher makes {short(n)} hashes, the index expects {short(mul(eb, ew))}', opaque_in(n)))
    else:
        nb, md = (ar[i] for i in perm)
        k = c.fn('SimHashIndex', 'new')
        lib = c.summ(k, A, tyenv=dict(zip(c.P.fns[k]['generics'], N.ity['a'])))
        for g, s in ls:
            inner = fld(s, N.inner)
            if callname(inner) == 'new' and len(inner.a[1]) == 2:
                okk = inner.a[1][0] is nb and inner.a[1][1] is md
            elif inner.op == 'agg':
                want = subst(lib.ret, {lib.args[0]: nb, lib.args[1]: md})
                okk = inner is want
            else:
                okk = None
            if not okk:
                bad.append(('index-as-asked', f'the index is {short(inner)} instead of one with {short(nb)} blocks and distance {short(md)}', okk is None or opaque_in(inner)))
    for g, s in ls:
        low = fld(s, N.low)
        if 'lowercase' in r:
            a = ar[r['lowercase']]
            if N.argtypes('new')[r['lowercase']] == 'bool':
                want = truth(a)
            else:
                want = AND(isSome(a), truth(unwrap(a)))
            got = truth(low)
            if not (entails(AND(g, got), want) and entails(AND(g, want), got)):
                bad.append(('lowercase-flag', f'the flag is {short(low)}', opaque_in(low)))
        w = tok_bad(c, N, o, g, fld(s, N.tok), ar[r['analyzer']] if 'analyzer' in r else None, ar[r['ngram_range']] if 'ngram_range' in r else None)
        if w:
            bad.append(('tokenizer', w[0], w[1]))
    return list(dict.fromkeys(bad))


def hasher_len(c, N, hs, A):
    """the number of hash functions of a constructed hasher"""
    h = head(N.hty)
    ks = [k for k in c.find(h, 'new', '')]
    if not ks:
        return None
    lo = c.summ(ks[0], A)
    for i in range(12):
        f = fld(lo.ret, i)
        if lo.ret.op == 'agg' and i < len(lo.ret.a[2]) and f is lo.args[0]:
            v = fld(hs, i)
            # all fields must be those of a hasher of that length
            return v
    return None


def tok_bad(c, N, o, g, tk, an, ng):
    """the tokenizer chosen for every analyzer name and n-gram range"""
    if an is None or ng is None:
        return ('arguments not understood', True)
    ty = N.argtypes('new')
    name = unwrap(an)
    vs = {x['name'] for x in c.P.adts[N.tty['key']]['variants']}
    if vs != {'CharShingle', 'WhiteSpace', 'WhiteSpaceShingle'}:
        return ('variants not understood', True)
    ats = [a for p, _ in parts_of(tk) for a in atoms_of(p)]
    chars = [a for a in ats if any(x.op == 'const' and x.a[0] == 'str' and x.a[1] == 'char' for x in subterms(a)) and name in list(subterms(a))]
    words = [a for a in ats if any(x.op == 'const' and x.a[0] == 'str' and x.a[1] == 'word' for x in subterms(a)) and name in list(subterms(a))]
    CH = FALSE
    if chars:
        CH = AND(isSome(an), atom(chars[0]))
    elif words:
        CH = AND(isSome(an), NOT(atom(words[0])))
    else:
        return (f'the analyzer name does not choose: {short(tk)}', opaque_in(tk))
    R0, R1 = fld(unwrap(ng), 0), fld(unwrap(ng), 1)
    dom = g
    if chars and words:
        dom = AND(dom, NOT(AND(atom(chars[0]), atom(words[0]))), OR(NOT(isSome(an)), atom(chars[0]), atom(words[0])))
    for p, t in parts_of(tk):
        if AND(dom, p) == FALSE:
            continue
        q = AND(dom, p)
        if t.op != 'agg':
            return (short(t), True)
        v = t.a[1]
        if v == 'WhiteSpace':
            if not entails(q, AND(NOT(CH), NOT(isSome(ng)))):
                return (f'plain words if {short(p)}', opaque_in(b(p)))
            continue
        if not t.a[2]:
            return (short(t), True)
        lo_, hi_ = (fld(t.a[2][0], 0), fld(t.a[2][0], 1)) if len(t.a[2]) == 1 else t.a[2][:2]
        if not entails(q, CH if v == 'CharShingle' else NOT(CH)):
            return (f'{v} if {short(p)}', opaque_in(b(p)))
        for hp, h in parts_of(hi_):
            for lp, l in parts_of(lo_):
                qq = AND(q, hp, lp)
                if qq == FALSE:
                    continue
                if l is R0 or entails(qq, eq(l, R0)) and entails(qq, isSome(ng)):
                    pass
                elif v == 'CharShingle' and entails(qq, NOT(isSome(ng))):
                    if l.op != 'const':
                        return (f'{v} from {short(l)}', opaque_in(l))
                    continue
                else:
                    return (f'{v} from {short(l)} if {short(p)}', opaque_in(l, b(p)))
                if h.op == 'agg' and h.a[1] == 'None':
                    if not entails(qq, eq(R0, R1)):
                        return (f'{v} of one size only if {short(AND(p, hp))}', opaque_in(b(qq)))
                elif h.op == 'agg' and h.a[1] == 'Some':
                    if h.a[2][0] is not R1 and not entails(qq, eq(h.a[2][0], R1)):
                        return (f'{v} up to {short(h.a[2][0])}', opaque_in(h))
                else:
                    return (short(h), True)
    return None


def py_name(c, N):
    """name of the class in Python"""
    for im in c.P.impls:
        if (im.get('trait') or '').split('<')[0].endswith('PyTypeInfo') and (im.get('self') or {}).get('key') == N.key:
            for nm, key, kd in im['items']:
                if nm == 'NAME':
                    v = (c.P.consts.get(key) or {}).get('val') or {}
                    if isinstance(v.get('str'), str):
                        return v['str']
    return N.name


def registered(c):
    """{submodule: classes} that the extension module offers when nothing fails"""
    ks = [k for k, f in c.P.fns.items() if f['crate'] == 'pygaoya' and f['kind'] != 'Closure' and f['name'] == 'gaoya' and f['path'] == 'gaoya']
    if not ks:
        raise Missing('module initialiser gaoya')
    o = c.summ(ks[0], ())
    if o.error:
        raise Undecided(o.error)
    allok = lambda g: all_ok(g)
    subs, out = {}, {}
    for e in o.effects:
        if e.op != 'call' or e.loops:
            continue
        n = e.callee.split('::')[-1]
        t = e.args[0]
        if t.op != 'call':
            continue
        if n == 'add_submodule' and allok(e.guard) and t.a[1][0] is o.args[1]:
            subs[t.a[1][1]] = True
        elif n == 'add_class' and allok(e.guard):
            out.setdefault(t.a[1][0], set()).update(x.get('key') for x in e.targs if x.get('k') == 'adt')
    res = {}
    for m, cl in out.items():
        nm = [x.a[1] for x in subterms(m) if x.op == 'const' and x.a[0] == 'str']
        if m in subs and len(nm) == 1:
            res[nm[0]] = cl
    return o, res


def all_ok(g):
    for a in atoms_of(g):
        if a.op == 'is' and a.a[1] in ('Ok', 'Some'):
            g = cofactor(g, a, True)
    return g == TRUE
