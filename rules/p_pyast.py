"""The Python wrapper (C21, C22, C23): every path of its methods, from the syntax tree."""
import os
from .common import *
from . import p_native as PN
from engine import pyabs as PY
from fractions import Fraction

NONE = PY.NONE


class View:
    """a native class as Python sees it"""

    def __init__(s, N):
        s.N, s.exposed = N, N.exposed

    def params(s, n):
        if n in s.N.methods:
            return s.N.names(n)
        raise PY.Unsup(f'native method {n}')


CLASSES = {
    'MinHashStringIndex': dict(mod='minhash', min=True, params=('hash_size', 'jaccard_threshold', 'num_bands', 'band_size', 'num_hashes', 'analyzer', 'lowercase', 'ngram_range', 'id_container'),
                               flag={'query': 'return_similarity', 'par_bulk_query': 'return_similarity'}),
    'SimHashStringIndex': dict(mod='simhash', min=False, params=('hash_size', 'num_blocks', 'hamming_distance', 'analyzer', 'lowercase', 'ngram_range'),
                               flag={'query': 'return_hamming_distance', 'par_bulk_query': 'return_similarity'}),
}
S = lambda n: ('sym', n)
NGRAM = ('seq', 'tuple', (S('ngram_lo'), S('ngram_hi')))
KINDS0 = {'jaccard_threshold': 'num', 'num_bands': 'int', 'band_size': 'int', 'num_hashes': 'int', 'num_blocks': 'int', 'hamming_distance': 'int', 'analyzer_fn': 'callable', 'analyzer_name': 'str',
          'hash_other': 'int', 'container_other': 'str', 'lowercase': 'bool', 'ngram_lo': 'int', 'ngram_hi': 'int', 'id': 'int', 'doc': 'str', 'ids': 'seq', 'docs': 'seq', 'flag': 'bool'}
F1 = Fraction(1)
ge = lambda v, k: ({v: F1}, Fraction(-k), False)
gt = lambda v, k: ({v: F1}, Fraction(-k), True)
le = lambda v, k: ({v: -F1}, Fraction(k), False)
lt = lambda v, k: ({v: -F1}, Fraction(k), True)
BASE = [ge('num_bands', 1), ge('band_size', 1), ge('num_hashes', 1), ge('ngram_lo', 1), ({'ngram_hi': F1, 'ngram_lo': -F1}, Fraction(0), False)]
VALID = {True: BASE + [ge('jaccard_threshold', 0), le('jaccard_threshold', 1)],
         False: BASE + [ge('num_blocks', 3), le('num_blocks', 32), ge('hamming_distance', 0), ({'num_blocks': F1, 'hamming_distance': -F1}, Fraction(-1), False)]}
INVALID = {True: [('jaccard_threshold below 0', [lt('jaccard_threshold', 0)]), ('jaccard_threshold above 1', [gt('jaccard_threshold', 1)])],
           False: [('num_blocks below 3', [le('num_blocks', 2)]), ('num_blocks above 32', [ge('num_blocks', 33)]),
                   ('hamming_distance not below num_blocks', [({'hamming_distance': F1, 'num_blocks': -F1}, Fraction(0), False)])]}


class World:
    """the wrapper package of one tree"""

    def __init__(s, c):
        s.c = c
        s.natives = PN.natives(c)
        s.by = {}
        mods = {}
        try:
            s.reg_sum, reg = PN.registered(c)
            s.reg_open = None
        except PN.Undecided as e:
            reg, s.reg_open = None, str(e)
        for N in s.natives:
            for m in (reg if reg is not None else {'minhash': None, 'simhash': None}):
                if reg is None and (m == 'minhash') != N.min:
                    continue
                if reg is None or N.key in reg[m]:
                    mods.setdefault(m, {})[N.pyname] = View(N)
        s.reg = reg
        s.dir = os.path.join(c.repo, 'py-gaoya', 'gaoya')
        s.I = PY.Interp(s.dir, PY.Native(mods))
        s.I.kinds0 = dict(KINDS0)
        s.I.excl0 = {'hash_other': (8, 16, 32, 64, 128), 'container_other': ('set', 'vec', 'smallvec'), 'analyzer_name': ('word', 'char')}
        s.I.reset([])

    def cls(s, name):
        """the class, or raises Missing"""
        sp = CLASSES[name]
        try:
            m = s.I.module(sp['mod'])
        except PY.PyRaise as e:
            return None, f'import of gaoya.{sp["mod"]} raises {e.et}: {e.msg}', e.node
        if m is None or name not in m.env:
            raise Missing(f'gaoya.{sp["mod"]}.{name}')
        v = m.env[name]
        if v[0] != 'cls':
            return None, None, None
        s.snapshot()
        return v[1], None, None

    def snapshot(s, atoms=None, facts=None):
        s.I.heap0 = {k: PY._cp(v) for k, v in s.I.heap.items()}
        s.I.nobjs0 = list(s.I.nobjs)


def where(W, name, node):
    return f'py-gaoya/gaoya/{CLASSES[name]["mod"]}.py' + (f':{node.lineno}' if node is not None and hasattr(node, 'lineno') else '')


def configs(name, deep):
    """(arguments, supported, label) for every combination of the enumerated arguments"""
    sp = CLASSES[name]
    if sp['min']:
        hs = [(('k', h), True) for h in (8, 16, 32, 64)] + [(S('hash_other'), False)] + [(('k', h), False) for h in ((-1, 0, 1, 4, 12, 24, 48, 65, 100, 128, 256) if deep else ())]
        cs = [(('k', x), True) for x in ('set', 'vec', 'smallvec')] + [(S('container_other'), False)] + [(('k', x), False) for x in (('', 'list', 'Set', 'small_vec', 'hashset') if deep else ())]
    else:
        hs = [(('k', h), True) for h in (64, 128)] + [(S('hash_other'), False)] + [(('k', h), False) for h in ((-1, 0, 8, 16, 32, 63, 65, 127, 192, 256) if deep else ())]
        cs = [(None, True)]
    an = [(('k', 'word'), True), (('k', 'char'), True), (S('analyzer_fn'), True), (S('analyzer_name'), False), (NONE, False)] + [(('k', x), False) for x in (('', 'words', 'Word', 'chars', 'w', 'c') if deep else ())]
    ng = [NONE, NGRAM]
    if sp['min']:
        sz = [(a, b, n) for a in (S('num_bands'), NONE) for b in (S('band_size'), NONE) for n in (S('num_hashes'), NONE)] if deep else [(S('num_bands'), S('band_size'), S('num_hashes')), (NONE, NONE, S('num_hashes'))]
    else:
        sz = [()]
    for h, h_ok in hs:
        for ct, c_ok in cs:
            for a, a_ok in an:
                if (not h_ok) + (not c_ok) + (not a_ok) > 1:
                    continue
                ok = h_ok and c_ok and a_ok
                for g in ng:
                    for z in sz:
                        if not ok and (g is not NONE or z and NONE in z):
                            continue
                        kw = {'hash_size': h, 'analyzer': a, 'lowercase': S('lowercase'), 'ngram_range': g}
                        if sp['min']:
                            kw.update(jaccard_threshold=S('jaccard_threshold'), id_container=ct, num_bands=z[0], band_size=z[1], num_hashes=z[2])
                        else:
                            kw.update(num_blocks=S('num_blocks'), hamming_distance=S('hamming_distance'))
                        yield kw, ok


def lab(kw):
    def f(v):
        return repr(v[1]) if v[0] == 'k' else 'any other' if v[1] in ('hash_other', 'container_other', 'analyzer_name') else 'callable' if v[1] == 'analyzer_fn' else 'given'
    return ', '.join(f'{k}={f(v)}' for k, v in kw.items() if k in ('hash_size', 'id_container', 'analyzer') or v == NONE)


def opaque(v):
    return isinstance(v, tuple) and (len(v) >= 2 and v[0] == 'op' and v[1] in ('opaque', 'text', 'exc') or any(opaque(x) for x in v))


def accepted(W, name, deep):
    """run the constructor for every configuration: yields (kw, supported, outcome, state)"""
    k, why, node = W.cls(name)
    if k is None:
        yield None, None, ('raise' if why else 'unsup', why or 'not a plain class', node), None
        return
    for kw, ok in configs(name, deep):
        for r, st in W.I.paths(lambda: W.I.instance(k, [], dict(kw), None)):
            yield kw, ok, r, st


def resolve(v, st, kw):
    """argument value under the decisions of the path"""
    return v


def native_of(W, st, obj):
    nc = st['nobjs'][obj]['cls']
    return W.I.native.mods[nc[1]][nc[2]].N


def c23(c):
    W = World(c)
    reg_check(c, W)
    for name, sp in CLASSES.items():
        key = f'{name}.__init__'
        n_ok = set()
        for kw, ok, r, st in accepted(W, name, True):
            if kw is None:
                (c.bad if r[0] == 'raise' else c.open)('constructor-accepts-and-rejects', key, r[1], where(W, name, r[2]))
                continue
            L = lab(kw)
            if r[0] == 'unsup':
                c.open('constructor-accepts-and-rejects', key, f'{L}: {r[1]}', where(W, name, None))
                continue
            opq = st['opaque']
            kd = W.I.kinds
            if r[0] == 'raise':
                e = r[1]
                feas_valid = ok and not PY.infeasible(st['facts'] + VALID[sp['min']], kd) and usable(kw, sp)
                if e.et != 'ValueError' and (not ok or not PY.infeasible(st['facts'] + [], kd)):
                    bad(c, opq, 'only-value-errors', key, f'{L}: raises {e.et} {e.msg}', where(W, name, e.node))
                elif feas_valid:
                    bad(c, opq, 'supported-arguments-are-accepted', key, f'{L}: {e.et} is raised for supported arguments', where(W, name, e.node))
                else:
                    n_ok.add(('rejected', L))
                continue
            # accepted
            if not ok:
                bad(c, opq, 'unsupported-arguments-raise', key, f'{L}: accepted', where(W, name, None))
                continue
            for what, region in INVALID[sp['min']]:
                if not PY.infeasible(st['facts'] + region, kd):
                    bad(c, opq, 'unsupported-arguments-raise', key, f'{L}: accepted with {what}', where(W, name, None))
            o = r[1]
            refs = [v for k, v in st['heap'][o[1]][1].items() if v[0] == 'nobj']
            made = [i for i in range(len(W.I.nobjs0), len(st['nobjs']))]
            if len(set(refs)) != 1:
                bad(c, opq or any(opaque(v) for v in st['heap'][o[1]][1].values()), 'native-class-as-asked', key, f'{L}: the object holds {len(set(refs))} native indexes', where(W, name, None))
                continue
            check_native(c, W, name, sp, key, kw, st, refs[0][1], L)
            n_ok.add(('accepted', L))
        for x in sorted(n_ok):
            c.ok('constructor-accepts-and-rejects', key, f'{x[0]}: {x[1]}', where(W, name, None))
        defaults(c, W, name, sp, key)
        positional(c, W, name, sp, key)


def usable(kw, sp):
    return not sp['min'] or (NONE not in (kw['num_bands'], kw['band_size'])) or kw['num_hashes'] != NONE


def bad(c, opq, rule, fn, why, sp):
    (c.open if opq else c.bad)(rule, fn, why, sp)


def check_native(c, W, name, sp, key, kw, st, i, L):
    ob = st['nobjs'][i]
    N = native_of(W, st, i)
    at = where(W, name, ob['node'])
    if N.min != sp['min'] or kw['hash_size'] != ('k', N.hash) or sp['min'] and kw['id_container'] != ('k', N.cont):
        bad(c, st['opaque'], 'native-class-as-asked', key, f'{L}: builds {N.pyname} ({N.hash} bit, {N.cont})', at)
    else:
        c.ok('native-class-as-asked', key, f'{L}: {N.pyname}', at)
    ro = getattr(N, 'roles', None)
    if ro is None:
        c.open('arguments-reach-their-parameters', key, f'{L}: parameters of {N.pyname} not understood', at)
        return
    ps = N.names('new')
    vals = dict(zip(range(len(ps)), ob['args']))
    for k, v in ob['kw'].items():
        if k not in ps or ps.index(k) in vals:
            bad(c, st['opaque'], 'arguments-reach-their-parameters', key, f'{L}: {N.pyname} has no parameter {k} left', at)
            return
        vals[ps.index(k)] = v
    if len(ob['args']) > len(ps):
        bad(c, st['opaque'], 'arguments-reach-their-parameters', key, f'{L}: {N.pyname} takes {len(ps)} arguments', at)
        return
    want = {'lowercase': 'lowercase', 'ngram_range': 'ngram_range', 'analyzer': 'analyzer'}
    want.update({'threshold': 'jaccard_threshold', 'num_bands': 'num_bands', 'band_width': 'band_size', 'num_hashes': 'num_hashes'} if sp['min'] else {'num_blocks': 'num_blocks', 'max_distance': 'hamming_distance'})
    for role, arg in want.items():
        if role not in ro:
            c.open('arguments-reach-their-parameters', key, f'{L}: no parameter for {role}', at)
            continue
        v = vals.get(ro[role], ('default', role))
        w = kw[arg]
        if arg == 'analyzer' and w == S('analyzer_fn'):
            good = v in (('k', 'word'), ('k', 'char'), NONE, ('default', role))
        else:
            good = same(v, w, st)
        if good:
            c.ok('arguments-reach-their-parameters', key, f'{L}: {arg}', at)
        else:
            benign_default = arg == 'ngram_range' and w == NONE and v == ('seq', 'tuple', (('k', 1), ('k', 1)))
            bad(c, st['opaque'] or opaque(v) or benign_default, 'arguments-reach-their-parameters', key, f'{L}: parameter {role} of {N.pyname} gets {sv(v)} instead of {arg}', at)


def same(v, w, st):
    if v == w:
        return True
    if v[0] == 'op' and v[1] in ('list', 'tuple') and len(v[2]) == 1:
        return same(v[2][0], w, st)
    if v[0] == 'seq' and w[0] == 'seq' and len(v[2]) == len(w[2]):
        return all(same(a, b, st) for a, b in zip(v[2], w[2]))
    # a flag decided on this path
    if w[0] == 'sym' and v[0] == 'k' and isinstance(v[1], bool) and ('truth', w) in st['atoms']:
        return st['atoms'][('truth', w)] == v[1]
    # a number decided on this path
    if w[0] == 'sym' and v[0] == 'k' and isinstance(v[1], (int, float)) and KINDS0.get(w[1]) in ('int', 'num'):
        k = Fraction(v[1])
        return PY.infeasible(st['facts'] + [({w[1]: F1}, -k, True)], KINDS0) and PY.infeasible(st['facts'] + [({w[1]: -F1}, k, True)], KINDS0)
    return False


def sv(v):
    if v[0] == 'k':
        return repr(v[1])
    if v[0] == 'sym':
        return v[1]
    if v[0] == 'op':
        return f'{v[1]}({", ".join(sv(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else repr(x) for x in v[2])})'
    if v[0] == 'nres':
        return f'{v[2]}({", ".join(sv(x) for x in v[3])})'
    if v[0] == 'elt':
        return f'item of {sv(v[1])}'
    if v[0] == 'map':
        return f'[{sv(v[1])} for {sv(v[2])}]'
    if v[0] == 'seq' and v[1] != 'dict':
        return f'{v[1]}({", ".join(sv(x) for x in v[2])})'
    if v[0] == 'default':
        return 'its default'
    return str(v)[:80]


def defaults(c, W, name, sp, key):
    k, why, node = W.cls(name)
    if k is None:
        return
    for r, st in W.I.paths(lambda: W.I.instance(k, [], {}, None)):
        if r[0] == 'raise':
            bad(c, st['opaque'], 'supported-arguments-are-accepted', key, f'default arguments: raises {r[1].et} {r[1].msg}', where(W, name, r[1].node))
        elif r[0] == 'unsup':
            c.open('supported-arguments-are-accepted', key, f'default arguments: {r[1]}', where(W, name, None))
        else:
            c.ok('supported-arguments-are-accepted', key, 'default arguments', where(W, name, None))


def positional(c, W, name, sp, key):
    """the same arguments given by position build the same object"""
    k, why, node = W.cls(name)
    if k is None:
        return
    kw = next(x for x, ok in configs(name, False) if ok)
    for r, st in W.I.paths(lambda: W.I.instance(k, [kw[p] for p in sp['params']], {}, None)):
        if r[0] != 'ret':
            if r[0] == 'raise' and not PY.infeasible(st['facts'] + VALID[sp['min']], W.I.kinds):
                bad(c, st['opaque'], 'supported-arguments-are-accepted', key, f'positional arguments: raises {r[1].et} {r[1].msg}', where(W, name, r[1].node))
            continue
        refs = [v for v in st['heap'][r[1][1]][1].values() if v[0] == 'nobj']
        if refs:
            check_native(c, W, name, sp, key, kw, st, refs[0][1], 'by position: ' + lab(kw))


def reg_check(c, W):
    """every native class the library has is offered to Python, each name once"""
    if W.reg_open:
        c.open('native-classes-are-registered', 'gaoya', W.reg_open)
        return
    names = {}
    for N in W.natives:
        names.setdefault(N.pyname, []).append(N)
    for nm, ns in names.items():
        if len(ns) > 1:
            c.bad('native-classes-are-registered', nm, f'{len(ns)} native classes share the Python name {nm}', c.P.fns[ns[0].methods['new']]['sp'] if 'new' in ns[0].methods else '')
    c.ok('native-classes-are-registered', 'gaoya', f'{sum(len(x) for x in W.reg.values())} classes')


# ------------------------------------------------------------------ methods
APP = lambda x: ('op', 'app', (S('analyzer_fn'), x))


def strip(v):
    while v[0] == 'op' and v[1] in ('list', 'tuple', 'gen') and len(v[2]) == 1:
        v = v[2][0]
    if v[0] == 'map':
        return ('map', strip(v[1]), strip(v[2]), 0 if True else v[3])
    if v[0] == 'op' and v[1] == 'app':
        return ('op', 'app', tuple(strip(x) for x in v[2]))
    if v[0] == 'elt':
        return ('elt', strip(v[1]), 0)
    if v[0] == 'zip':
        return ('zip', tuple(strip(x) for x in v[1]))
    return v


# method -> (native kinds for built-in / callable analyzers, arguments)
def specs(sp):
    m = {
        'insert_document': (('insert-doc', 'insert-tokens'), ('id', 'doc')),
        'query': (('query-doc', 'query-tokens'), ('doc', 'flag')),
        'par_bulk_query': (('query-docs', 'query-token-lists'), ('docs', 'flag')),
    }
    if sp['min']:
        m.update({'par_bulk_insert_docs': (('insert-docs', 'insert-token-lists'), ('ids', 'docs')), 'remove': (('remove', 'remove'), ('id',)), 'size': (('size', 'size'), ()),
                  '__str__': ((None, None), ()), '__repr__': ((None, None), ())})
    return m


MUTATING = {'insert-doc', 'insert-tokens', 'insert-docs', 'insert-token-lists', 'remove', 'bulk-remove', None}
SINGLE = {'insert-docs': 'insert-doc', 'insert-token-lists': 'insert-tokens', 'query-docs': 'query-doc', 'query-token-lists': 'query-tokens'}


def judge(N, calls, ret, kind, args, fn, scored, atoms):
    """None if the path does what the method promises, else (why, rule, node)"""
    own = [x for x in calls if N.kind(x['name']) in MUTATING or not kind.startswith(('insert', 'remove'))]
    text = APP if fn else (lambda x: x)
    insert = kind.startswith('insert')
    bulk = kind in SINGLE
    docs = S('docs')
    if bulk and atoms.get(('truth', docs)) is False:
        if not own and (insert or strip(ret)[0] == 'seq' and not strip(ret)[2]):
            return None
    d = S('doc')
    item = text(('elt', docs, 0)) if bulk else text(d)
    full = ('map', item, docs, 0) if fn else docs
    k2 = kind + ('-scored' if scored else '')
    R1, R2, R3 = 'reaches-the-matching-operation', 'document-is-passed-unchanged', 'returns-the-native-result'
    if not own:
        return (f'no native call of kind {k2}', R1, None)
    main = [x for x in own if N.kind(x['name']) == k2]
    one = SINGLE.get(kind)
    k1 = one + ('-scored' if scored else '') if one else None
    if not main and one:
        main = [x for x in own if N.kind(x['name']) == k1]
        itemwise = True
    else:
        itemwise = False
    if not main:
        return (f'calls {own[0]["name"]} ({N.kind(own[0]["name"]) or "other kind"}) instead of an operation of kind {k2}', R1, own[0]['node'])
    x = main[-1]
    extra = [y for y in own if y is not x and N.kind(y['name']) in MUTATING]
    if extra:
        return (f'also calls {extra[0]["name"]}', R1, extra[0]['node'])
    if itemwise and not insert and not x['loops'] and ret[0] == 'nres' and ret[1] == x['n']:
        return (f'returns the result of {x["name"]} for one document instead of one result per document', R3, x['node'])
    got = [strip(a) for a in x['args']]
    if kind == 'remove':
        want = [S('id')]
    elif kind == 'size':
        want = []
    elif itemwise:
        z = ('zip', (S('ids'), docs))
        want = ([('elt', S('ids'), 0)] if insert else []) + [item]
    else:
        want = ([S('ids') if bulk else S('id')] if insert else []) + [full if bulk else text(d)]
    if got != want:
        return (f'{x["name"]} gets ({", ".join(sv(a) for a in got)}) instead of ({", ".join(sv(a) for a in want)})', R2, x['node'], any(opaque(a) for a in got))
    loops = tuple(strip(l) for l in x['loops'])
    if itemwise:
        zs = {docs, ('map', text(('elt', docs, 0)), docs, 0)}
        okl = len(loops) == 1 and (loops[0] in zs if not insert else loops[0][0] == 'zip' and set(loops[0][1]) <= zs | {S('ids')})
    else:
        okl = not loops
    if not okl:
        return (f'{x["name"]} is called once per {sv(loops[0]) if loops else "call"}', R1, x['node'], True)
    if insert or kind == 'remove':
        return None
    r = strip(ret)
    if itemwise:
        if r[0] == 'map' and strip(r[1])[0] == 'nres' and strip(r[1])[1] == x['n'] and r[2] in zs:
            return None
    elif r[0] == 'nres' and r[1] == x['n']:
        return None
    if any(k[0] == 'truth' and v is False and strip(k[1])[0] == 'nres' and strip(k[1])[1] == x['n'] for k, v in atoms.items()):
        # the native result is empty (or zero) on this path
        if kind == 'size' and r == ('k', 0) or kind != 'size' and r[0] == 'seq' and not r[2]:
            return None
    perm = not scored and r[0] == 'op' and r[1] in ('sorted', 'reversed') and kind in ('query-doc', 'query-tokens')
    return (f'returns {sv(r)} instead of the result of {x["name"]}', R3, x['node'], perm or opaque(r))


def c21_findings(c):
    W = World(c)
    for name, sp in CLASSES.items():
        k0, why, node = W.cls(name)
        if k0 is None:
            yield ('bad' if why else 'open', 'reaches-the-matching-operation', name, why or 'not a plain class', where(W, name, node))
            continue
        states = {}
        for kw, ok, r, st in accepted(W, name, False):
            if not ok:
                continue
            if r[0] == 'unsup':
                yield ('open', 'reaches-the-matching-operation', f'{name}.__init__', f'{lab(kw)}: {r[1]}', where(W, name, None))
                continue
            if r[0] == 'raise' or PY.infeasible(st['facts'] + VALID[sp['min']], W.I.kinds):
                continue
            states.setdefault((lab(kw), repr(sorted(st['heap'][r[1][1]][1].items(), key=repr)), repr(st['nobjs'])), (kw, r[1], st))
        if not states:
            yield ('open', 'reaches-the-matching-operation', f'{name}.__init__', 'no accepted configuration', where(W, name, None))
        base = (W.I.heap0, W.I.nobjs0)
        for (L, _, _), (kw, o, st) in states.items():
            fn = kw['analyzer'] == S('analyzer_fn')
            W.I.heap0, W.I.nobjs0 = {k: PY._cp(v) for k, v in st['heap'].items()}, list(st['nobjs'])
            W.I.atoms0, W.I.facts0 = dict(st['atoms']), list(st['facts']) + VALID[sp['min']]
            refs = [v for v in st['heap'][o[1]][1].values() if v[0] == 'nobj']
            if len(set(refs)) == 1:
                for meth, (kinds, params) in specs(sp).items():
                    yield from method(W, name, sp, o, refs[0], meth, kinds[fn], params, fn, L, st)
            else:
                yield ('open', 'reaches-the-matching-operation', f'{name}.__init__', f'{L}: native index not found', where(W, name, None))
        W.I.heap0, W.I.nobjs0 = base
        W.I.atoms0, W.I.facts0 = {}, []


def method(W, name, sp, o, obj, meth, kind, params, fn, L, st0):
    N = native_of(W, st0, obj[1])
    q = f'{name}.{meth}'
    runs = [params]
    if 'flag' in params:
        runs.append(params[:-1])
    for ps in runs:
        def go():
            f = W.I.attr(o, meth, None)
            return W.I.deep(W.I.call(f, [S(p) for p in ps], {}, None))
        first = True
        for r, st in W.I.paths(go):
            opq = st['opaque'] or st0['opaque']
            calls = [dict(x, n=i) for i, x in enumerate(st['calls'])]
            sc = None
            if 'flag' in ps:
                v = st['atoms'].get(('truth', S('flag')))
                fl = [v] if v is not None else [True, False]
            else:
                fl = [False]
            R1 = 'reaches-the-matching-operation'
            if r[0] == 'unsup':
                yield ('open', R1, q, f'{L}: {r[1]}', where(W, name, None))
                continue
            if r[0] == 'raise':
                e = r[1]
                if meth in ('__str__', '__repr__') and e.et == 'AttributeError' and e.msg.endswith(meth):
                    continue
                yield ('open' if opq else 'bad', R1, q, f'{L}, flags {fl if "flag" in ps else "default"}: raises {e.et} {e.msg}', where(W, name, e.node))
                continue
            if kind is None:
                mut = [x for x in calls if N.kind(x['name']) in MUTATING]
                yield ('bad' if mut and not opq else 'ok', R1, q, f'{L}: changes the index' if mut else L, where(W, name, mut[0]['node'] if mut else None))
                continue
            wrong = [x for x in calls if x['obj'] != obj]
            if wrong:
                yield ('open' if opq else 'bad', R1, q, f'{L}: calls {wrong[0]["name"]} on another index', where(W, name, wrong[0]['node']))
                continue
            for scored in fl:
                w = judge(N, calls, r[1], kind, params, fn, scored, st['atoms'])
                lb = f'{L}, scores {"asked" if scored else "not asked"}' if 'flag' in params else L
                if w is None:
                    for rule in (R1, 'document-is-passed-unchanged', 'returns-the-native-result'):
                        yield ('ok', rule, q, lb, where(W, name, None))
                else:
                    o_ = opq and not (w[0].startswith('no native call') and kind.startswith('insert') and plain(st, st0)) or len(w) > 3 and w[3]
                    if o_ and w[0].startswith('returns the result of') and bare(st, st0):
                        o_ = False
                    yield ('open' if o_ else 'bad', w[1], q, f'{lb}: {w[0]}', where(W, name, w[2]))


def plain(st, st0):
    """the path was decided by the truth of the arguments (or of their tokens) only"""
    return not st0['opaque'] and all(k[0] == 'truth' and strip(k[1]) in (S('doc'), APP(S('doc')), S('docs'), S('flag'))
                                     for k in st['atoms'] if k not in st0['atoms'])


def bare(st, st0):
    """the path was decided by the arguments only"""
    return not st0['opaque'] and not any(opaque(k) for k in st['atoms'] if k not in st0['atoms'])


def emit(c, want=None):
    n = 0
    try:
        for st, rule, fn, why, sp in c21_findings(c):
            if want and rule not in want and st == 'bad':
                st = 'skip'
            if st == 'skip' or want and rule not in want:
                continue
            n += 1
            {'ok': c.ok, 'bad': c.bad, 'open': c.open}[st](rule, fn, why, sp)
    except PN.Undecided as e:
        c.open('native-class-shape', str(e), 'not understood')


def c21(c):
    emit(c)


def c22_py(c):
    emit(c, {'document-is-passed-unchanged'})


def c23_native(c):
    PN.guard(c, PN.native_constructors)


def c23_py(c):
    try:
        c23(c)
    except PN.Undecided as e:
        c.open('native-class-shape', str(e), 'not understood')
