"""Thread-safety of the public types and queries that write nothing (C18)."""
import re
from .common import *
from .graph import reach, refs, walk
from engine import witness as W

INDEX = ('MinHashIndex', 'SimHashIndex', 'MinHashStringIndex')
WRITES = ('Cell::set', 'Cell::replace', 'Cell::swap', 'Cell::take', 'Cell::update', 'Cell::get', 'RefCell::borrow_mut', 'RefCell::borrow', 'RefCell::try_borrow_mut', 'RefCell::replace', 'Mutex::lock', 'Mutex::try_lock', 'RwLock::write', 'RwLock::read', 'RwLock::try_write',
          'UnsafeCell::get', 'OnceCell::get_or_init', 'OnceCell::set', 'OnceLock::get_or_init', 'OnceLock::set', 'LazyLock::force', 'LocalKey::with', 'LocalKey::set', 'LocalKey::with_borrow_mut', 'AtomicCell::store', 'AtomicCell::swap', 'AtomicCell::load')
ATOMIC = ('store', 'swap', 'fetch_add', 'fetch_sub', 'fetch_or', 'fetch_and', 'fetch_max', 'fetch_min', 'fetch_update', 'compare_exchange', 'compare_exchange_weak', 'load')
READ_ONLY = ('Cell::get', 'RefCell::borrow', 'RwLock::read', 'AtomicCell::load', 'load')


def hidden(path):
    """the callee reads or writes state behind a shared reference"""
    p = path.split('::')
    if len(p) < 2:
        return None
    two = '::'.join(p[-2:])
    if two in WRITES:
        return two
    if p[-2].startswith('Atomic') and p[-1] in ATOMIC:
        return two
    return None


def witnesses(c):
    wit, other = W.run(getattr(c, 'tier', '') == 'thorough' and not os.environ.get('VERIF_NOFORCE'))
    for (f, n), (sign, tr, what, errs) in sorted(wit.items()):
        at = f'witness/src/bin/{f}:{n}'
        rule = 'thread-safe-contents-make-it-' + tr if sign == '+' else 'not-' + tr + '-unless-contents-are'
        if not errs:
            if other.get(f):
                c.open(rule, what, f'the witness file does not compile for another reason: {other[f][0]}', at)
            else:
                c.ok(rule, what, '', at)
            continue
        codes = {e[0] for e in errs}
        if sign == '+' and 'E0277' in codes:
            c.bad(rule, what, f'is no longer {tr}: {[e[1] for e in errs if e[0] == "E0277"][0][:200]}', at)
        elif sign == '-' and codes & {'E0283', 'E0790', 'E0282'}:
            c.bad(rule, what, f'is {tr}: safe code can move it across threads', at)
        else:
            c.open(rule, what, str(errs[0])[:200], at)


def manual_impls(c):
    """hand-written Send / Sync: every type parameter held must be bounded by the same trait"""
    n = 0
    for im in c.P.impls:
        t = (im.get('trait') or '').split('::')[-1]
        if t not in ('Send', 'Sync') or (im.get('self') or {}).get('k') != 'adt':
            continue
        a = c.P.adts.get(im['self'].get('key'))
        if a is None:
            continue
        n += 1
        used = {x['n'] for v in a['variants'] for f in v['fields'] for x in walk(f['ty']) if x.get('k') == 'param' and 'PhantomData' not in (f['ty'].get('p') or '')}
        args = [x.get('n') for x in im['self'].get('a', []) if x.get('k') == 'param']
        missing = [p for p in args if p in used and not any(re.search(rf'TraitPredicate\(<{p} as [\w:]*{t}>', q) or re.search(rf'<{p} as [\w:]*\b{t}\b', q) for q in im.get('preds', []))]
        # containers are Send + Sync by their own trait
        missing = [p for p in missing if not any(f'<{p} as ' in q and 'IdContainer' in q for q in im.get('preds', []))]
        nm = a['path'].split('::')[-1]
        if missing:
            c.bad('no-unjustified-Send-or-Sync', f'unsafe impl {t} for {nm}', f'nothing requires {", ".join(missing)} to be {t}', im['sp'])
        else:
            c.ok('no-unjustified-Send-or-Sync', f'unsafe impl {t} for {nm}', 'bounded', im['sp'])
    c.ok('no-unjustified-Send-or-Sync', 'gaoya, pygaoya', f'{n} hand-written impls')


def queries(c):
    out = []
    for k, f in sorted(c.P.fns.items()):
        im = f.get('implself') or {}
        if f['kind'] == 'Closure' or f['crate'] != 'gaoya' or im.get('p', '').split('::')[-1] not in INDEX or not f['reach'] or not f['inputs']:
            continue
        if re.search(r'query|^size$|centroid|^fmt$|^is_empty$|^len$|^contains', f['name']):
            t = f['inputs'][0]
            if t.get('k') == 'ref' and (t['t'].get('p') or '').split('::')[-1] in INDEX:
                out.append(k)
    return out


def c18_queries(c):
    ks = queries(c)
    if len(ks) < 8:
        raise Missing('query operations')
    for k in ks:
        f = c.P.fns[k]
        if f['inputs'][0].get('m'):
            c.bad('queries-take-a-shared-reference', k, 'takes the index by exclusive reference: two queries can no longer run at the same time')
        else:
            c.ok('queries-take-a-shared-reference', k)
        seen, ext = reach(c.P, [k])
        hid, raw = [], []
        for g in seen:
            fn = c.P.fns.get(g)
            if fn is None:
                continue
            for kind, key, path, d, sp in refs(fn):
                if kind == 'fn' and hidden(path):
                    hid.append((hidden(path), sp, g))
                if kind == 'fn' and path.split('::')[-1] in ('transmute', 'write_volatile') or kind == 'fn' and path.endswith(('ptr::write', 'ptr::replace', 'ptr::swap')):
                    raw.append((path, sp, g))
            for bb in fn['bbs']:
                if bb.get('cleanup'):
                    continue
                for st in bb['st']:
                    for d in walk(st):
                        if d.get('r') == 'cast' and (d.get('ty') or {}).get('k') == 'ptr' and d['ty'].get('m') and (d.get('from') or {}).get('k') in ('ptr', 'ref') and not d['from'].get('m'):
                            raw.append(('cast to *mut', st.get('sp', fn['sp']), g))
        for p, sp, g in raw[:1]:
            c.bad('queries-write-nothing', k, f'{p} in {c.P.fns[g]["path"]}: writes through a shared reference', sp)
        if hid and not raw:
            o = c.summ(k)
            wr = [x for x in hid if not x[0].endswith(READ_ONLY)]
            dep = o.error or any(x.op == 'call' and hidden(strip_generics(x.a[0])) for x in subterms(o.ret)) or any(x.op in ('static',) for x in subterms(o.ret)) or opaque_in(o.ret)
            if wr and dep:
                c.bad('queries-write-nothing', k, f'{wr[0][0]} in {c.P.fns[wr[0][2]]["path"]}: state that later queries see is changed', wr[0][1])
            else:
                c.open('queries-write-nothing', k, f'{hid[0][0]} in {c.P.fns[hid[0][2]]["path"]}', hid[0][1])
        elif not raw:
            o = c.summ(k)
            if o.error:
                c.ok('queries-write-nothing', k, f'{len(seen)} functions reachable, none with interior mutability')
                continue
            me = o.args[0]
            ws = [e for e in o.effects if e.op not in ('panic', 'capacity', 'read', 'call', 'havoc') and e.loc is not None and e.loc[0] == ('V', me)]
            for e in ws:
                c.bad('queries-write-nothing', o, f'{e.op} of {showloc(*e.loc)[:100]}', e.sp)
            if not ws:
                c.ok('queries-write-nothing', o)


def c18(c):
    witnesses(c)
    manual_impls(c)
    c18_queries(c)
