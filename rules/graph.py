"""Call graph and item facts straight from the dump (resolved callees, closures, statics)."""
from engine.interp import strip_generics

# callee path suffixes that read something other than their arguments
NONDET = (
    'thread_rng', 'rand::random', 'rngs::thread::rng', 'rand::rng', 'from_entropy', 'from_os_rng', 'getrandom', 'OsRng::new', 'OsRng::default',
    'SystemTime::now', 'Instant::now', 'SystemTime::elapsed', 'Instant::elapsed', 'RandomState::new', 'process::id',
    'thread::current', 'ThreadId::as_u64', 'current_thread_index', 'current_num_threads', 'available_parallelism', 'LocalKey::with', 'LocalKey::get', 'LocalKey::try_with',
    'env::var', 'env::vars', 'env::args', 'env::current_dir', 'fs::read', 'fs::read_to_string', 'File::open', 'num_cpus::get', 'type_name_of_val',
    'AHasher::default', 'ThreadRng::default', 'Uuid::new_v4', 'const_ptr::addr', 'mut_ptr::addr', 'expose_provenance', 'expose_addr',
    'env::var_os',
)
NONDET_TYPES = ('RandomState', 'ThreadRng', 'OsRng')


def walk(j):
    if isinstance(j, dict):
        yield j
        for v in j.values():
            yield from walk(v)
    elif isinstance(j, list):
        for v in j:
            yield from walk(v)


def refs(f):
    """(kind, key, path, args, span) of everything a body refers to: functions called or taken as value, closures, statics"""
    out = []
    for bb in f['bbs']:
        if bb.get('cleanup'):
            continue
        items = list(bb['st']) + [bb['term']]
        for it in items:
            sp = it.get('sp', f['sp'])
            for d in walk(it):
                if 'fn' in d and isinstance(d['fn'], dict) and 'key' in d['fn']:
                    g = d['fn']
                    r = g.get('res') or {}
                    out.append(('fn', r.get('key') or g['key'], strip_generics(r.get('path') or g['path']), g, sp))
                if d.get('r') == 'agg' and d.get('k') == 'closure':
                    out.append(('closure', d['key'], d['key'], d, sp))
                if 'static' in d:
                    out.append(('static', str(d['static']), str(d['static']), d, sp))
    return out


def reach(P, roots):
    """functions of the workspace reachable from roots: key -> chain of keys; plus every external reference"""
    seen = {r: (r,) for r in roots}
    todo = list(roots)
    ext = []
    while todo:
        k = todo.pop()
        f = P.fns.get(k)
        if f is None:
            continue
        for kind, key, path, g, sp in refs(f):
            if key in P.fns:
                if key not in seen:
                    seen[key] = seen[k] + (key,)
                    todo.append(key)
            else:
                ext.append((k, kind, key, path, g, sp))
    return seen, ext


def addresses(f):
    """places where a body turns an address into a number"""
    for bb in f['bbs']:
        for it in list(bb['st']) + [bb['term']]:
            for d in walk(it):
                if d.get('r') == 'cast' and (d['kind'].startswith('PointerExpose') or d['kind'] == 'Transmute' and (d.get('from') or {}).get('k') in ('ptr', 'ref') and d['ty'].get('k') == 'prim'):
                    yield it.get('sp', f['sp'])


def types_in(g):
    for d in walk(g):
        if d.get('k') == 'adt':
            yield d['p'].split('::')[-1], d


def nondet(ext):
    """external references that make a result depend on more than the arguments"""
    out = []
    for k, kind, key, path, g, sp in ext:
        p = strip_generics(path)
        if any(p.endswith(n) for n in NONDET):
            out.append((k, p, sp))
            continue
        last = p.split('::')[-1]
        if last in ('default', 'new', 'build_hasher', 'with_hasher', 'hash_one'):
            a = list(g.get('args') or [])
            first = a[0] if a else {}
            own = (g.get('res') or {}).get('implself') or first
            nm = (own.get('p') or '').split('::')[-1] if isinstance(own, dict) else ''
            if nm in NONDET_TYPES:
                out.append((k, f'{nm}::{last}', sp))
            elif nm == 'BuildHasherDefault' and any(t == 'AHasher' or t == 'DefaultHasher' for t, _ in types_in(first)):
                pass
    return out
