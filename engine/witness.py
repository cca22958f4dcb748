"""Type-level witnesses: the crate in witness/ is type-checked against /repo's current tree; nothing is run."""
import fcntl, json, os, re, shutil, subprocess
from . import dump as D

SRC = os.path.join(D.VERIF, 'witness')


def run(force=False):
    """{(file, line): (kind, text, [error codes])}, {file: [codes of errors elsewhere]}, log"""
    w = os.path.join(D.CACHE, 'wit')
    os.makedirs(w, exist_ok=True)
    with open(os.path.join(D.CACHE, 'wit.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        D.ensure_lock()
        h = D.source_hash()
        for d, _, fs in sorted(os.walk(os.path.join(SRC, 'src'))):
            for f in sorted(fs):
                h += f + str(hash_text(open(os.path.join(d, f)).read()))
        st = os.path.join(w, 'result.json')
        if not force and os.path.exists(st):
            j = json.load(open(st))
            if j['hash'] == h:
                return parse(j['msgs'])
        shutil.rmtree(os.path.join(w, 'src'), ignore_errors=True)
        shutil.copytree(os.path.join(SRC, 'src'), os.path.join(w, 'src'))
        open(os.path.join(w, 'Cargo.toml'), 'w').write(open(os.path.join(SRC, 'Cargo.toml.in')).read().replace('@REPO@', D.REPO))
        shutil.copy(os.path.join(D.REPO, 'Cargo.lock'), os.path.join(w, 'Cargo.lock'))
        env = D.nightly_env(os.path.join(w, 'tgt'))
        p = subprocess.run(['cargo', '+nightly', 'check', '--offline', '--bins', '--keep-going', '--message-format=json'], env=env, cwd=w, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=800)
        msgs = []
        done = False
        for l in p.stdout.decode(errors='replace').splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m.get('reason') == 'compiler-message' and m['message'].get('level') == 'error':
                msgs.append({'target': m['target']['name'], 'code': (m['message'].get('code') or {}).get('code'), 'text': m['message']['message'], 'lines': sorted(lines(m['message'].get('spans', [])))})
            if m.get('reason') == 'build-finished':
                done = True
        if not done or (p.returncode and not msgs):
            D.fail('witness crate could not be checked:\n' + p.stderr.decode(errors='replace')[-3000:])
        json.dump({'hash': h, 'msgs': msgs}, open(st, 'w'))
        return parse(msgs)


def hash_text(t):
    import hashlib
    return hashlib.sha256(t.encode()).hexdigest()


def lines(spans):
    """(file, line) of the primary spans, seen through macro expansions"""
    out = set()
    for s in spans:
        x = s
        while x is not None:
            if x.get('is_primary') or x is not s or any(y.get('is_primary') for y in spans):
                if s.get('is_primary'):
                    out.add((x['file_name'], x['line_start']))
            e = x.get('expansion')
            x = e['span'] if e else None
    return out


def parse(msgs):
    wit, other = {}, {}
    for f in sorted(os.listdir(os.path.join(SRC, 'src', 'bin'))):
        for n, l in enumerate(open(os.path.join(SRC, 'src', 'bin', f)), 1):
            m = re.search(r'// ([+-])(sync|send) (.*)', l)
            if m:
                wit[(f, n)] = (m.group(1), m.group(2).capitalize(), m.group(3).strip(), [])
    for m in msgs:
        hit = False
        for fn, ln in m['lines']:
            k = (os.path.basename(fn), ln)
            if k in wit:
                wit[k][3].append((m['code'], m['text']))
                hit = True
        if not hit:
            other.setdefault(m['target'] + '.rs', []).append((m['code'], m['text']))
    return wit, other
