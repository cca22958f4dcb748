"""python3 tools/mkseed.py FILE.py [name...]: makes and validates planted bugs under seeded/.
FILE.py defines SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo_rs=... | demo_py=...)].
Each is validated in a scratch copy of /repo: builds, passes the stable tests, the demo passes without and fails with it."""
import json, os, re, shutil, subprocess, sys, importlib.util
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/sd'
BASE = 'cb25fe2'

RS = '''#!/bin/bash
# exits 0 when the property holds on this program, 1 otherwise; run with cwd = the repository, after the build
H=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src"
cp "$H/demo.rs" "$T/src/main.rs"
[ -f "$R/Cargo.lock" ] && cp "$R/Cargo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
gaoya = { path = "$R/gaoya" }
[workspace]
EOF
export CARGO_TARGET_DIR="$T/target"
cd "$T" && cargo build --offline -q || exit 3
timeout 200 "$T/target/debug/demo"
'''
PY = '''#!/bin/bash
# exits 0 when the property holds on this program, 1 otherwise; run with cwd = the repository, after the build
H=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
PY=/opt/vp/venv/bin/python
[ -x $PY ] || PY=python3
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$R/py-gaoya" timeout 200 $PY "$H/demo.py"
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def build_test():
    env = open('/opt/vp/build.sh').read().replace('/opt/vp/env.sh', W + '/env.sh').replace('/repo', W + '/repo')
    open(W + '/build.sh', 'w').write(env)
    open(W + '/env.sh', 'w').write(open('/opt/vp/env.sh').read().replace('/repo', W + '/repo'))
    open(W + '/test.sh', 'w').write(open('/opt/vp/test.sh').read().replace('/opt/vp/env.sh', W + '/env.sh').replace('/repo', W + '/repo'))
    r = sh(f'bash {W}/build.sh')
    if r.returncode:
        return 'BUILD ' + (r.stderr + r.stdout)[-1500:]
    sh(f'bash {W}/test.sh {W}/out.json')
    o = json.load(open(W + '/out.json'))
    return o


def passed(o):
    return set(o.get('passed', []))


def main():
    sp = importlib.util.spec_from_file_location('m', sys.argv[1])
    mod = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(mod)
    names = sys.argv[2:]
    os.makedirs(W, exist_ok=True)
    if not os.path.isdir(W + '/repo'):
        sh(f'cp -a /repo {W}/repo')
    base = json.load(open('/opt/vp/BASELINE.json'))
    want = set()
    for k in ('stable',):
        if isinstance(base.get(k), list):
            want = set(base[k]); break
    for s in mod.SEEDS:
        if names and not any(s['id'].startswith(n) for n in names):
            continue
        sh(f'cd {W}/repo && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD')
        d = f'{HERE}/seeded/{s["id"]}'
        os.makedirs(d, exist_ok=True)
        if 'demo_rs' in s:
            open(d + '/demo.rs', 'w').write(s['demo_rs']); open(d + '/demo.sh', 'w').write(RS)
        else:
            open(d + '/demo.py', 'w').write(s['demo_py']); open(d + '/demo.sh', 'w').write(PY)
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        bad = None
        o = build_test() if 'demo_py' in s else None
        r = sh(f'bash {d}/demo.sh', cwd=W + '/repo')
        if r.returncode:
            print('FAIL', s['id'], 'demo on clean:', (r.stdout + r.stderr)[-1500:]); continue
        for f, old, new in s['edits']:
            p = f'{W}/repo/{f}'
            t = open(p).read()
            if t.count(old) < 1:
                bad = f'pattern not in {f}: {old[:60]!r}'; break
            open(p, 'w').write(t.replace(old, new, 1))
        if bad:
            print('FAIL', s['id'], bad); continue
        diff = sh(f'cd {W}/repo && git diff').stdout
        open(d + '/patch.diff', 'w').write(diff)
        own = []
        for f in {e[0] for e in s['edits']}:
            orig = sh(f'git -C /repo show {BASE}:{f}').stdout.splitlines()
            own += [l[1:] for l in sh(f'cd {W}/repo && git diff -- {f}').stdout.splitlines() if l.startswith('-') and not l.startswith('---') and l[1:] not in orig]
        if own:
            print('  warning: touches lines of own commits:', own[:3])
        o = build_test()
        if isinstance(o, str):
            print('FAIL', s['id'], o); continue
        miss = want - passed(o)
        r = sh(f'bash {d}/demo.sh', cwd=W + '/repo')
        ok = not miss and r.returncode not in (0, 3)
        print('OK  ' if ok else 'FAIL', s['id'], 'missing tests', sorted(miss)[:3], 'demo rc', r.returncode, (r.stdout + r.stderr).strip()[-200:])
    sh(f'cd {W}/repo && git checkout -q -- .')


main()
