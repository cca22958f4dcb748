"""Builds the MIR dump of /repo's current working tree (the compiler's own, type-checked
intermediate representation) with the driver in /verif/driver."""
import fcntl, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('GAOYA_REPO', '/repo')
CACHE = os.environ.get('GAOYA_CACHE') or os.path.join(VERIF, '.cache')
DRIVER = os.path.join(VERIF, 'driver', 'target', 'release', 'mirdump')


def sh(cmd, env=None, cwd=None, timeout=800):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors='replace')


def nightly_env(tgt):
    env = dict(os.environ)
    for k in ('RUSTC_WRAPPER', 'RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WORKSPACE_WRAPPER', 'RUSTUP_TOOLCHAIN'):
        env.pop(k, None)
    env['PATH'] = '/root/.cargo/bin:' + env.get('PATH', '')
    env['CARGO_TARGET_DIR'] = tgt
    env['CARGO_NET_OFFLINE'] = 'true'
    env.setdefault('PYO3_PYTHON', '/usr/bin/python3')
    return env


def fail(msg):
    print(msg, file=sys.stderr)
    raise SystemExit(3)


def build_driver():
    src = os.path.join(VERIF, 'driver')
    h = hashlib.sha256()
    for d, _, fs in sorted(os.walk(os.path.join(src, 'src'))):
        for f in sorted(fs):
            h.update(open(os.path.join(d, f), 'rb').read())
    stamp = os.path.join(src, 'target', 'stamp')
    if os.path.exists(DRIVER) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
        return
    rc, out = sh(['cargo', '+nightly', 'build', '--release', '--offline'], nightly_env(os.path.join(src, 'target')), src)
    if rc:
        fail('driver build failed:\n' + out[-4000:])
    open(stamp, 'w').write(h.hexdigest())


def source_files():
    out = []
    for d, ds, fs in os.walk(REPO):
        ds[:] = sorted(x for x in ds if x not in ('.git', 'target', 'node_modules', '.venv', '__pycache__'))
        for f in sorted(fs):
            if f.endswith(('.rs', '.toml')) or f == 'Cargo.lock':
                out.append(os.path.join(d, f))
    return out


def source_hash():
    h = hashlib.sha256()
    for p in source_files():
        h.update(p.encode() + b'\0')
        try:
            h.update(open(p, 'rb').read())
        except OSError:
            pass
        h.update(b'\0')
    return h.hexdigest()


def ensure_lock():
    # Cargo.lock is git-ignored in /repo but needed offline; it is normally there.
    p = os.path.join(REPO, 'Cargo.lock')
    if not os.path.exists(p):
        shutil.copy(os.path.join(VERIF, 'tools', 'Cargo.lock'), p)


def dump(force=False):
    """returns (dir with gaoya.json/pygaoya.json, info)"""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        build_driver()
        ensure_lock()
        h = source_hash() + open(os.path.join(VERIF, 'driver', 'target', 'stamp')).read()
        out = os.path.join(CACHE, 'dump')
        stamp = os.path.join(out, 'stamp')
        want = [os.path.join(out, n) for n in ('gaoya.json', 'pygaoya.json')]
        t0 = time.time()
        if not force and os.path.exists(stamp) and open(stamp).read() == h and all(os.path.exists(w) for w in want):
            return out, {'reused': True, 'source_sha256': h[:64], 'wall_s': 0}
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        tgt = os.path.join(CACHE, 'tgt')
        for d in ('build', '.fingerprint', 'incremental', 'deps'):
            q = os.path.join(tgt, 'debug', d)
            for n in os.listdir(q) if os.path.isdir(q) else ():
                if n.split('-')[0] in ('gaoya', 'pygaoya', 'libgaoya', 'libpygaoya'):
                    f = os.path.join(q, n)
                    shutil.rmtree(f, ignore_errors=True) if os.path.isdir(f) else os.unlink(f)
        env = nightly_env(tgt)
        rc, root = sh(['rustc', '+nightly', '--print', 'sysroot'], env)
        env['LD_LIBRARY_PATH'] = root.strip() + '/lib'
        env['RUSTC_WORKSPACE_WRAPPER'] = DRIVER
        env['MIRDUMP_OUT'] = out
        for again in (True, False):
            rc, log = sh(['cargo', '+nightly', 'check', '--offline', '--lib', '-p', 'gaoya', '-p', 'pygaoya'], env, REPO)
            if not again or all(os.path.exists(w) for w in want):
                break
            shutil.rmtree(tgt, ignore_errors=True)
        if rc or not all(os.path.exists(w) for w in want):
            fail('the tree does not compile (or the dump failed):\n' + log[-4000:])
        open(stamp, 'w').write(h)
        return out, {'reused': False, 'source_sha256': h[:64], 'wall_s': round(time.time() - t0, 1)}


if __name__ == '__main__':
    print(dump(force='--force' in sys.argv))
