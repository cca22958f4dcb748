"""mutation self-test: python3 tools/mut.py FILE.py [name...] [-p C01,C02] [-j N]
FILE.py defines MUTS = [(name, 'bug:C01,C02' | 'benign', [(file, old, new), ...]), ...].
Each is applied to a scratch copy of /repo (under /tmp/m), dumped and run through all checks."""
import os, shutil, subprocess, sys, json, importlib.util
from concurrent.futures import ThreadPoolExecutor
import queue
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.environ.get('MUT_WORK', '/tmp/m')


def worker_dir(i):
    d = f'{WORK}/w{i}'
    if not os.path.isdir(d + '/cache/tgt'):
        os.makedirs(d + '/cache', exist_ok=True)
        subprocess.run(['cp', '-a', HERE + '/.cache/tgt', d + '/cache/tgt'], check=True)
    if os.path.isdir(d + '/repo'):
        shutil.rmtree(d + '/repo')
    subprocess.run(['rsync', '-a', '--exclude', 'target', '--exclude', '.git', '/repo/', d + '/repo/'], check=False)
    if not os.path.isdir(d + '/repo'):
        subprocess.run(f'mkdir {d}/repo && cd /repo && tar cf - --exclude=./target --exclude=./.git . | tar xf - -C {d}/repo', shell=True, check=True)
    return d


def run(d, edits, props, patch=None):
    for f, old, new in edits:
        p = f'{d}/repo/{f}'
        s = open(p).read()
        if s.count(old) < 1:
            return {'error': f'pattern not in {f}: {old[:60]!r}'}
        s = s.replace(old, new, 1)
        open(p, 'w').write(s)
    if patch:
        r = subprocess.run(['patch', '-p1', '-d', d + '/repo', '-i', patch], capture_output=True)
        if r.returncode:
            return {'error': r.stdout.decode()}
    env = dict(os.environ, GAOYA_REPO=d + '/repo', GAOYA_CACHE=d + '/cache')
    r = subprocess.run([sys.executable, os.path.join(HERE, 'tools', 'allprops.py')] + props, env=env, capture_output=True)
    try:
        return json.loads(r.stdout.decode().splitlines()[-1])
    except Exception:
        return {'error': (r.stderr.decode() or r.stdout.decode())[-1500:]}


def main():
    av = sys.argv[1:]
    props, j, names, f = [], 4, [], None
    i = 0
    while i < len(av):
        if av[i] == '-p':
            props = av[i + 1].split(','); i += 1
        elif av[i] == '-j':
            j = int(av[i + 1]); i += 1
        elif av[i] in ('-b', '-v'):
            pass
        elif f is None:
            f = av[i]
        else:
            names.append(av[i])
        i += 1
    muts = []
    f = os.path.abspath(f)
    if os.path.isdir(f):
        for n in sorted(os.listdir(f)):
            m = json.load(open(f'{f}/{n}/meta.json'))
            muts.append((n, 'bug:' + m['property'], [], f'{f}/{n}/patch.diff'))
    else:
        sp = importlib.util.spec_from_file_location('m', f)
        mod = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(mod)
        muts = [m + (None,) for m in mod.MUTS]
    muts = [m for m in muts if not names or any(m[0].startswith(n) for n in names)]
    if '-b' in av:
        muts = [m for m in muts if not m[1].startswith('bug')]
    q = queue.Queue()
    for k in range(min(j, len(muts))):
        q.put(k)

    def one(m):
        k = q.get()
        try:
            d = worker_dir(k)
            r = run(d, m[2], props, m[3])
        finally:
            q.put(k)
        exp = m[1]
        if 'error' in r:
            st = 'ERROR'
        else:
            bad = {p for p, v in r.items() if v['bad']}
            if exp.startswith('bug'):
                st = 'caught' if set(exp[4:].split(',')) & bad else ('ELSEWHERE' if bad else 'MISSED')
            else:
                st = 'FALSE-ALARM' if bad else 'quiet'
        print(f'{st:12} {m[0]} [{exp}]', flush=True)
        if 'error' in r:
            print('    ' + r['error'].replace('\n', '\n    '))
        else:
            for p, v in sorted(r.items()):
                for x in v['bad'][:3]:
                    if st != 'caught' or '-v' in av:
                        print(f'    {p} BAD {x[:260]}')
                for x in v['open'][:2]:
                    print(f'    {p} open {x[:200]}')
        return st
    with ThreadPoolExecutor(j) as ex:
        res = list(ex.map(one, muts))
    from collections import Counter
    print(Counter(res))


main()
