#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]

Dumps the type-checked MIR of /repo's current working tree (driver/), computes a summary of every function the
property is anchored in (engine/), and decides the obligations of the property (rules/).  Nothing of /repo is executed."""
import json, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.chdir(HERE)
sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 * 1024 * 1024)


def known(pid):
    """findings listed for this property: lines 'known: property=<id> key=<key> <what>'"""
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            w = l.split(None, 3)
            if len(w) == 4 and w[0] == 'known:' and w[1] == 'property=' + pid and w[2].startswith('key='):
                out[w[2][4:]] = w[3].strip()
    return out


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    from engine import dump as D
    from rules import registry
    spec = registry.PROPS[pid]
    rust = spec.get('rust', True)
    ctx = None
    info = {'reused': None, 'source_sha256': '', 'wall_s': 0}
    d, info = D.dump(force=tier == 'thorough' and not os.environ.get('VERIF_NOFORCE'))
    from rules.common import Ctx, Missing
    from engine.interp import Program
    prog = Program(d)
    ctx = Ctx(prog)
    ctx.tier = tier
    ctx.repo = D.REPO
    for part in spec['parts']:
        n0 = len(ctx.obs)
        try:
            part(ctx)
        except Missing as e:
            ctx.bad('anchor-present', str(e), f'{e} is part of the public interface the property is stated over and no longer exists')
        except SystemExit:
            raise
        except Exception as e:
            if os.environ.get('VERIF_DEBUG'):
                raise
            tb = traceback.extract_tb(e.__traceback__)[-1]
            ctx.open('rule-not-applicable', part.__name__, f'{type(e).__name__}: {e} ({os.path.basename(tb.filename)}:{tb.lineno})')
        if len(ctx.obs) == n0:
            ctx.open('rule-empty', part.__name__, 'no instance')
    kn = known(pid)
    bad, seen = [], set()
    for o in ctx.obs:
        if o.status == 'bad':
            if o.key in kn:
                if o.key not in seen:
                    print(f'KNOWN-FINDING: property={pid} {kn[o.key]}')
                seen.add(o.key)
            else:
                bad.append(o)
    by = {}
    for o in ctx.obs:
        by.setdefault(o.rule, {'ok': 0, 'bad': 0, 'open': 0})[o.status] += 1
    nok = sum(1 for o in ctx.obs if o.status == 'ok')
    opn = [o for o in ctx.obs if o.status == 'open']
    inst = {}
    for o in ctx.obs:
        k = f'{o.status}: {o.rule} @ {o.fn} {o.sp}'
        inst[k] = inst.get(k, 0) + 1
    os.makedirs('evidence', exist_ok=True)
    rp = f'evidence/{pid}.violations.txt'
    if bad:
        with open(rp, 'w') as f:
            for o in bad:
                f.write(f'property {pid}\nrule     {o.rule}\nfunction {o.fn}\nat       {o.sp}\nwhy      {o.detail}\n\n')
    elif os.path.exists(rp):
        os.unlink(rp)
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': {
            'explanation': spec['explain'],
            'obligations': len(ctx.obs), 'discharged': nok, 'undecided': len(opn), 'rules': by,
            'analysed': {'functions': sorted(f'{k} ({v})' for k, v in ctx.analysed.items()), **ctx.counts},
            'instances': [f'{k} x{n}' for k, n in inst.items()],
            'undecided_detail': [repr(o)[:400] for o in opn],
            'program': {'functions_in_dump': len(prog.fns), 'source_sha256': info['source_sha256'], 'dump_reused': info['reused'], 'dump_wall_s': info['wall_s']},
            'checker_cmd': f'python3 check.py {pid}',
            'trusted_base': registry.TRUSTED,
        },
        'assumptions': spec.get('assume', []),
        'wall_s': round(time.time() - t0, 2), 'violations': len(bad),
    }
    with open(f'evidence/{pid}.json', 'w') as f:
        json.dump(ev, f, indent=1)
    print(f'{pid}: {len(ctx.obs)} obligations, {nok} discharged, {len(opn)} undecided, {len(bad)} violated; '
          f'{ctx.counts["functions"]} functions, {ctx.counts["call_sites"]} call sites, {ev["wall_s"]} s')
    for o in opn:
        print(f'  undecided {o.rule} {o.fn} {o.sp}: {o.detail[:200]}')
    for o in bad:
        print(f'  {o.sp}: {o.fn}: {o.rule}: {o.detail[:600]}')
    if bad:
        print(f'VIOLATION property={pid} replay={rp}')
        return 1
    return 0


if __name__ == '__main__':
    rc = [3]

    def run():
        try:
            rc[0] = main()
        except SystemExit as e:
            rc[0] = e.code
    t = threading.Thread(target=run)
    t.start()
    t.join()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc[0] if isinstance(rc[0], int) else 3)
