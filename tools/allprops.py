"""all properties on one tree: prints {property: {bad: [...], open: [...], ok: n}} as JSON (used by tools/mut.py)"""
import json, os, sys, threading
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
os.chdir(HERE)
sys.setrecursionlimit(20000)
threading.stack_size(512 * 1024 * 1024)


def main():
    from engine import dump as D
    from rules import registry
    from rules.common import Ctx, Missing
    from engine.interp import Program
    d, info = D.dump()
    prog = Program(d)
    ctx = Ctx(prog)
    ctx.tier, ctx.repo = 'quick', D.REPO
    out = {}
    for pid, spec in sorted(registry.PROPS.items()):
        if len(sys.argv) > 1 and pid not in sys.argv[1:]:
            continue
        ctx.obs = []
        for part in spec['parts']:
            n0 = len(ctx.obs)
            try:
                part(ctx)
            except Missing as e:
                ctx.bad('anchor-present', str(e), 'missing')
            except Exception as e:
                import traceback
                tb = traceback.extract_tb(e.__traceback__)[-1]
                ctx.open('rule-not-applicable', part.__name__, f'{type(e).__name__}: {e} ({os.path.basename(tb.filename)}:{tb.lineno})')
            if len(ctx.obs) == n0:
                ctx.open('rule-empty', part.__name__, 'no instance')
        out[pid] = {'bad': [repr(o) for o in ctx.obs if o.status == 'bad'], 'open': [repr(o) for o in ctx.obs if o.status == 'open'],
                    'ok': sum(o.status == 'ok' for o in ctx.obs)}
    print(json.dumps(out))


t = threading.Thread(target=main)
t.start()
t.join()
