"""compact printer of dumped MIR (debugging aid, and used in replay files)"""
import json, sys


def ty(t, d=0):
    if t is None: return '?'
    k = t['k']
    if k == 'adt':
        a = ','.join(ty(x, d+1) for x in t['a'] if x['k'] != 'region')
        n = t['p'].split('::')[-1]
        return n + (f'<{a}>' if a and d < 4 else '')
    if k == 'ref': return ('&mut ' if t['m'] else '&') + ty(t['t'], d)
    if k == 'ptr': return '*' + ty(t['t'], d)
    if k == 'tuple': return '(' + ','.join(ty(x, d) for x in t['a']) + ')'
    if k == 'slice': return '[' + ty(t['t'], d) + ']'
    if k == 'array': return '[' + ty(t['t'], d) + ';' + str(t.get('n')) + ']'
    if k == 'closure': return 'clo'
    if k == 'fndef': return 'fn:' + t['f']['name']
    return str(t.get('n', t.get('v', k)))


def place(p):
    s = f"_{p['l']}"
    for x in p['p']:
        if x == '*': s = f'(*{s})'
        elif isinstance(x, str): s += x
        elif 'f' in x: s += f".{x['f']}"
        elif 'ix' in x: s += f"[_{x['ix']}]"
        elif 'dc' in x: s += f"@{x['n']}"
        elif 'cix' in x: s += f"[{'-' if x['end'] else ''}{x['cix']}]"
        else: s += json.dumps(x)
    return s


def op(o):
    if o['op'] in ('copy', 'move'): return place(o['place'])
    if o['op'] == 'const':
        if 'fn' in o: return 'fn ' + o['fn']['path']
        if 'val' in o: return json.dumps(o['val'])[:80]
        return 'const ' + str(o.get('cpath', o.get('sym', '?')))
    return str(o)


def rv(r):
    k = r['r']
    if k == 'use': return op(r['o'])
    if k == 'ref': return ('&mut ' if r['m'] else '&') + place(r['place'])
    if k == 'rawptr': return '&raw ' + place(r['place'])
    if k == 'cast': return f"{op(r['o'])} as {ty(r['ty'])} ({r['kind']})"
    if k == 'bin': return f"{r['op']}({op(r['a'])}, {op(r['b'])})"
    if k == 'un': return f"{r['op']}({op(r['o'])})"
    if k == 'discr': return f"discr({place(r['place'])})"
    if k == 'agg': return f"agg {r['k']} {str(r.get('adt',''))[-30:]}{r.get('variant','')}[{', '.join(op(x) for x in r['ops'])}]"
    if k == 'repeat': return f"[{op(r['o'])}; {r['n']}]"
    return json.dumps(r)[:100]


def dump_fn(f):
    out = [f"fn {f['path']}  argc={f['argc']} {f['sp']}"]
    out.append('  ' + ' '.join(f"_{i}:{ty(t)}" for i, t in enumerate(f['locals'])))
    for i, bb in enumerate(f['bbs']):
        if bb['cleanup']: continue
        out.append(f' bb{i}:')
        for s in bb['st']:
            if s['s'] == 'assign': out.append(f"   {place(s['place'])} = {rv(s['rv'])}")
            else: out.append('   ' + s['s'])
        t = bb['term']
        k = t['t']
        if k == 'call':
            fn = t['f'].get('fn')
            out.append(f"   {place(t['dest'])} = {fn['path'] if fn else op(t['f'])}({', '.join(op(a) for a in t['args'])}) -> {t.get('to')}")
        elif k == 'switch': out.append(f"   switch {op(t['o'])} {t['vals']} else {t['else']}")
        elif k == 'assert': out.append(f"   assert {op(t['o'])}=={t['exp']} {t['msg']} -> {t['to']}")
        elif k in ('goto', 'drop'): out.append(f"   {k} {t['to']}")
        else: out.append('   ' + k)
    return '\n'.join(out)


if __name__ == '__main__':
    d = json.load(open(sys.argv[1] if sys.argv[1].endswith('.json') else f'/verif/.cache/dump/{sys.argv[1]}.json'))
    for f in d['fns']:
        if sys.argv[2] in f['key'] or sys.argv[2] in f['path']:
            print(dump_fn(f))
