"""Pretty-print a dumped body (debugging aid)."""
import json, sys
def place(p):
    s = f"_{p[0]}"
    for e in p[1:]:
        if e[0] == '*': s = f"(*{s})"
        elif e[0] == 'f': s += f".{e[1]}"
        elif e[0] == 'i': s += f"[_{e[1]}]"
        elif e[0] == 'd': s += f" as v{e[1]}"
        else: s += str(e)
    return s
def cal(f):
    r = f.get('res')
    s = f['path']
    if r and r['path'] != s: s += f" => {r['path']}"
    return s
def op(o):
    k = o['k']
    if k == 'cp': return place(o['p'])
    if k == 'mv': return 'move ' + place(o['p'])
    if k == 'fn': return 'fn ' + cal(o['fn'])
    if k == 'c':
        if 'promoted' in o: return f"promoted{o['promoted']}"
        v = o.get('v')
        if v and v[0] in ('slice', 'mem', 'ptrbytes'):
            try: vv = repr(bytes.fromhex(v[1]))
            except Exception: vv = v
        else: vv = v
        return f"const {o.get('def','')} {vv}"
    return str(o)
def rv(r):
    k = r[0]
    if k == 'use': return op(r[1])
    if k == 'ref': return ('&mut ' if r[1] else '&') + place(r[2])
    if k == 'cast': return f"{op(r[2])} as[{r[1]}] t{r[3]}"
    if k == 'bin': return f"{r[1]}({op(r[2])}, {op(r[3])})"
    if k == 'un': return f"{r[1]}({op(r[2])})"
    if k == 'discr': return f"discr({place(r[1])})"
    if k == 'agg': return f"agg{r[1]}({', '.join(op(o) for o in r[2])})"
    if k == 'repeat': return f"[{op(r[1])}; {r[2]}]"
    return str(r)
def show(b, types, out=sys.stdout):
    for i, l in enumerate(b['locals']):
        print(f"  let _{i}: {types[l[0]]['s']}  {l[1] if len(l)>1 else ''}", file=out)
    print('  upvars', [(n, place(p)) for n, p in b['upvars']], file=out)
    for i, bb in enumerate(b['blocks']):
        if bb['cl']: continue
        print(f"  bb{i}:", file=out)
        for s in bb['s']:
            if s[0] == '=': print(f"    {place(s[1])} = {rv(s[2])}   // {s[3][1]}", file=out)
            else: print('   ', s, file=out)
        t = bb['t']
        if t[0] == 'call':
            print(f"    {place(t[3])} = {op(t[1])}({', '.join(op(a) for a in t[2])}) -> {t[4]}  // {bb['sp'][1]}", file=out)
        elif t[0] == 'switch':
            print(f"    switch {op(t[1])} {t[2]} else {t[3]}", file=out)
        elif t[0] == 'assert':
            print(f"    assert {op(t[1])} == {t[2]} {t[3][0]} -> {t[4]}", file=out)
        elif t[0] == 'drop':
            print(f"    drop {place(t[1])} -> {t[2]}", file=out)
        else: print('   ', t, file=out)
if __name__ == '__main__':
    d = json.load(open(sys.argv[1]))
    for f in d['fns']:
        if len(sys.argv) < 3: print(f['path'], f['kind'], f['vis'], f.get('impl_trait'), f.get('derived'))
        elif f['path'] == sys.argv[2]:
            print(f['path'], f['kind'], f['vis'])
            show(f, d['types'])
            for i, p in enumerate(f['promoted']):
                print(' promoted', i); show(p, d['types'])
