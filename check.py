#!/usr/bin/env python3
"""check.py <property id>: decide one property from the current source of /repo."""
import importlib, json, os, pickle, pkgutil, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)


def known(pid):
    r = {}
    f = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(f):
        for l in open(f):
            if l.startswith('finding:'):
                w = l[8:].split(None, 2)
                if len(w) >= 2 and w[0] == f'property={pid}' and w[1].startswith('key='):
                    r[w[1][4:]] = w[2].strip() if len(w) > 2 else ''
    return r


def parallel(progs, tier, names):
    """one process per configuration; results merged in configuration order"""
    from sa.framework import R
    kids = []
    for c, g in progs.items():
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rd)
                r = R({c: g}, tier)
                r.run(names)
                d = pickle.dumps((r.findings, r.goods, r.unsures, r.fns, r.callsites, r.paths))
            except BaseException as e:
                d = pickle.dumps(e)
            with os.fdopen(wr, 'wb') as o:
                o.write(d)
            os._exit(0)
        os.close(wr)
        kids.append((pid, rd))
    tot = R({}, tier)
    keys = set()
    for pid, rd in kids:
        with os.fdopen(rd, 'rb') as i:
            d = i.read()
        os.waitpid(pid, 0)
        x = pickle.loads(d)
        if isinstance(x, BaseException):
            raise x
        for f in x[0]:
            if f.key not in keys:
                keys.add(f.key)
                tot.findings.append(f)
        tot.goods += x[1]
        tot.unsures += x[2]
        tot.fns |= x[3]
        tot.callsites |= x[4]
        tot.paths += x[5]
    return tot


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from sa import build, props
    from sa.prog import Prog
    from sa.framework import R, RULES
    import sa.rules
    for m in pkgutil.iter_modules(sa.rules.__path__):
        importlib.import_module('sa.rules.' + m.name)
    p = props.PROPS[pid]
    dumps = build.dump_all(tier == 'thorough')
    progs = {c: Prog(f, c) for c, f in dumps.items()}
    names = props.expand(p['rules'], RULES)
    r = parallel(progs, tier, names)
    kn = known(pid)
    new, old = [], []
    for f in r.findings:
        (old if f.key.replace(' ', '_') in kn else new).append(f)
    # every anchored function still has to be there, and every rule has to have decided something
    n_ob = len(r.goods) + len(r.findings)
    evd = os.environ.get('SSHCERTS_EVIDENCE', os.path.join(ROOT, 'evidence'))
    os.makedirs(evd, exist_ok=True)
    samples = [{'rule': a, 'config': b, 'obligation': c} for a, b, c in r.goods[:: max(1, len(r.goods) // 12)]][:14]
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': p.get('level', 'other'),
        'coverage': {
            'explanation': p['rule_text'],
            'rule': p['rule_text'],
            'configurations': {c: {'functions_in_program': len(g.fns)} for c, g in progs.items()},
            'rules_run': names,
            'functions_analysed': len(r.fns),
            'functions': sorted({x for x in r.fns})[:80],
            'abstract_paths': r.paths,
            'call_sites': len(r.callsites),
            'obligations': n_ob,
            'discharged': len(r.goods),
            'undecided': len(r.unsures),
            'undecided_list': sorted({f'{a}: {c}' for a, b, c in r.unsures})[:30],
            'known_findings': [f.key for f in old],
            'samples': samples,
        },
        'assumptions': props.ASSUMPTIONS + p.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(new),
    }
    json.dump(ev, open(os.path.join(evd, f'{pid}.json'), 'w'), indent=1)
    print(f'{pid}: {len(names)} rules, {len(r.fns)} functions, {r.paths} abstract paths, {len(r.callsites)} call sites, '
          f'{n_ob} obligations, {len(r.goods)} discharged, {len(r.unsures)} undecided')
    for u in sorted({f'{a}: {c}' for a, b, c in r.unsures})[:10]:
        print('  undecided:', u[:300])
    for f in old:
        print(f'KNOWN-FINDING: property={pid} {f.key} {kn[f.key.replace(" ", "_")]}')
    if new:
        rp = os.path.join(evd, f'{pid}.violation.txt')
        with open(rp, 'w') as o:
            for f in new:
                o.write(f'{f.where()}: in {f.fn} [configuration {f.cfg}] rule {f.rule}\n  key: {f.key}\n  {f.msg}\n')
        for f in new[:20]:
            print(f'{f.where()}: in {f.fn}: rule {f.rule}: {f.msg}')
        print(f'VIOLATION property={pid} replay={rp}')
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
