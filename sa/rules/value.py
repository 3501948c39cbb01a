"""C36: equality compares everything, copies keep everything"""
from .common import *


def impls(prog, trait, method):
    for g in prog.trait_impls.get((trait, method), []):
        t = prog.types[prog.strip_refs(g.impl_self)]
        if t['k'] == 'adt' and t['path'] in prog.adts and prog.adts[t['path']].get('local', True):
            yield g, t['path']


@rule('value.equal')
def equal(R, cfg):
    prog, A = R.progs[cfg], R.anch[cfg]
    fs = list(impls(prog, 'core::cmp::PartialEq', 'eq'))
    ov = {}
    for g, _ in fs:
        if g.body.argc == 2:
            ov[g.key] = lambda c: eq(c.val(0), c.val(1))
    for g, ty in fs:
        if prog.tystr(prog.strip_refs(g.body.tys[1])) != prog.tystr(prog.strip_refs(g.body.tys[2])):
            continue
        if g.derived:
            R.good(f'{ty}: derived')
            continue
        o2 = dict(ov)
        o2.pop(g.key, None)
        run = R.explore(cfg, g, o2)
        if run is None:
            continue
        a, b = P(g, 1), P(g, 2)
        vs = prog.adts[ty]['variants']
        for o in run.outs:
            if o.ret.op == 'unk' or imprecise(o.ret) or not run.clean:
                R.unsure(f'{ty}: imprecise comparison')
                continue
            for va in range(len(vs)):
                for vb in range(len(vs)):
                    F = o.facts.copy()
                    if len(vs) > 1 and not (F.set_variant(a, va) and F.set_variant(b, vb)):
                        continue
                    if va != vb:
                        R.expect(_tr(F, o.ret) is not True, f'{ty}:variants', g.key, g.span, f'{vs[va]["name"]} and {vs[vb]["name"]} compare as equal')
                        continue
                    n = len(vs[va]['fields'])
                    # one field differs -> not equal
                    for i in range(n):
                        G = F.copy()
                        if not G.assume(eq(fld(a, va, i), fld(b, vb, i)), False):
                            continue
                        if _tr(G, o.ret) is False:
                            R.good(f'{ty}: {vs[va]["fields"][i][0]}')
                            continue
                        H = G.copy()
                        if not all(j == i or H.assume(eq(fld(a, va, j), fld(b, vb, j)), True) for j in range(n)):
                            continue      # no such values on this path
                        look = [x for x in list(o.facts.truth) + list(o.facts.var) + [o.ret] if any(y is fld(a, va, i) or y is fld(b, vb, i) for y in subterms(x))]
                        weak = all(x.op == 'eqi' or x.op == 'eq' and all(y.op == 'len' for y in x.a) for x in look)
                        name = vs[va]['fields'][i][0]
                        if weak and (_tr(H, o.ret) is True or o.ret.op == 'eqi' and H.assume(o.ret, True)):
                            R.bad(f'{ty}:{name}', g.key, g.span, f'values of {ty} that differ in {name} compare as equal')
                        else:
                            R.unsure(f'{ty}: comparison of {name} not followed')
                    # nothing differs -> equal
                    G = F.copy()
                    if all(G.assume(eq(fld(a, va, i), fld(b, vb, i)), True) for i in range(n)):
                        whole = [eq(fld(a, va, i), fld(b, vb, i)) for i in range(n)]
                        plain = all(x in whole or x.op == 'eq' and a in x.a and b in x.a for x in o.facts.truth)
                        if _tr(G, o.ret) is False and not plain:
                            R.unsure(f'{ty}: a difference inside a field decides')
                        elif _tr(G, o.ret) is False:
                            R.bad(f'{ty}:reflexive', g.key, g.span, f'equal values of {ty} compare as different')


def _tr(F, t):
    if t.op == 'int':
        return t.a[0] != 0
    return F.truth_of(t)


@rule('value.copy')
def copy(R, cfg):
    prog, A = R.progs[cfg], R.anch[cfg]
    fs = list(impls(prog, 'core::clone::Clone', 'clone'))
    ov = {g.key: (lambda c: c.val(0)) for g, _ in fs}
    for g, ty in fs:
        if g.derived:
            R.good(f'{ty}: derived')
            continue
        o2 = dict(ov)
        o2.pop(g.key, None)
        run = R.explore(cfg, g, o2)
        if run is None:
            continue
        a = P(g, 1)
        vs = prog.adts[ty]['variants']
        for o in run.outs:
            if o.ret is a:
                R.good(f'{ty}: whole')
                continue
            for v in range(len(vs)):
                F = o.facts.copy()
                if len(vs) > 1:
                    if not F.set_variant(a, v):
                        continue
                    rv = o.ret.a[1] if o.ret.op == 'agg' else F.variant(o.ret)
                    if rv is not None:
                        R.expect(rv == v or not run.clean, f'{ty}:variant', g.key, g.span, f'a copy of {vs[v]["name"]} is {vs[rv]["name"]}')
                    if rv != v:
                        continue
                for i, fl in enumerate(vs[v]['fields']):
                    R.same(run, f'{ty}:{fl[0]}', fld(o.ret, v, i), fld(a, v, i), f'field {fl[0]} of a copied {ty}', o)
