"""Call graph over the dumped program: resolved callees, function values, closures, drop glue of local types,
all local implementations behind a trait call that is not resolved to one."""
from .prog import norm


def walk(x):
    if isinstance(x, dict):
        if x.get('k') == 'fn':
            yield ('fn', x['fn'])
        v = x.get('v')
        if isinstance(v, list) and v and v[0] == 'static':
            yield ('static', v[1])
        for y in x.values():
            if isinstance(y, (dict, list)):
                yield from walk(y)
    elif isinstance(x, list):
        if len(x) == 2 and x[0] == 'closure' and isinstance(x[1], str):
            yield ('closure', x[1])
        if len(x) >= 2 and x[0] == 'static' and isinstance(x[1], str):
            yield ('static', x[1])
        for y in x:
            if isinstance(y, (dict, list)):
                yield from walk(y)


class Graph:
    def __init__(self, prog):
        self.prog = prog
        self.succ = {}      # fn path -> set of local fn paths
        self.ext = {}       # fn path -> {external callee: span}
        self.statics = {}   # fn path -> set of statics
        by = prog.bykey
        for f in prog.fns.values():
            s, e, st = set(), {}, set()
            bodies = [f.body] + list(f.promoted)
            for b in bodies:
                for bb in b.blocks:
                    sp = bb.get('sp')
                    for k, x in walk([bb['s'], bb['t']]):
                        if k == 'closure':
                            s.add(x)
                        elif k == 'static':
                            st.add(x)
                        else:
                            r = x.get('res')
                            c = r or x
                            p = c['path']
                            if c.get('local'):
                                if p in prog.fns:
                                    s.add(p)
                                elif norm(p) in by:
                                    s.add(by[norm(p)].path)
                                if not r and 'trait' in x:
                                    for g in prog.trait_impls.get((x['trait'], x.get('method')), []):
                                        s.add(g.path)
                            else:
                                e.setdefault(norm(p), sp)
                                if not r and 'trait' in x:
                                    for g in prog.trait_impls.get((x['trait'], x.get('method')), []):
                                        s.add(g.path)
                                # a library function calling back: trait methods of local types it is instantiated with
                                for a in x.get('args', []):
                                    for g in self.impls_of(a):
                                        if self.callback(x, g):
                                            s.add(g.path)
            self.succ[f.path] = {p for p in s if p in prog.fns}
            self.ext[f.path] = e
            self.statics[f.path] = st

    def impls_of(self, ty):
        P = self.prog
        if not hasattr(self, '_bt'):
            self._bt = {}
            for g in P.fns.values():
                if g.impl_trait and g.impl_self is not None:
                    self._bt.setdefault(P.tystr(P.strip_refs(g.impl_self)), []).append(g)
        return self._bt.get(P.tystr(P.strip_refs(ty)), []) if isinstance(ty, int) else []

    @staticmethod
    def callback(x, g):
        t = x.get('trait') or ''
        m = x.get('method') or norm(x['path']).split('::')[-1]
        tr = g.impl_trait
        if tr.endswith('fmt::Display'):
            return m in ('to_string', 'new_display', 'fmt')
        if tr.endswith('fmt::Debug'):
            return m in ('new_debug', 'fmt')
        if tr.endswith(('convert::From', 'convert::TryFrom')):
            return m in ('into', 'try_into', 'from', 'try_from', 'from_residual')
        if tr.endswith('convert::Into'):
            return m == 'into'
        return tr == t and g.method == m

    def reach(self, path):
        """{reachable local fn path: caller}"""
        seen = {path: None}
        w = [path]
        while w:
            u = w.pop()
            for v in sorted(self.succ.get(u, ())):
                if v not in seen:
                    seen[v] = u
                    w.append(v)
        return seen

    def chain(self, seen, u):
        r = []
        while u is not None:
            r.append(norm(u))
            u = seen[u]
        return r[::-1]
