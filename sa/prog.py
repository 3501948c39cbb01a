"""Loads a MIR dump and offers lookups."""
import json, re

_gen = re.compile(r"::<[^<>]*>")


def norm(path):
    """strip generic argument lists `::<..>` from a path"""
    prev = None
    p = path
    # protect `<impl ...>` / `<T as Trait>` segments: only `::<` groups that are not impl headers
    out = []
    i = 0
    while i < len(p):
        if p.startswith('::<', i) and not p.startswith('::<impl ', i):
            depth = 0
            j = i + 2
            while j < len(p):
                if p[j] == '<':
                    depth += 1
                elif p[j] == '>' and p[j - 1] != '-':
                    depth -= 1
                    if depth == 0:
                        break
                j += 1
            i = j + 1
        else:
            out.append(p[i])
            i += 1
    return ''.join(out)


class Body:
    __slots__ = ('path', 'argc', 'locals', 'blocks', 'upvars', 'succ', 'heads', 'bodies', 'fn', 'tys', 'names')


class Fn:
    pass


class Prog:
    def __init__(self, file, name=''):
        d = json.load(open(file))
        self.name = name
        self.types = d['types']
        self.adts = {a['path']: a for a in d['adts']}
        self.impls = d['impls']
        self.unsafe = d['unsafe']
        self.fns = {}
        self.promoted = {}
        for f in d['fns']:
            fn = Fn()
            fn.path = f['path']
            fn.key = norm(f['path'])
            fn.kind = f['kind']
            fn.is_const = f['const']
            fn.span = f['span']
            fn.vis = f['vis']
            fn.pub = f['pub']
            fn.macro = f['macro']
            fn.unsafe_fn = f['unsafe_fn']
            fn.impl_self = f.get('impl_self')
            fn.impl_trait = f.get('impl_trait')
            fn.impl_trait_arg = f.get('impl_trait_arg')
            fn.derived = f.get('derived', False)
            fn.method = f.get('method')
            fn.static_mut = f.get('static_mut')
            fn.trait_default = f.get('trait_default')
            fn.body = self.mkbody(f, fn)
            fn.promoted = [self.mkbody(p, fn) for p in f['promoted']]
            self.fns[fn.path] = fn
        self.bykey = {}
        self._tails = None
        for f in self.fns.values():
            self.bykey.setdefault(f.key, f)
        self.trait_impls = {}
        for f in self.fns.values():
            if f.impl_trait:
                self.trait_impls.setdefault((f.impl_trait, f.method), []).append(f)

    def mkbody(self, f, fn):
        b = Body()
        b.fn = fn
        b.path = fn.path
        b.argc = f['argc']
        b.tys = [l[0] for l in f['locals']]
        b.names = [l[1] if len(l) > 1 else None for l in f['locals']]
        b.blocks = f['blocks']
        b.upvars = f['upvars']
        b.succ = [self.succs(bb['t']) for bb in b.blocks]
        self.loops(b)
        return b

    @staticmethod
    def succs(t):
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            return [x[1] for x in t[2]] + [t[3]]
        if k == 'drop':
            return [t[2]]
        if k == 'call':
            return [t[4]] if t[4] is not None else []
        if k == 'assert':
            return [t[4]]
        return []

    def loops(self, b):
        """natural loops by back edges (DFS); heads -> set of body blocks"""
        n = len(b.blocks)
        color = [0] * n
        back = []
        stack = [(0, iter(b.succ[0]))] if n else []
        if n:
            color[0] = 1
        while stack:
            u, it = stack[-1]
            for v in it:
                if color[v] == 0:
                    color[v] = 1
                    stack.append((v, iter(b.succ[v])))
                    break
                elif color[v] == 1:
                    back.append((u, v))
            else:
                color[u] = 2
                stack.pop()
        pred = [[] for _ in range(n)]
        for u in range(n):
            for v in b.succ[u]:
                pred[v].append(u)
        bodies = {}
        for u, h in back:
            s = bodies.setdefault(h, {h})
            w = [u]
            while w:
                x = w.pop()
                if x in s:
                    continue
                s.add(x)
                w.extend(pred[x])
        b.bodies = bodies
        b.heads = set(bodies)

    def ty(self, i):
        return self.types[i]

    def tystr(self, i):
        return self.types[i]['s']

    def strip_refs(self, i):
        while self.types[i]['k'] in ('ref', 'ptr'):
            i = self.types[i]['to']
        return i

    def find(self, key):
        """function by normalised path; if it moved to another module, by its unique last segments"""
        f = self.bykey.get(key)
        if f is None:
            if self._tails is None:
                self._tails = {}
                for g in self.fns.values():
                    if '{' in g.key:
                        continue
                    p = g.key.split('::')
                    for n in (1, 2):
                        self._tails.setdefault('::'.join(p[-n:]), []).append(g)
            p = key.split('::')
            n = 2 if len(p) > 1 and p[-2][:1].isupper() else 1
            c = self._tails.get('::'.join(p[-n:]), [])
            if len(c) == 1:
                f = c[0]
        return f

    def adt_variant(self, path, name):
        for i, v in enumerate(self.adts[path]['variants']):
            if v['name'] == name:
                return i
        return None

    def field_index(self, path, name, variant=0):
        for i, f in enumerate(self.adts[path]['variants'][variant]['fields']):
            if f[0] == name:
                return i
        return None

    def from_impl(self, target_ty, src_ty):
        """local `impl From<src> for target`"""
        for f in self.trait_impls.get(('core::convert::From', 'from'), []):
            if self.tystr(f.impl_self) == self.tystr(target_ty) and self.tystr(f.impl_trait_arg) == self.tystr(src_ty):
                return f
        return None
