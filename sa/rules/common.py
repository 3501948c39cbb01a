"""helpers shared by rule modules"""
from ..framework import *

CERT = 'ssh::cert::Certificate'
PK = 'ssh::pubkey::PublicKey'
SIG = 'ssh::signature'
# configurations with the features encrypted-keys and rsa-signing
ENC = ('default', 'small', 'ctap2', 'enc')
RSA = ('default', 'small', 'ctap2', 'rsa')


def rstr(prog, f):
    return prog.tystr(f.body.tys[0])


def by_sig(prog, mod, args, ret):
    """private helpers located by module and type signature: list of Fn"""
    out = []
    for f in prog.fns.values():
        if '{' in f.key or not f.key.startswith(mod) or f.body.argc != len(args):
            continue
        if f.impl_trait:
            continue
        if ret(prog.tystr(f.body.tys[0])) and all(a(prog.tystr(f.body.tys[i + 1])) for i, a in enumerate(args)):
            out.append(f)
    return out


def reader_fail(o, inner):
    """a fact on this path says a field does not fit into `inner`"""
    L = length(inner)
    for k, v in o.facts.truth.items():
        if k.op != 'le0':
            continue
        d = lin_of(k.a[0])[1]
        c = d.get(L, 0)
        if c > 0 and v is True or c < 0 and v is False:
            return True
    return False


def utf8_fail(o):
    return any(k.op == 'utf8' and v is False for k, v in o.facts.truth.items())


def at(s, o, n):
    return unbe(n, slice_(s, o, add(o, I(n))))


def aft_(s, o):
    return add(add(o, I(4)), at(s, o, 4))


def body(s, o):
    return slice_(s, add(o, I(4)), aft_(s, o))


def fx(prog, adt, name, variant=0):
    return prog.field_index(adt, name, variant)


def getf(prog, v, adt, name, variant=0):
    i = fx(prog, adt, name, variant)
    return None if i is None else fld(v, variant, i)


def variants(prog, adt):
    return {v['name']: i for i, v in enumerate(prog.adts[adt]['variants'])} if adt in prog.adts else {}


def is_ok(o):
    return o.ret.op == 'agg' and o.ret.a[1] == 0


def is_err(o):
    return o.ret.op == 'agg' and o.ret.a[1] == 1


def classify(R, run, key):
    """every return must be a known Ok/Err (or Some/None); else undecided"""
    bad = [o for o in run.outs if o.ret.op != 'agg']
    if bad:
        R.unsure(f'{key}: unclassified return {cut(bad[0].ret)}')
    return not bad


_xp = {}


def expand(l):
    """(const, {term: coef}) with every aft(s, o) written out"""
    r = _xp.get(l)
    if r is not None:
        return r
    c, d = lin_of(l)
    d = dict(d)
    again = True
    while again:
        again = False
        for k in list(d):
            if k.op == 'aft':
                m = d.pop(k)
                s, lo = k.a
                u = mk('unbe', 4, mk('slice', s, lo, add(lo, I(4))))
                d[u] = d.get(u, 0) + m
                c2, d2 = lin_of(lo)
                c += m * (c2 + 4)
                for x, y in d2.items():
                    d[x] = d.get(x, 0) + m * y
                again = True
                break
    d = {k: v for k, v in d.items() if v}
    _xp[l] = (c, d)
    return c, d


def tv(o, cond):
    """truth of a condition on a path, also comparing written-out offsets"""
    r = o.facts.truth_of(cond)
    if r is not None or cond.op != 'le0':
        return r
    c, d = expand(cond.a[0])
    for k, v in o.facts.truth.items():
        if k.op != 'le0':
            continue
        c2, d2 = expand(k.a[0])
        if not v:
            c2, d2 = 1 - c2, {x: -y for x, y in d2.items()}
        # now c2 + d2 <= 0 is known
        if _trivial(c - c2, d, d2, 1):
            return True
        if _trivial(1 - c - c2, d, d2, -1):
            return False
    return None


def _trivial(c, d, d2, sign):
    """c + sign*d - d2 <= 0 for non-negative terms"""
    if c > 0:
        return False
    for k in set(d) | set(d2):
        m = sign * d.get(k, 0) - d2.get(k, 0)
        if m > 0 or m < 0 and k.op not in ('unbe', 'len'):
            return False
    return True


def failed(o, pred=lambda t: True):
    """some library call made on this path returned an error (or nothing)"""
    F = o.facts
    return any(t.op == 'call' and q == 1 and pred(t) for t, q in F.var.items()) or \
        any(t.op == 'is' and t.a[0].op == 'call' and pred(t.a[0]) and (t.a[1] == 0 and q is False or t.a[1] == 1 and q is True) for t, q in F.truth.items())


def displayed(o, f, i=2):
    """text a Display impl has appended to its formatter on this path, or None"""
    p = P(f, i)
    v = o.st.cells.get(('P', i))
    if v is None:
        return None
    if v is p:
        return EMPTY
    if v.op == 'seq' and v.a[0] == ('s', p):
        return seq(list(v.a[1:]))
    return None


def display_of(prog, name):
    r = [g for g in prog.fns.values() if g.impl_trait == 'core::fmt::Display' and g.method == 'fmt' and prog.tystr(g.impl_self) == name]
    return r[0] if len(r) == 1 else None


def cases(outs, var=(), conds=()):
    """the given paths; a path that leaves one of the enum values `var`
    [(term, number of variants)] or one of the conditions `conds` open stands
    for every value it does not exclude, so it is split into those.  Paths that
    look at the value in a way the facts cannot follow are left as they are."""
    outs = list(outs)
    for t, n in var:
        nxt = []
        for o in outs:
            F = o.facts
            if F.variant(t) is not None or _looked_at(o, t):
                nxt.append(o)
                continue
            for v in range(n):
                s = o.st.copy()
                if s.facts.set_variant(t, v):
                    nxt.append(_with(o, s))
        outs = nxt
    vs = [x for c in conds for x in _direct(c) if x.op not in ('int', 'bytes')]
    for c in conds:
        nxt = []
        for o in outs:
            if tv(o, c) is not None or not _plain(o, vs):
                nxt.append(o)
                continue
            for b in (True, False):
                s = o.st.copy()
                if s.facts.assume(c, b):
                    nxt.append(_with(o, s))
        outs = nxt
    return outs


def _with(o, s):
    r = Outcome(s, o.ret)
    r.panic = o.panic
    return r


def _looked_at(o, t):
    def opaque(x):
        return any(y.op in ('discr', 'is') and y.a[0] is t for y in subterms(x))
    return any(opaque(x) for x in o.facts.truth) or isinstance(o.ret, T) and opaque(o.ret) or any(isinstance(x, T) and opaque(x) for x in o.st.cells.values())


def _plain(o, vs):
    """every condition of the path that mentions one of vs only compares such
    terms with each other or with constants"""
    vs = set(vs)
    for k in o.facts.truth:
        if not any(x in vs for x in subterms(k)):
            continue
        if k.op == 'eq' and all(x in vs or x.op in ('int', 'bytes') for x in k.a):
            continue
        if k.op == 'le0':
            c, d = lin_of(k.a[0])
            if all(x in vs for x in d) and len(d) <= 2:
                continue
        return False
    return True


def _direct(k):
    if k.op == 'eq':
        return k.a
    return list(lin_of(k.a[0])[1])


def loses(t, src):
    """t takes the text src apart in a way that leaves some of it out or changes its order"""
    def of(x):
        return x is src or x.op in ('chars', 'enum', 'mapf', 'it', 'collect', 'charidx') and of(x.a[0])
    for x in subterms(t):
        if x.op in ('chunksx', 'windows', 'rev', 'sorted', 'stepby') and isinstance(x.a[0], T) and of(x.a[0]):
            return True
    y = t
    while y.op in ('cmap', 'mapf', 'join', 'enum', 'it', 'collect') and isinstance(y.a[0], T):
        y = y.a[0]
    return y.op in ('take', 'skip') and of(y.a[0])
