"""Hash-consed value-provenance terms and their normal forms.

A term denotes the value a MIR place holds on one abstract path: constants, projections of
inputs, byte-sequence layouts, linear arithmetic over lengths, results of opaque calls.
Nothing is ever evaluated against concrete inputs."""

_tab = {}
_cnt = [0]


class T:
    __slots__ = ('op', 'a', 'n', '_len')

    def __repr__(self):
        return show(self)


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        _cnt[0] += 1
        t.n = _cnt[0]
        t._len = None
        _tab[k] = t
    return t


def I(n):
    return mk('int', int(n))


def B(b):
    return mk('bytes', bytes(b))


ZERO, ONE = I(0), I(1)
TRUE, FALSE = ONE, ZERO
UNIT = mk('agg', 'tuple', 0)
EMPTY = B(b'')
SIGNED = set()      # terms known to be signed (may be negative)


def isint(t):
    return t.op == 'int'


# ------------------------------------------------------------------ linear arithmetic
def lin_of(t):
    """-> (const, {term: coef})"""
    if t.op == 'int':
        return t.a[0], {}
    if t.op == 'lin':
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def _cx(c, d):
    return len(d) + (c != 0)


def _comb(c, d, m, u):
    """(c,d) + m*u"""
    c2, d2 = lin_of(u)
    c = c + m * c2
    d = dict(d)
    for k, v in d2.items():
        w = d.get(k, 0) + m * v
        if w:
            d[k] = w
        else:
            d.pop(k, None)
    return c, d


def _fold(c, d):
    """aft(s, o) abbreviates o + 4 + u32be(s[o..o+4]), the end of the length-prefixed field at o"""
    again = True
    while again:
        again = False
        for k, m in list(d.items()):
            if k.op == 'unbe' and k.a[0] == 4 and k.a[1].op == 'slice':
                s, lo, hi = k.a[1].a
                a = mk('aft', s, lo)
                c1, d1 = _comb(c, d, -m, k)
                c1, d1 = _comb(c1, d1, -m, lo)
                c1 -= 4 * m
                c1, d1 = _comb(c1, d1, m, a)
                x, y = _cx(c1, d1), _cx(c, d)
                if x < y or (x == y and lo.op == 'int' and lo.a[0] == 0 and c >= 4 * m > 0):
                    c, d = c1, d1
                    again = True
                    break
            elif k.op == 'aft':
                s, lo = k.a
                if len(d) < 2 and not (lo.op == 'int'):
                    continue
                u = mk('unbe', 4, mk('slice', s, lo, add(lo, I(4))))
                c1, d1 = _comb(c, d, -m, k)
                c1, d1 = _comb(c1, d1, m, u)
                c1, d1 = _comb(c1, d1, m, lo)
                c1 += 4 * m
                if _cx(c1, d1) < _cx(c, d):
                    c, d = c1, d1
                    again = True
                    break
    return c, d


def mklin(c, d):
    d = {k: v for k, v in d.items() if v != 0}
    for k in d:
        if k.op == 'aft' or (k.op == 'unbe' and k.a[0] == 4 and k.a[1].op == 'slice'):
            c, d = _fold(c, d)
            break
    if not d:
        return I(c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return mk('lin', c, tuple(sorted(d.items(), key=lambda kv: kv[0].n)))


def add(a, b):
    c1, d1 = lin_of(a)
    c2, d2 = lin_of(b)
    for k, v in d2.items():
        d1[k] = d1.get(k, 0) + v
    return mklin(c1 + c2, d1)


def neg(a):
    c, d = lin_of(a)
    return mklin(-c, {k: -v for k, v in d.items()})


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if isint(a):
        a, b = b, a
    if isint(b):
        c, d = lin_of(a)
        n = b.a[0]
        return mklin(c * n, {k: v * n for k, v in d.items()})
    if a.n > b.n:
        a, b = b, a
    return mk('mul', a, b)


# ------------------------------------------------------------------ booleans
def eq(a, b):
    if a is b:
        return TRUE
    if a.op == 'int' and b.op == 'ite':
        a, b = b, a
    if a.op == 'ite' and b.op == 'int':
        return ite(a.a[0], eq(a.a[1], b), eq(a.a[2], b))
    # a text stays as long as it was exactly if there was nothing to trim
    for x, y in ((a, b), (b, a)):
        if x.op == 'len' and y.op == 'len':
            x, y = x.a[0], y.a[0]
        if x.op == 'trim' and len(x.a) == 3 and x.a[1] == 'trim_end_matches' and x.a[0] is y:
            return bnot(mk('ends', y, x.a[2]))
    if a.op in ('int', 'lin') or b.op in ('int', 'lin') or a.op == 'len' or b.op == 'len':
        d = sub(a, b)
        if isint(d):
            return TRUE if d.a[0] == 0 else FALSE
        c, m = lin_of(d)
        if len(m) == 1:
            (k, v), = m.items()
            if abs(v) == 1:
                if c == 0 and k.op == 'len' and k.a[0].op == 'skip' and isint(k.a[0].a[1]):
                    return le0(sub(length(k.a[0].a[0]), k.a[0].a[1]))
                return mk('eq', k, I(-c * v))
        # canonical sign
        first = min(m.items(), key=lambda kv: kv[0].n)
        if first[1] < 0:
            d = neg(d)
        return mk('eq', d, ZERO)
    if a.op == 'bytes' and b.op == 'bytes':
        return FALSE
    if a.op == 'bytes' and a.a[0] == b'':
        return eq(length(b), ZERO)
    if b.op == 'bytes' and b.a[0] == b'':
        return eq(length(a), ZERO)
    if a.op == 'agg' and b.op == 'agg' and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1] or len(a.a) != len(b.a):
            return FALSE
        r = TRUE
        for x, y in zip(a.a[2:], b.a[2:]):
            r = band(r, eq(x, y))
        return r
    if a.op == 'agg' and len(a.a) == 2 and a.a[0] != 'tuple':
        a, b = b, a
    if b.op == 'agg' and len(b.a) == 2 and b.a[0] != 'tuple' and a.op != 'ite':
        return mk('is', a, b.a[1])
    if a.op == 'ite' and not _sym(b):
        return ite(a.a[0], eq(a.a[1], b), eq(a.a[2], b))
    if b.op == 'ite' and not _sym(a):
        return ite(b.a[0], eq(a, b.a[1]), eq(a, b.a[2]))
    if a.n > b.n:
        a, b = b, a
    if a.op in ('int', 'bytes'):
        a, b = b, a
    return mk('eq', a, b)


def _sym(t):
    return t.op not in ('int', 'bytes') and not (t.op == 'agg' and len(t.a) == 2)


def le0(l):
    """atom l <= 0"""
    if isint(l):
        return TRUE if l.a[0] <= 0 else FALSE
    c, d = lin_of(l)
    from math import gcd
    g = 0
    for v in d.values():
        g = gcd(g, abs(v))
    if g > 1:
        # sum(g*k*t) <= -c  =>  sum(k*t) <= floor(-c/g)
        d = {k: v // g for k, v in d.items()}
        c = -((-c) // g)
    if len(d) == 1:
        (k, v), = d.items()
        # len(skip(x, n)) is max(0, len(x) - n)
        if k.op == 'len' and k.a[0].op == 'skip' and isint(k.a[0].a[1]):
            x, n = k.a[0].a[0], k.a[0].a[1]
            if v == -1:
                return le0(sub(add(n, I(c)), length(x))) if c > 0 else TRUE
            if v == 1:
                return le0(sub(length(x), sub(n, I(c)))) if c <= 0 else FALSE
    l = mklin(c, d)
    return mk('le0', l)


def lt(a, b):
    return le0(add(sub(a, b), ONE))


def le(a, b):
    return le0(sub(a, b))


def bnot(a):
    if isint(a):
        return I(1 - a.a[0])
    if a.op == 'not':
        return a.a[0]
    if a.op == 'le0':
        return le0(sub(ONE, a.a[0]))
    if a.op == 'ite':
        return ite(a.a[0], bnot(a.a[1]), bnot(a.a[2]))
    return mk('not', a)


def band(a, b):
    if isint(a):
        return b if a.a[0] else FALSE
    if isint(b):
        return a if b.a[0] else FALSE
    if a is b:
        return a
    return mk('and', *sorted({a, b}, key=lambda t: t.n))


def bor(a, b):
    return bnot(band(bnot(a), bnot(b)))


def ite(c, a, b):
    if isint(c):
        return a if c.a[0] else b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.a[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return bnot(c)
    if c.op == 'eq' and c.a[1].op == 'int' and c.a[0] is not a and c.a[0] in subterms(a) and _numlike(a):
        a = subst(a, {c.a[0]: c.a[1]})
        if a is b:
            return a
    if _numlike(a) and _numlike(b) and (a.op == 'lin' or b.op == 'lin'):
        ca, da = lin_of(a)
        cb, db = lin_of(b)
        com = {k: v for k, v in da.items() if db.get(k) == v}
        k0 = ca if ca == cb else (min(ca, cb) if (ca > 0 and cb > 0) else 0)
        if com or k0:
            ra = mklin(ca - k0, {k: v for k, v in da.items() if k not in com})
            rb = mklin(cb - k0, {k: v for k, v in db.items() if k not in com})
            return add(mklin(k0, com), ite(c, ra, rb))
    return mk('ite', c, a, b)


def _numlike(t):
    return t.op in ('int', 'lin', 'len', 'unbe', 'sum', 'aft', 'trunc')


# ------------------------------------------------------------------ sequences
def parts_of(t):
    """list of ('e',x) / ('s',t) parts of a sequence term"""
    if t.op == 'seq':
        return list(t.a)
    if t.op == 'bytes' and not t.a[0]:
        return []
    return [('s', t)]


def seq(parts):
    out = []

    def put(p):
        k, x = p
        if k == 's':
            if x.op == 'seq':
                for q in x.a:
                    put(q)
                return
            if x.op == 'bytes':
                if not x.a[0]:
                    return
                if out and out[-1][0] == 's' and out[-1][1].op == 'bytes':
                    out[-1] = ('s', B(out[-1][1].a[0] + x.a[0]))
                    return
                out.append(p)
                return
            if x.op == 'slice' and out and out[-1][0] == 's' and out[-1][1].op == 'slice' \
                    and out[-1][1].a[0] is x.a[0] and out[-1][1].a[2] is x.a[1]:
                y = out.pop()[1]
                put(('s', slice_(x.a[0], y.a[1], x.a[2])))
                return
            out.append(p)
            return
        if x.op == 'int' and 0 <= x.a[0] < 256:
            put(('s', B(bytes([x.a[0]]))))
            return
        # single byte element of a source = slice of length one
        if x.op == 'elem' and x.a[0].op not in ('splitws', 'lines', 'split') and is_bytes(x.a[0]):
            put(('s', slice_(x.a[0], x.a[1], add(x.a[1], ONE))))
            return
        out.append(p)

    for p in parts:
        put(p)
    if not out:
        return EMPTY
    if len(out) == 1 and out[0][0] == 's':
        return out[0][1]
    return mk('seq', *out)


def is_bytes(t):
    return t.op in ('bytes', 'rdv', 'be', 'slice') or t in BYTESY


BYTESY = set()


def cat(*ts):
    return seq([('s', t) for t in ts])


def push(t, x):
    return seq(parts_of(t) + [('e', x)])


def untrunc(bits, x):
    """x modulo 2^bits: truncations to at least that width inside a sum are redundant"""
    if x.op == 'trunc' and x.a[0] >= bits:
        return untrunc(bits, x.a[1])
    if x.op == 'lin':
        r = I(x.a[0])
        for k, v in x.a[1]:
            r = add(r, mul(untrunc(bits, k), I(v)))
        return r
    if x.op == 'ite' and _numlike(x.a[1]) and _numlike(x.a[2]):
        return ite(x.a[0], untrunc(bits, x.a[1]), untrunc(bits, x.a[2]))
    if x.op == 'sum':
        return sum_(x.a[0], untrunc(bits, x.a[1]))
    return x


def be(n, x):
    x = untrunc(8 * n, x)
    if x.op == 'trunc' and x.a[0] >= 8 * n:
        x = x.a[1]
    if isint(x):
        return B((x.a[0] % (1 << (8 * n))).to_bytes(n, 'big'))
    if x.op == 'unbe' and x.a[0] == n:
        return x.a[1]
    if x.op == 'icast' and x.a[1].op == 'icast':
        pass
    return mk('be', n, x)


def le_bytes(n, x):
    if isint(x):
        return B((x.a[0] % (1 << (8 * n))).to_bytes(n, 'little'))
    return mk('leb', n, x)


def unbe(n, t):
    if t.op == 'seq' and len(t.a) == 1 and t.a[0][0] == 's':
        t = t.a[0][1]
    if t.op == 'bytes':
        return I(int.from_bytes(t.a[0], 'big'))
    if t.op == 'be' and t.a[0] == n:
        return t.a[1]
    return mk('unbe', n, t)


def lp(x):
    return cat(be(4, length(x)), x)


def length(t):
    if t._len is None:
        t._len = _length(t)
    return t._len


def _length(t):
    op = t.op
    if op == 'bytes':
        return I(len(t.a[0]))
    if op == 'seq':
        r = ZERO
        for k, x in t.a:
            r = add(r, ONE if k == 'e' else length(x))
        return r
    if op == 'slice':
        return sub(t.a[2], t.a[1])
    if op in ('be', 'leb'):
        return I(t.a[0])
    if op == 'rep':
        return t.a[1]
    if op in ('outbuf', 'mutsl'):
        return t.a[0]
    if op == 'cmap':
        return sum_(t.a[0], length(t.a[1]))
    if op == 'range':
        d = sub(t.a[1], t.a[0])
        if isint(d):
            return I(max(0, d.a[0]))
        if t.a[0] is ZERO:
            return d
        return mk('len', t)
    if op in ('enum', 'rev', 'sorted', 'updi', 'entries', 'keys', 'values'):
        return length(t.a[0])
    if op == 'map':
        return length(t.a[0])
    if op == 'skip':
        # max(0, len - n): exact only when n <= len; keep opaque unless n = 0
        if t.a[1] is ZERO:
            return length(t.a[0])
        return mk('len', t)
    if op == 'ite':
        return ite(t.a[0], length(t.a[1]), length(t.a[2]))
    if op == 'digest':
        n = {'SHA256': 32, 'SHA384': 48, 'SHA512': 64, 'SHA512_256': 32, 'SHA1_FOR_LEGACY_USE_ONLY': 20}.get(
            _algname(t.a[0]))
        if n:
            return I(n)
    if op == 'rdv' and t.a[0] == 'raw':
        return t.a[3]
    if op == 'upd' or op == 'fld':
        return mk('len', t)
    return mk('len', t)


def _algname(a):
    if a.op in ('static', 'const') and isinstance(a.a[0], str):
        return a.a[0].split('::')[-1]
    return None


def sum_(src, body):
    """sum over i < len(src) of body (which mentions BV)"""
    if src.op == 'cmap' and src.a[1].op == 'seq' and len(src.a[1].a) == 1 and src.a[1].a[0][0] == 'e':
        return sum_(src.a[0], body)
    if isint(body):
        return mul(length(src), body)
    c, d = lin_of(body)
    r = mul(length(src), I(c)) if c else ZERO
    for k, v in d.items():
        if BV0 in subterms(k):
            r = add(r, mul(mk('sum', src, k), I(v)))
        else:
            r = add(r, mul(mul(length(src), k), I(v)))
    return r


BV0 = mk('bv', 0)


HINT = [None]     # prover of the path being explored: HINT[0](x) proves x <= 0


def nonneg_hint(d):
    return isint(d) and d.a[0] >= 0 or HINT[0] is not None and HINT[0](sub(ZERO, d))


def slice_(t, lo, hi):
    if t.op == 'bytes' and isint(lo) and isint(hi) and 0 <= lo.a[0] <= hi.a[0] <= len(t.a[0]):
        return B(t.a[0][lo.a[0]:hi.a[0]])
    if lo is ZERO and hi is length(t):
        return t
    if lo is hi:
        return EMPTY
    if t.op == 'bytes' and t.a[0] and len(set(t.a[0])) == 1:
        return rep(I(t.a[0][0]), sub(hi, lo))
    if t.op == 'slice':
        return slice_(t.a[0], add(t.a[1], lo), add(t.a[1], hi))
    if t.op == 'rdv' and t.a[0] == 'raw':
        base = t.a[2]
        return slice_(t.a[1], add(base, lo), add(base, hi)) if False else mk('slice', t, lo, hi)
    if t.op == 'seq':
        # cut along part boundaries where both ends are found
        pos = ZERO
        bounds = [(ZERO, 0)]
        for i, (k, x) in enumerate(t.a):
            pos = add(pos, ONE if k == 'e' else length(x))
            bounds.append((pos, i + 1))
        bl = {b: i for b, i in bounds}
        if lo in bl and hi in bl and bl[lo] <= bl[hi]:
            return seq(list(t.a[bl[lo]:bl[hi]]))
        # both ends inside one part with constant offsets
        pos = ZERO
        for k, x in t.a:
            ln = ONE if k == 'e' else length(x)
            end = add(pos, ln)
            a, b = sub(lo, pos), sub(end, hi)
            if isint(a) and isint(b) and a.a[0] >= 0 and b.a[0] >= 0 and k == 's':
                return slice_(x, a, sub(hi, pos))
            pos = end
        # one end on a boundary, the other inside a run of equal bytes
        if lo in bl and bl[lo] < len(t.a):
            k, x = t.a[bl[lo]]
            if k == 's' and (x.op == 'rep' or x.op == 'bytes' and len(set(x.a[0])) == 1):
                left = sub(hi, lo)
                if bl[lo] + 1 == len(t.a) or sum(1 for _ in t.a[bl[lo]:]) == 1:
                    return slice_(x, ZERO, left)
        if hi in bl and bl[hi] > 0:
            k, x = t.a[bl[hi] - 1]
            if k == 's' and (x.op == 'rep' or x.op == 'bytes' and len(set(x.a[0])) == 1):
                if bl[hi] == 1:
                    return rep(x.a[0] if x.op == 'rep' else I(x.a[0][0]), sub(hi, lo))
                # keep whole parts to the left when lo is one of their boundaries (handled above)
        # lo on a boundary, hi strictly inside the last (uniform) part, or hi on a boundary and lo inside the first
        if lo in bl and len(t.a) - bl[lo] > 1:
            k, x = t.a[-1]
            start = bounds[-2][0]
            d = sub(hi, start)
            if k == 's' and (x.op == 'rep' or x.op == 'bytes' and len(set(x.a[0])) == 1) and nonneg_hint(d):
                return seq(list(t.a[bl[lo]:-1]) + [('s', slice_(x, ZERO, d))])
        if hi in bl and bl[hi] > 1:
            k, x = t.a[0]
            if k == 's' and (x.op == 'rep' or x.op == 'bytes' and len(set(x.a[0])) == 1):
                d = sub(bounds[1][0], lo)
                if nonneg_hint(d):
                    return seq([('s', rep(x.a[0] if x.op == 'rep' else I(x.a[0][0]), d))] + list(t.a[1:bl[hi]]))
    if t.op == 'rep':
        return rep(t.a[0], sub(hi, lo))
    return mk('slice', t, lo, hi)


def rep(x, n):
    if isint(n) and isint(x) and 0 <= x.a[0] < 256 and n.a[0] <= 4096:
        return B(bytes([x.a[0]]) * max(0, n.a[0]))
    if n is ZERO:
        return EMPTY
    return mk('rep', x, n)


def elem(t, i):
    op = t.op
    if op == 'bytes' and isint(i) and 0 <= i.a[0] < len(t.a[0]):
        return I(t.a[0][i.a[0]])
    if op == 'slice':
        return elem(t.a[0], add(t.a[1], i))
    if op == 'rep':
        return t.a[0]
    if op == 'range':
        return add(t.a[0], i)
    if op == 'enum':
        return mk('agg', 'tuple', 0, i, elem(t.a[0], i))
    if op == 'zip':
        return mk('agg', 'tuple', 0, elem(t.a[0], i), elem(t.a[1], i))
    if op == 'rev':
        return elem(t.a[0], sub(sub(length(t.a[0]), ONE), i))
    if op == 'skip':
        return elem(t.a[0], add(t.a[1], i))
    if op == 'take':
        return elem(t.a[0], i)
    if op == 'cmap' and t.a[1].op == 'seq' and len(t.a[1].a) == 1 and t.a[1].a[0][0] == 'e':
        return subst(t.a[1].a[0][1], {BV0: i})
    if op == 'cmap' and isint(length(t.a[1])) and length(t.a[1]).a[0] == 1:
        return elem(subst(t.a[1], {BV0: i}), ZERO)
    if op == 'seq':
        pos = ZERO
        for k, x in t.a:
            ln = ONE if k == 'e' else length(x)
            d = sub(i, pos)
            if isint(d) and d.a[0] >= 0:
                if isint(ln) and d.a[0] < ln.a[0]:
                    return x if k == 'e' else elem(x, d)
                if not isint(ln):
                    break
            pos = add(pos, ln)
    if op == 'updi':
        d = sub(t.a[1], i)
        if d is ZERO:
            return t.a[2]
        if isint(d):
            return elem(t.a[0], i)
    if op == 'ite':
        return ite(t.a[0], elem(t.a[1], i), elem(t.a[2], i))
    if op == 'split' and i is ZERO and False:
        pass
    return mk('elem', t, i)


def cmap(src, body):
    """concatenation over i < len(src) of sequence `body` (mentions BV0)"""
    if body is EMPTY:
        return EMPTY
    if body.op == 'seq' and len(body.a) == 1 and body.a[0] == ('e', elem(src, BV0)):
        return src
    if body.op == 'slice' and body.a[0] is src and body.a[1] is BV0 and sub(body.a[2], body.a[1]) is ONE:
        return src
    # nested: src itself is a 1:1 map
    if src.op == 'cmap' and src.a[1].op == 'seq' and len(src.a[1].a) == 1 and src.a[1].a[0][0] == 'e':
        body = subst(body, {mk('elem', src, BV0): src.a[1].a[0][1]})
        src = src.a[0]
        if body.op == 'seq' and len(body.a) == 1 and body.a[0] == ('e', elem(src, BV0)):
            return src
    return mk('cmap', src, body)


# ------------------------------------------------------------------ generic traversal
_subs_cache = {}


def subterms(t):
    r = _subs_cache.get(t)
    if r is not None:
        return r
    out = set()
    st = [t]
    while st:
        x = st.pop()
        if x in out:
            continue
        out.add(x)
        for y in _kids(x):
            if y not in out:
                st.append(y)
    _subs_cache[t] = out
    return out


def _kids(x):
    for y in x.a:
        if isinstance(y, T):
            yield y
        elif isinstance(y, tuple):
            for z in y:
                if isinstance(z, T):
                    yield z
                elif isinstance(z, tuple):
                    for w in z:
                        if isinstance(w, T):
                            yield w


def rebuild(op, a):
    """re-normalise a node after substitution"""
    if op == 'lin':
        r = I(a[0])
        for k, v in a[1]:
            r = add(r, mul(k, I(v)))
        return r
    if op == 'seq':
        return seq(list(a))
    if op == 'slice':
        return slice_(*a)
    if op == 'elem':
        return elem(*a)
    if op == 'len':
        return length(a[0])
    if op == 'be':
        return be(*a)
    if op == 'unbe':
        return unbe(*a)
    if op == 'eq':
        return eq(*a)
    if op == 'le0':
        return le0(*a)
    if op == 'not':
        return bnot(*a)
    if op == 'ite':
        return ite(*a)
    if op == 'rep':
        return rep(*a)
    if op == 'cmap':
        return cmap(*a)
    if op == 'sum':
        return sum_(*a)
    if op == 'fld':
        return fld(*a)
    if op == 'mul':
        return mul(*a)
    return mk(op, *a)


def subst(t, m, memo=None):
    if memo is None:
        memo = {}
    if t in m:
        return m[t]
    if t in memo:
        return memo[t]

    def go(y):
        if isinstance(y, T):
            return subst(y, m, memo)
        if isinstance(y, tuple):
            return tuple(go(z) for z in y)
        return y
    a = tuple(go(y) for y in t.a)
    r = t if a == t.a else rebuild(t.op, a)
    if r in m and r is not t:
        r = m[r]
    memo[t] = r
    return r


# ------------------------------------------------------------------ aggregates
def agg(kind, variant, fields):
    return mk('agg', kind, variant, *fields)


def tup(*f):
    return mk('agg', 'tuple', 0, *f)


OPT = 'core::option::Option'
RES = 'core::result::Result'
CF = 'core::ops::control_flow::ControlFlow'


def some(x):
    return agg(OPT, 1, (x,))


NONE = agg(OPT, 0, ())


def ok(x):
    return agg(RES, 0, (x,))


def err(x):
    return agg(RES, 1, (x,))


CRV_ID = [1]
KT_NAME = [0]       # index of the name field of the key-type record (set by the anchors)


PAYLOAD = {}      # functions known to return Ok(argument n)


def fld(t, variant, i):
    if t.op == 'call' and t.a[0] in PAYLOAD and variant == 0 and i == 0:
        return t.a[1 + PAYLOAD[t.a[0]]]
    if t.op == 'kt' and i == KT_NAME[0] or t.op == 'crv' and i == CRV_ID[0]:
        return t.a[0]
    if t.op == 'agg':
        if variant is not None and t.a[1] != variant and not t.a[0].startswith('tuple'):
            return mk('poison')
        if i + 2 < len(t.a):
            return t.a[i + 2]
        return mk('poison')
    if t.op == 'upd':
        if t.a[1] == (variant or 0, i):
            return t.a[2]
        return fld(t.a[0], variant, i)
    if t.op == 'ite':
        return ite(t.a[0], fld(t.a[1], variant, i), fld(t.a[2], variant, i))
    if t.op == 'mref' or t.op == 'uninit':
        return t if t.op == 'mref' else mk('fld', t, variant or 0, i)
    return mk('fld', t, variant or 0, i)


def setfld(t, variant, i, v):
    if t.op == 'agg' and i + 2 < len(t.a):
        a = list(t.a)
        a[i + 2] = v
        return mk('agg', *a)
    key = (variant or 0, i)
    chain = {}
    base = t
    while base.op == 'upd':
        if base.a[1] not in chain:
            chain[base.a[1]] = base.a[2]
        base = base.a[0]
    chain[key] = v
    if v is fld(base, variant, i):
        del chain[key]
    for k in sorted(chain):
        base = mk('upd', base, k, chain[k])
    return base


# ------------------------------------------------------------------ printing
VAGUE = {'uninit', 'mutby', 'mutsl', 'unk', 'lv', 'poison', 'mutated', 'mutelems', 'mcell'}


def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ','.join(show(x, d + 1) for x in t) + ')'
        return str(t)
    if d > 14:
        return '…lv:' if any(x.op in VAGUE for x in subterms(t)) else '…'
    op = t.op
    if op == 'int':
        return str(t.a[0])
    if op == 'bytes':
        try:
            s = t.a[0].decode('ascii')
            if s.isprintable():
                return f'"{s}"'
        except Exception:
            pass
        return 'x' + t.a[0].hex() if len(t.a[0]) < 40 else f'x{t.a[0][:16].hex()}..({len(t.a[0])})'
    if op == 'lin':
        r = []
        for k, v in t.a[1]:
            r.append((f'{v}*' if v != 1 else '') + show(k, d + 1))
        if t.a[0]:
            r.append(str(t.a[0]))
        return '(' + ' + '.join(r) + ')'
    if op == 'agg':
        nm = t.a[0].split('::')[-1]
        return f'{nm}#{t.a[1]}(' + ', '.join(show(x, d + 1) for x in t.a[2:]) + ')'
    if op == 'fld':
        return f'{show(t.a[0], d + 1)}.{t.a[1]}.{t.a[2]}'
    if op == 'seq':
        return '[' + ' ++ '.join(('' if k == 's' else 'e:') + show(x, d + 1) for k, x in t.a) + ']'
    if op == 'slice':
        return f'{show(t.a[0], d + 1)}[{show(t.a[1], d + 1)}..{show(t.a[2], d + 1)}]'
    if op == 'elem':
        return f'{show(t.a[0], d + 1)}[{show(t.a[1], d + 1)}]'
    if op == 'le0':
        return f'{show(t.a[0], d + 1)}<=0'
    if op == 'eq':
        return f'{show(t.a[0], d + 1)}=={show(t.a[1], d + 1)}'
    if op == 'param':
        return f'${t.a[1]}'
    if op in ('lv', 'static', 'const', 'bv'):
        return f'{op}:{t.a[0]}' + (f'.{t.a[1]}' if len(t.a) > 1 and isinstance(t.a[1], (str, int)) else '')
    return op + '(' + ', '.join(show(x, d + 1) for x in t.a) + ')'
