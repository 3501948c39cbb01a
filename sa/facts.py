"""Path facts: enum variants, boolean atoms, and a small linear-inequality domain
(zones generalised to linear bounds; implication by bounded substitution, no solver)."""
from .terms import *

self_budget = [0]
MAXLEN = (1 << 47) - 1     # x86-64 user address space
NONNEG_OPS = {'firstpos', 'lastpos', 'len', 'elem', 'unbe', 'rdv', 'trunc', 'sum', 'bitand', 'bv', 'shr', 'rem', 'div', 'lvu', 'pos', 'discr', 'aft', 'afterpk', 'midx', 'beint', 'bigslice', 'bigbits', 'bigdivrem', 'modpow'}


class Facts:
    __slots__ = ('var', 'nvar', 'truth', 'le', 'eqc', 'uns', 'nec', 'bits')

    def __init__(self):
        self.var = {}
        self.nvar = {}
        self.truth = {}
        self.le = ()
        self.eqc = {}
        self.nec = {}
        self.uns = frozenset()
        self.bits = {}

    def copy(self):
        f = Facts.__new__(Facts)
        f.var = dict(self.var)
        f.nvar = dict(self.nvar)
        f.truth = dict(self.truth)
        f.le = self.le
        f.eqc = dict(self.eqc)
        f.nec = dict(self.nec)
        f.uns = self.uns
        f.bits = dict(self.bits)
        return f

    # ---- variants
    def variant(self, t):
        if t.op == 'agg':
            return t.a[1]
        return self.var.get(t)

    def set_variant(self, t, v):
        if t.op == 'agg':
            return t.a[1] == v
        k = self.var.get(t)
        if k is not None:
            return k == v
        if v in self.nvar.get(t, ()):
            return False
        self.var[t] = v
        return True

    def not_variant(self, t, v):
        if t.op == 'agg':
            return t.a[1] != v
        k = self.var.get(t)
        if k is not None:
            return k != v
        self.nvar[t] = self.nvar.get(t, frozenset()) | {v}
        return True

    # ---- bounds
    def unsigned(self, t, bits=None):
        if t.op == 'int' or t.op == 'lin':
            for k in lin_of(t)[1]:
                pass
            return
        if t not in self.uns:
            self.uns = self.uns | {t}
        if bits and bits < 64:
            b = self.bits.get(t)
            if b is None or bits < b:
                self.bits[t] = bits

    def nonneg(self, t):
        return t.op in NONNEG_OPS or t in self.uns

    def ub_const(self, t):
        if t.op == 'len':
            return MAXLEN
        r = None
        if t.op == 'trunc':
            r = (1 << t.a[0]) - 1
        elif t.op == 'unbe':
            r = (1 << (8 * t.a[0])) - 1
        elif t.op == 'bitand' and t.a[1].op == 'int':
            r = t.a[1].a[0]
        elif t.op == 'rem' and t.a[1].op == 'int' and t.a[1].a[0] > 0:
            r = t.a[1].a[0] - 1
        elif t.op == 'rdv' and t.a[0] == 'u32':
            r = (1 << 32) - 1
        elif t.op == 'shr' and t.a[1].op == 'int' and t in self.bits:
            r = (1 << self.bits[t]) - 1
        b = self.bits.get(t)
        if b is not None:
            x = (1 << b) - 1
            r = x if r is None else min(r, x)
        return r

    def prove_le(self, l, depth=4):
        """prove l <= 0 from the facts (sound, incomplete)"""
        self_budget[0] = 400
        return self._p(l, depth, {})

    def _p(self, l, depth, seen):
        c, d = lin_of(l)
        # drop terms using trivial bounds
        rest = c
        good = True
        for k, v in d.items():
            if v < 0:
                if self.nonneg(k):
                    continue
                good = False
                break
            u = self.ub_const(k)
            if u is None:
                good = False
                break
            rest += v * u
        if good and rest <= 0:
            return True
        if depth == 0 or seen.get(l, -1) >= depth:
            return False
        seen[l] = depth
        self_budget[0] -= 1
        if self_budget[0] < 0:
            return False
        for f in self.le:
            # f <= 0 ; l = f + (l - f); prove l - k*f <= 0 for k>0 cancelling some term
            fc, fd = lin_of(f)
            for k, v in d.items():
                fv = fd.get(k)
                if fv and (fv > 0) == (v > 0) and v % fv == 0:
                    m = v // fv
                    if m > 0:
                        if self._p(sub(l, mul(f, I(m))), depth - 1, seen):
                            return True
                        break
        # structural bounds for special terms
        for k, v in d.items():
            if v > 0:
                for u in self._ubs(k):
                    if self._p(add(sub(l, mul(k, I(v))), mul(u, I(v))), depth - 1, seen):
                        return True
            else:
                for u in self._lbs(k):
                    if self._p(add(sub(l, mul(k, I(v))), mul(u, I(v))), depth - 1, seen):
                        return True
        return False

    def _ubs(self, k):
        if k.op == 'min':
            yield k.a[0]
            yield k.a[1]
        elif k.op == 'find':
            # index of a match is at most len(haystack) - 1 (needle non-empty)
            yield sub(length(k.a[0]), ONE)
        elif k.op == 'len' and k.a[0].op in ('trim', 'rdv', 'skip', 'filter', 'take'):
            src = k.a[0].a[0]
            if isinstance(src, T):
                yield length(src)
            if k.a[0].op == 'rdv' and k.a[0].a[0] != 'raw' and isinstance(k.a[0].a[1], T):
                yield length(k.a[0].a[1])
        elif k.op == 'trunc' or k.op == 'div' or k.op == 'shr':
            x = k.a[1] if k.op == 'trunc' else k.a[0]
            if all(v > 0 for v in lin_of(x)[1].values()) and all(self.nonneg(q) for q in lin_of(x)[1]):
                yield x
        elif k.op == 'ite':
            pass
        elif k.op == 'rem' and not isint(k.a[1]):
            yield sub(k.a[1], ONE)

    def _lbs(self, k):
        if k.op == 'max':
            yield k.a[0]
            yield k.a[1]
        elif k.op == 'aft':
            yield add(k.a[1], I(4))
        return

    # ---- truth
    def truth_of(self, t):
        """True / False / None"""
        if t.op == 'int':
            return t.a[0] != 0
        if t.op == 'not':
            r = self.truth_of(t.a[0])
            return None if r is None else (not r)
        r = self.truth.get(t)
        if r is not None:
            return r
        if t.op == 'is':
            v = self.variant(t.a[0])
            if v is not None:
                return v == t.a[1]
            if t.a[1] in self.nvar.get(t.a[0], ()):
                return False
            return None
        if t.op == 'and':
            rs = [self.truth_of(x) for x in t.a]
            if all(x is True for x in rs):
                return True
            if any(x is False for x in rs):
                return False
            return None
        if t.op == 'ite':
            c = self.truth_of(t.a[0])
            if c is not None:
                return self.truth_of(t.a[1] if c else t.a[2])
            return None
        if t.op == 'eq':
            a, b = t.a
            ca, cb = self.eqc.get(a), self.eqc.get(b)
            if ca is not None or cb is not None:
                x = eq(ca if ca is not None else a, cb if cb is not None else b)
                if x is not t:
                    return self.truth_of(x)
            if b in self.nec.get(a, ()):
                return False
            if b.op in ('int',) or a.op == 'lin':
                l = sub(a, b)
                if self.prove_le(add(l, ONE), 3) or self.prove_le(sub(ONE, l), 3):
                    return False
            va, vb = self.variant(a), self.variant(b)
            if va is not None and vb is not None and va != vb:
                return False
            return None
        if t.op == 'le0':
            if self.prove_le(t.a[0], 3):
                return True
            if self.prove_le(sub(ONE, t.a[0]), 3):
                return False
            return None
        return None

    def _past(self, l):
        """l <= 0, strengthened where it ends at a value already excluded"""
        for _ in range(8):
            c, d = lin_of(l)
            if len(d) != 1:
                break
            (k, v), = d.items()
            if v not in (1, -1) or I(-c * v) not in self.nec.get(k, ()):
                break
            l = add(l, ONE)
        return l

    def assume(self, t, val):
        """add atom; False if contradictory"""
        if t.op == 'int':
            return (t.a[0] != 0) == val
        if t.op == 'not':
            return self.assume(t.a[0], not val)
        k = self.truth_of(t)
        if k is not None:
            if k != val:
                return False
            if t.op not in ('le0', 'eq'):
                self.truth[t] = val
            return True
        self.truth[t] = val
        if t.op == 'le0':
            l = self._past(t.a[0] if val else sub(ONE, t.a[0]))
            self.le = self.le + (l,)
        elif t.op == 'eq':
            a, b = t.a
            if val:
                if b.op in ('int', 'bytes'):
                    self.eqc[a] = b
                    if b.op == 'bytes':
                        l = sub(length(a), length(b))
                        if not isint(l):
                            self.le = self.le + (l, neg(l))
                if b.op == 'int' or a.op == 'lin':
                    l = sub(a, b)
                    self.le = self.le + (l, neg(l))
            else:
                if b.op in ('int', 'bytes'):
                    self.nec[a] = self.nec.get(a, frozenset()) | {b}
                if b.op == 'int' or a.op == 'lin':
                    l = sub(a, b)
                    # strengthen when one side is already known
                    if self.prove_le(neg(l), 2):
                        self.le = self.le + (sub(ONE, l),)
                    elif self.prove_le(l, 2):
                        self.le = self.le + (add(l, ONE),)
        elif t.op == 'is':
            if val:
                return self.set_variant(t.a[0], t.a[1])
            return self.not_variant(t.a[0], t.a[1])
        elif t.op == 'and':
            if val:
                for x in t.a:
                    if not self.assume(x, True):
                        return False
            else:
                un = [x for x in t.a if self.truth_of(x) is not True]
                if len(un) == 1:
                    return self.assume(un[0], False)
        return True
