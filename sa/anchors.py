"""Summaries of crate primitives used when analysing their callers.

Each summary states what the primitive's own rule (C15/C16/C17...) establishes about its body, so
that callers can be analysed without re-exploring it.  A summary only applies while the primitive
still exists with the expected shape; otherwise the callee is simply inlined."""
from .terms import *

RD = 'ssh::reader::Reader'
WR = 'ssh::writer::Writer'
ERR = 'error::Error'


class Anchors:
    def __init__(self, prog):
        self.prog = prog
        self.errv = {v['name']: i for i, v in enumerate(prog.adts[ERR]['variants'])} if ERR in prog.adts else {}
        a = prog.adts.get(RD)
        self.ri = self.ro = None
        if 'ssh::keytype::KeyType' in prog.adts:
            i = prog.field_index('ssh::keytype::KeyType', 'name')
            KT_NAME[0] = -1 if i is None else i
            i = prog.field_index('ssh::keytype::Curve', 'identifier')
            CRV_ID[0] = -1 if i is None else i
        if a:
            for i, f in enumerate(a['variants'][0]['fields']):
                t = prog.types[f[1]]
                if t['k'] == 'uint' and t['bits'] == 64:
                    self.ro = i
                elif t['k'] == 'ref' and prog.types[t['to']]['k'] == 'slice':
                    self.ri = i
            if len(a['variants'][0]['fields']) != 2:
                self.ri = None

    def e(self, name):
        return agg(ERR, self.errv[name], ())

    def reader_ok(self):
        return self.ri is not None and self.ro is not None and 'UnexpectedEof' in self.errv and 'InvalidFormat' in self.errv

    # ------------------------------------------------ Reader
    def rd_state(self, c):
        v = c.val(0)
        return v, fld(v, 0, self.ri), fld(v, 0, self.ro)

    def advance(self, c, s, v, off):
        m = c.args[0]
        c.I.store(s, m.a[0], m.a[1], setfld(v, 0, self.ro, off))

    def prim(self, kind):
        def h(c):
            if c.args[0].op != 'mref':
                return None
            v, inner, off = self.rd_state(c)
            st = c.st
            L = length(inner)
            out = []
            # at or past the end
            eof = le(L, off)
            k = st.facts.truth_of(eof)
            if k is not False:
                s = st.copy()
                if s.facts.assume(eof, True):
                    out.append((s, err(self.e('UnexpectedEof'))))
            if k is True:
                return out
            s = st.copy()
            s.facts.truth[eof] = False
            s.facts.le = s.facts.le + (add(sub(off, L), ONE),)
            if kind == 'raw':
                n = c.val(1)
                if n.op not in ('int', 'lin'):
                    s.facts.unsigned(n)
                end = add(off, n)
                val = slice_(inner, off, end)
                bad = 'UnexpectedEof'
            elif kind == 'u32':
                end = add(off, I(4))
                val = unbe(4, slice_(inner, off, end))
                s.facts.unsigned(val, 32)
                bad = 'InvalidFormat'
            elif kind == 'u64':
                end = add(off, I(8))
                val = unbe(8, slice_(inner, off, end))
                s.facts.unsigned(val, 64)
                bad = 'InvalidFormat'
            else:
                n = unbe(4, slice_(inner, off, add(off, I(4))))
                end = add(add(off, I(4)), n)
                val = slice_(inner, add(off, I(4)), end)
                bad = 'InvalidFormat'
            fits = s.facts.truth_of(le(end, L))
            if fits is not True:
                s2 = s.copy()
                s2.facts.truth[le(end, L)] = False
                out.append((s2, err(self.e(bad))))
            if fits is not False:
                if fits is None:
                    s.facts.truth[le(end, L)] = True
                    s.facts.le = s.facts.le + (sub(end, L),)
                    if kind == 'bytes':
                        s.facts.le = s.facts.le + (sub(add(off, I(4)), L),)
                self.advance(c, s, v, end)
                if kind == 'mpint':
                    raise AssertionError
                out.append((s, ok(val)))
            return out
        return h

    def mpint(self, c):
        """read_positive_mpint = a length-prefixed field, leading zero byte removed, negative rejected"""
        r = self.prim('bytes')(c)
        if r is None:
            return None
        out = []
        for s, x in r:
            if x.a[1] != 0:
                out.append((s, x))
                continue
            raw = x.a[2]
            bad = mk('mpneg', raw)
            s2 = s.copy()
            s2.facts.truth[bad] = True
            out.append((s2, err(self.e('InvalidFormat'))))
            s.facts.truth[bad] = False
            out.append((s, ok(mk('mpval', raw))))
        return out

    def reader(self):
        if not self.reader_ok():
            return {}
        r = {}
        for m, k in (('read_bytes', 'bytes'), ('read_raw_bytes', 'raw'), ('read_u32', 'u32'), ('read_u64', 'u64')):
            f = self.prog.find(f'{RD}::{m}')
            if f is not None and f.body.argc == (2 if k == 'raw' else 1):
                r[f'{RD}::{m}'] = self.prim(k)
        if self.prog.find(f'{RD}::read_positive_mpint') is not None:
            r[f'{RD}::read_positive_mpint'] = self.mpint
        return r

    def cstring(self):
        """read_cstring = the bytes up to the next NUL; unterminated is an error"""
        def h(c):
            if c.args[0].op != 'mref':
                return None
            v, inner, off = self.rd_state(c)
            t = mk('cstrok', inner, off)
            s = c.st.copy()
            s.facts.truth[t] = False
            c.st.facts.truth[t] = True
            end = mk('cstrend', inner, off)
            c.st.facts.le = c.st.facts.le + (sub(end, length(inner)), sub(add(off, ONE), end))
            self.advance(c, c.st, v, end)
            return [(s, err(self.e('UnexpectedEof'))), (c.st, ok(mk('cstr', inner, off)))]
        k = f'{RD}::read_cstring'
        return {k: h} if self.prog.find(k) is not None and self.reader_ok() else {}

    def privkey_record(self):
        """the routine reading one private key record from a reader, located by its signature"""
        fs = [f for f in self.prog.fns.values() if f.key.startswith('ssh::privkey') and '{' not in f.key and f.body.argc == 1 and not f.impl_trait
              and 'Reader' in self.prog.tystr(f.body.tys[1]) and self.prog.tystr(f.body.tys[1]).startswith('&mut')
              and 'Result<ssh::privkey::PrivateKey,' in self.prog.tystr(f.body.tys[0])]
        if len(fs) != 1 or not self.reader_ok():
            return {}

        def h(c):
            if c.args[0].op != 'mref':
                return None
            v, inner, off = self.rd_state(c)
            e = mk('call', 'private key record', inner, off)
            s = c.st.copy()
            s.facts.set_variant(e, 1)
            c.st.facts.set_variant(e, 0)
            end = mk('afterpriv', inner, off)
            c.st.facts.le = c.st.facts.le + (sub(end, length(inner)), sub(off, end))
            self.advance(c, c.st, v, end)
            return [(s, err(fld(e, 1, 0))), (c.st, ok(fld(e, 0, 0)))]
        return {fs[0].key: h}

    # ------------------------------------------------ Writer
    def wr_append(self, c, x):
        m = c.args[0]
        v = c.val(0)
        a = self.prog.adts[WR]['variants'][0]['fields']
        i = 0
        c.I.store(c.st, m.a[0], m.a[1], setfld(v, 0, i, cat(fld(v, 0, i), x)))
        return UNIT

    def writer(self, lists=True):
        a = self.prog.adts.get(WR)
        if not a or len(a['variants'][0]['fields']) != 1:
            return {}
        r = {f'{WR}::write_mpint': lambda c: self.wr_append(c, mk('mpint', c.val(1)))}
        if lists:
            r[f'{WR}::write_string_vec'] = lambda c: self.wr_append(c, mk('strvec', c.val(1)))
            r[f'{WR}::write_string_map'] = lambda c: self.wr_append(c, mk('strmap', c.val(1)))
        return {k: v for k, v in r.items() if self.prog.find(k) is not None}

    def pubkey_data(self):
        r = {f'{WR}::write_pub_key_data': lambda c: self.wr_append(c, mk('pkdata', c.val(1)))}
        return {k: v for k, v in r.items() if self.prog.find(k) is not None}

    # ------------------------------------------------ key types
    def keytype(self):
        def h(c):
            n = c.val(0)
            if n.op == 'bytes':
                return None
            s = c.st.copy()
            known = mk('ktknown', n)
            out = []
            if c.st.facts.truth_of(known) is not True:
                s.facts.truth[known] = False
                out.append((s, err(mk('kterr', n))))
            c.st.facts.truth[known] = True
            out.append((c.st, ok(mk('kt', n))))
            return out
        k = 'ssh::keytype::KeyType::from_name'
        return {k: h} if self.prog.find(k) is not None else {}

    def curve(self):
        def h(c):
            n = c.val(0)
            if n.op == 'bytes':
                return None
            s = c.st.copy()
            known = mk('crvknown', n)
            s.facts.truth[known] = False
            c.st.facts.truth[known] = True
            return [(s, err(mk('crverr', n))), (c.st, ok(mk('crv', n)))]
        k = 'ssh::keytype::Curve::from_identifier'
        return {k: h} if self.prog.find(k) is not None else {}

    # ------------------------------------------------ public keys inside larger structures
    def pubkey_reader(self):
        def h(c):
            if c.args[1].op != 'mref':
                return None
            n = c.val(0)
            v = c.val(1)
            inner, off = fld(v, 0, self.ri), fld(v, 0, self.ro)
            e = mk('call', 'PublicKey::from_reader', n, inner, off)
            s = c.st.copy()
            s.facts.set_variant(e, 1)
            end = mk('afterpk', n, inner, off)
            c.st.facts.set_variant(e, 0)
            c.st.facts.le = c.st.facts.le + (sub(end, length(inner)), sub(off, end))
            m = c.args[1]
            c.I.store(c.st, m.a[0], m.a[1], setfld(v, 0, self.ro, end))
            return [(s, err(fld(e, 1, 0))), (c.st, ok(fld(e, 0, 0)))]
        k = 'ssh::pubkey::PublicKey::from_reader'
        return {k: h} if self.prog.find(k) is not None and self.reader_ok() else {}

    def pure(self, *keys):
        """crate functions treated as deterministic functions of their argument values"""
        r = {}
        for k in keys:
            if self.prog.find(k) is not None:
                def h(c, k=k):
                    vals = [c.I.deref(c.st, a) for a in c.args]
                    t = mk('call', k, *vals)
                    c.st.event(('call', k, tuple(vals), t, c.site))
                    return t
                r[k] = h
        return r
