"""Interprocedural, path-partitioned value-flow analysis over MIR.

Each abstract path carries: cells (places -> provenance terms), facts, and an event trail.
Loops are widened to a generic iteration (changed places become loop variables whose step
table is recorded); crate functions are inlined unless the rule anchors them."""
from .terms import *
from .facts import Facts
from .prog import Prog, norm
from . import models


class Budget(BaseException):
    pass


class State:
    __slots__ = ('cells', 'facts', 'ev', 'k')

    def __init__(self):
        self.cells = {}
        self.facts = Facts()
        self.ev = None
        self.k = 0

    def copy(self):
        s = State.__new__(State)
        s.cells = dict(self.cells)
        s.facts = self.facts.copy()
        s.ev = self.ev
        s.k = self.k
        return s

    def event(self, e):
        self.ev = (self.ev, e)

    def events(self):
        r = []
        x = self.ev
        while x is not None:
            r.append(x[1])
            x = x[0]
        r.reverse()
        return r


class Obligation:
    __slots__ = ('fn', 'kind', 'what', 'span', 'ok', 'why', 'chain')

    def __init__(self, fn, kind, what, span, ok, why, chain):
        self.fn, self.kind, self.what, self.span, self.ok, self.why, self.chain = fn, kind, what, span, ok, why, chain


class Outcome:
    __slots__ = ('st', 'ret', 'panic')

    def __init__(self, st, ret):
        self.st, self.ret = st, ret
        self.panic = False

    @property
    def facts(self):
        return self.st.facts

    def events(self):
        return self.st.events()


class Call:
    """context handed to a model"""
    __slots__ = ('I', 'st', 'args', 'argtys', 'callee', 'dty', 'site', 'fn', 'chain', 'name')

    def val(self, i, st=None):
        return self.I.deref((st or self.st), self.args[i])

    def store(self, i, v, st=None):
        a = self.args[i]
        if a.op == 'mref':
            self.I.store((st or self.st), a.a[0], a.a[1], v)

    def split(self, t, adt, st=None):
        return self.I.split_variant(st or self.st, t, adt)

    def apply(self, f, args, st=None):
        return self.I.apply(st or self.st, f, args, self.site, self.chain)

    def oblige(self, kind, ok, what, why=None, st=None):
        self.I.oblige(self.fn, kind, what, self.site, ok, why, self.chain)

    def selfty(self):
        return self.I.prog.strip_refs(self.callee['args'][0]) if self.callee['args'] else None


def _bytes_at(t, depth=0):
    """{shift: byte term} of a value composed from bytes by shifts, or None"""
    if depth > 8:
        return None
    if t.op == 'elem':
        return {0: t}
    if t.op == 'unbe' and t.a[1].op == 'slice':
        x, lo = t.a[1].a[0], t.a[1].a[1]
        return {8 * (t.a[0] - 1 - i): elem(x, add(lo, I(i))) for i in range(t.a[0])}
    if t.op == 'shl' and isint(t.a[1]):
        m = _bytes_at(t.a[0], depth + 1)
        return m and {k + t.a[1].a[0]: v for k, v in m.items()}
    if t.op == 'bitor':
        a, b = _bytes_at(t.a[0], depth + 1), _bytes_at(t.a[1], depth + 1)
        if a is None or b is None or set(a) & set(b):
            return None
        return {**a, **b}
    if t.op == 'lin':
        c, d = lin_of(t)
        if c:
            return None
        r = {}
        for k, v in d.items():
            m = _bytes_at(k, depth + 1)
            if m is None or v <= 0 or v & (v - 1):
                return None
            for s, e in m.items():
                s += v.bit_length() - 1
                if s in r:
                    return None
                r[s] = e
        return r
    return None


def bigendian(t):
    m = _bytes_at(t)
    if not m or len(m) < 2 or sorted(m) != [8 * i for i in range(len(m))]:
        return None
    n = len(m)
    first = m[8 * (n - 1)]
    x, lo = first.a
    if all(m[8 * (n - 1 - i)] is elem(x, add(lo, I(i))) for i in range(n)):
        return unbe(n, slice_(x, lo, add(lo, I(n))))
    return None


class Interp:
    def __init__(self, prog, overrides=None, max_steps=400000, max_depth=40, opaque=(), trace=False):
        self.prog = prog
        self.overrides = overrides or {}
        self.opaque = set(opaque)
        self.obligations = []
        self.first = []            # failed obligations seen while probing the first iteration of a loop
        self.silent = 0
        self.steps = 0
        self.max_steps = max_steps
        self.max_depth = max_depth
        self.fid = 0
        self.hid = 0
        self.loops = {}
        self.luid = 0
        self.stack = []
        self.cenv = [{}]
        self.visited = set()       # function paths entered
        self.callsites = set()
        self.unmodelled = {}
        self.bvdepth = 0
        self.consts = {}
        self.unsafe_ops = []
        self.loopctx = {}
        self.bounded = 0           # >0: loops are followed for so many rounds instead of being widened
        self.refuted = []          # obligations that fail for certain on a followed path
        self._neg = False

    # ------------------------------------------------------------ entry
    def analyse(self, fn, args=None, st=None):
        """explore `fn` from arbitrary arguments; -> [Outcome]"""
        if isinstance(fn, str):
            f = self.prog.find(fn)
            if f is None:
                raise KeyError(fn)
            fn = f
        st = st or State()
        if args is None:
            args = self.fresh_args(fn, st)
        self.args = args
        outs = self.call_fn(st, fn, args)
        return [Outcome(s, r) for s, r in outs]

    def fresh_args(self, fn, st):
        b = fn.body
        args = []
        for i in range(1, b.argc + 1):
            ty = self.prog.ty(b.tys[i])
            nm = b.names[i] or f'arg{i}'
            t = mk('param', fn.key, i)
            if ty['k'] == 'ref' and ty['mut']:
                cell = ('P', i)
                st.cells[cell] = t
                args.append(mk('mref', cell, ()))
            else:
                if ty['k'] == 'uint':
                    st.facts.unsigned(t, ty['bits'])
                args.append(t)
            base = ty
            while base['k'] in ('ref', 'ptr'):
                base = self.prog.ty(base['to'])
            if base['k'] == 'slice' and self.prog.ty(base['elem'])['s'] == 'u8' or base['s'] in (
                    'alloc::vec::Vec<u8>', 'str', 'alloc::string::String') or (
                    base['k'] == 'array' and self.prog.ty(base['elem'])['s'] == 'u8'):
                BYTESY.add(t)
            if base['k'] == 'array' and base['len'] is not None:
                t._len = I(base['len'])
        return args

    # ------------------------------------------------------------ cells
    def load(self, st, cell, path):
        v = st.cells.get(cell)
        if v is None:
            v = mk('uninit')
        for p in path:
            if p[0] == 'f':
                v = fld(v, p[1], p[2])
            elif p[0] == 'i':
                v = elem(v, p[1])
            elif p[0] == 'sl':
                HINT[0] = st.facts.prove_le
                v = slice_(v, p[1], p[2])
        return v

    def deref(self, st, v):
        n = 0
        while v.op == 'mref' and n < 8:
            v = self.load(st, v.a[0], v.a[1])
            n += 1
        return v

    def store(self, st, cell, path, val):
        HINT[0] = st.facts.prove_le
        st.cells[cell] = self.setpath(st.cells.get(cell, mk('uninit')), path, 0, val)

    def setpath(self, v, path, i, val):
        if i == len(path):
            return val
        p = path[i]
        if p[0] == 'f':
            return setfld(v, p[1], p[2], self.setpath(fld(v, p[1], p[2]), path, i + 1, val))
        if p[0] == 'i':
            nv = self.setpath(elem(v, p[1]), path, i + 1, val)
            return self.setelem(v, p[1], nv)
        if p[0] == 'sl':
            nv = self.setpath(slice_(v, p[1], p[2]), path, i + 1, val)
            return cat(slice_(v, ZERO, p[1]), nv, slice_(v, p[2], length(v)))
        return mk('mutated', v)

    def setelem(self, v, i, nv):
        if isint(i):
            n = i.a[0]
            if v.op == 'bytes' and n < len(v.a[0]):
                return seq([('s', B(v.a[0][:n])), ('e', nv), ('s', B(v.a[0][n + 1:]))])
            if v.op in ('seq', 'rep'):
                L = length(v)
                if isint(L) and n < L.a[0]:
                    return seq([('s', slice_(v, ZERO, i)), ('e', nv), ('s', slice_(v, I(n + 1), L))])
        if v.op == 'rep' or v.op == 'bytes':
            pass
        t = mk('updi', v, i, nv)
        return t

    # ------------------------------------------------------------ places
    def walk(self, st, body, fid, place, want_lval):
        P = self.prog
        cell = (fid, place[0])
        path = ()
        v = st.cells.get(cell)
        if v is None:
            v = mk('uninit')
        ty = body.tys[place[0]]
        variant = None
        for e in place[1:]:
            k = e[0]
            t = P.types[ty] if ty is not None else {'k': 'other'}
            if k == '*':
                if v.op == 'mref':
                    cell, path = v.a[0], v.a[1]
                    v = self.load(st, cell, path)
                if t['k'] in ('ref', 'ptr'):
                    ty = t['to']
                elif t['k'] == 'adt' and t['args']:
                    ty = t['args'][0]
                else:
                    ty = None
                variant = None
            elif k == 'f':
                if t['k'] == 'adt' and t['path'] in ('alloc::boxed::Box', 'core::ptr::unique::Unique',
                                                     'core::ptr::non_null::NonNull'):
                    ty = e[2]
                    continue
                if v.op != 'mref':
                    path = path + (('f', variant, e[1]),)
                    v = fld(v, variant, e[1])
                ty = e[2]
                self.note_type(st, v, ty)
                variant = None
            elif k == 'd':
                variant = e[1]
            elif k == 'i':
                i = self.deref(st, st.cells.get((fid, e[1]), mk('uninit')))
                path = path + (('i', i),)
                v = elem(v, i)
                ty = t.get('elem')
                if ty is not None:
                    self.note_type(st, v, ty)
            elif k == 'ci':
                off = I(e[1]) if not e[3] else sub(length(v), I(e[1]))
                path = path + (('i', off),)
                v = elem(v, off)
                ty = t.get('elem')
                if ty is not None:
                    self.note_type(st, v, ty)
            elif k == 'ss':
                lo = I(e[1])
                hi = sub(length(v), I(e[2])) if e[3] else I(e[2])
                path = path + (('sl', lo, hi),)
                v = slice_(v, lo, hi)
            else:
                v = mk('unk', 'proj', v)
        if want_lval:
            return cell, path
        return v, ty

    def note_type(self, st, v, ty):
        t = self.prog.types[ty]
        if t['k'] == 'uint':
            if v.op not in ('int', 'lin'):
                st.facts.unsigned(v, t['bits'])
        elif t['k'] == 'int':
            if v.op != 'int' or v.a[0] < 0:
                SIGNED.add(v)
        elif v.op in ('fld', 'elem', 'param', 'call') and v not in BYTESY:
            s = t['s'].replace('&', '').replace('mut ', '')
            if s in ('alloc::vec::Vec<u8>', '[u8]', 'str', 'alloc::string::String'):
                BYTESY.add(v)
            elif t['k'] == 'array' and self.prog.types[t['elem']]['s'] == 'u8':
                BYTESY.add(v)
                if t['len'] is not None:
                    v._len = I(t['len'])

    def rplace(self, st, body, fid, place):
        return self.walk(st, body, fid, place, False)[0]

    def lplace(self, st, body, fid, place):
        return self.walk(st, body, fid, place, True)

    def place_ty(self, body, place):
        ty = body.tys[place[0]]
        P = self.prog
        for e in place[1:]:
            t = P.types[ty]
            k = e[0]
            if k == '*':
                if t['k'] in ('ref', 'ptr'):
                    ty = t['to']
                elif t['k'] == 'adt' and t['args']:
                    ty = t['args'][0]
                else:
                    return None
            elif k == 'f':
                ty = e[2]
            elif k in ('i', 'ci'):
                ty = t.get('elem')
            if ty is None:
                return None
        return ty

    # ------------------------------------------------------------ operands
    def op_ty(self, body, o):
        if o['k'] in ('cp', 'mv'):
            return self.place_ty(body, o['p'])
        return o.get('ty')

    def operand(self, st, body, fid, o):
        k = o['k']
        if k in ('cp', 'mv'):
            return self.rplace(st, body, fid, o['p'])
        if k == 'fn':
            return mk('fn', self.fnref(o['fn']))
        if k == 'c':
            return self.constant(st, o)
        return mk('unk', 'rt')

    _fnrefs = []
    _fnidx = {}

    def fnref(self, c):
        key = id(c)
        if key not in self._fnidx:
            self._fnidx[key] = len(self._fnrefs)
            self._fnrefs.append(c)
        # identical callee json objects differ by id; use a canonical key instead
        ck = (c['path'], tuple(c['args']), self.prog.name)
        if ck not in self._fnidx:
            self._fnidx[ck] = len(self._fnrefs)
            self._fnrefs.append(c)
        return (c['path'], self._fnidx[ck])

    def fncallee(self, t):
        return self._fnrefs[t.a[0][1]]

    def constant(self, st, o):
        if 'promoted' in o:
            key = ('prom', o['promoted'][0], o['promoted'][1])
            if key not in self.consts:
                f = self.prog.fns.get(o['promoted'][0])
                self.consts[key] = self.const_body(f, f.promoted[o['promoted'][1]]) if f else mk('unk', 'promoted')
            return self.consts[key]
        v = o.get('v')
        ty = self.prog.types[o['ty']]
        if v is not None and v[0] != 'opaque':
            r = self.constval(v, ty)
            if r is not None:
                return r
        if 'def' in o:
            key = ('const', o['def'])
            if o.get('local'):
                f = self.prog.fns.get(o['def'])
                if f is not None:
                    if key not in self.consts:
                        self.consts[key] = self.const_body(f, f.body)
                    return self.consts[key]
            return mk('const', o['def'])
        if 'cparam' in o:
            n = self.cenv[-1].get(o['cparam'])
            if n is not None:
                return I(n)
        return mk('unk', 'const', ty['s'])

    def const_body(self, f, body):
        st = State()
        self.silent += 1
        try:
            outs = self.exec_body(st, f, body, [])
        finally:
            self.silent -= 1
        if len(outs) == 1:
            s, r = outs[0]
            return self.deref(s, r)
        return mk('unk', 'constbody', f.path)

    def constval(self, v, ty):
        k = v[0]
        t = ty
        if k == 'int':
            if t['k'] == 'adt':
                a = self.prog.adts.get(t['path'])
                if a and a['kind'] == 'enum' and all(not x['fields'] for x in a['variants']):
                    for i, vv in enumerate(a['variants']):
                        if int(vv['discr']) == int(v[1]):
                            return agg(t['path'], i, ())
                if a and a['kind'] == 'struct' and len(a['variants'][0]['fields']) == 1:
                    return agg(t['path'], 0, (I(v[1]),))
                if a and a['kind'] == 'enum':
                    return None
            return I(v[1])
        if k == 'zst':
            if t['k'] == 'tuple':
                return UNIT
            if t['k'] == 'fndef':
                return mk('fn', self.fnref(t['fn']))
            if t['k'] == 'closure':
                return agg('closure:' + t['path'], 0, ())
            if t['k'] == 'adt':
                a = self.prog.adts.get(t['path'])
                if a and a['kind'] == 'struct':
                    return agg(t['path'], 0, tuple(UNIT for _ in a['variants'][0]['fields']))
            if t['k'] == 'array':
                return EMPTY
            return mk('zst', t['s'])
        if k == 'slice':
            tt = t
            while tt['k'] in ('ref', 'ptr'):
                tt = self.prog.types[tt['to']]
            if tt['k'] != 'str':
                et = self.prog.types[tt['elem']] if tt['k'] in ('slice', 'array') else {}
                if not (et.get('k') == 'uint' and et.get('bits') == 8):
                    return None
            return B(bytes.fromhex(v[1]))
        if k in ('mem', 'ptrbytes'):
            b = bytes.fromhex(v[1])
            tt = t
            while tt['k'] in ('ref', 'ptr'):
                tt = self.prog.types[tt['to']]
            return self.decode(b, tt)
        if k == 'static':
            if v[1] in self.prog.fns and False:
                pass
            return mk('static', v[1])
        if k == 'fn':
            return mk('fn', self.fnref(v[1]))
        return None

    def decode(self, b, t):
        if t['k'] == 'array' or t['k'] == 'slice':
            et = self.prog.types[t['elem']]
            n = t.get('len')
            if et['k'] in ('uint', 'int', 'bool', 'char'):
                sz = {'bool': 1, 'char': 4}.get(et['k']) or et['bits'] // 8
                if n is None:
                    n = len(b) // sz
                if sz == 1:
                    return B(b[:n])
                return seq([('e', I(int.from_bytes(b[i * sz:(i + 1) * sz], 'little', signed=et['k'] == 'int')))
                            for i in range(n)])
            return None
        if t['k'] in ('uint', 'bool', 'char'):
            return I(int.from_bytes(b, 'little'))
        if t['k'] == 'int':
            return I(int.from_bytes(b[:t['bits'] // 8], 'little', signed=True))
        if t['k'] == 'str':
            return B(b)
        return None

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, body, fid, r, span):
        k = r[0]
        if k == 'use':
            return self.operand(st, body, fid, r[1])
        if k == 'ref':
            if r[1]:
                cell, path = self.lplace(st, body, fid, r[2])
                return mk('mref', cell, path)
            v = self.rplace(st, body, fid, r[2])
            return v
        if k == 'rawptr':
            cell, path = self.lplace(st, body, fid, r[2])
            return mk('mref', cell, path)
        if k == 'cast':
            return self.cast(st, body, fid, r)
        if k == 'bin':
            return self.binop(st, body, fid, r[1], r[2], r[3])
        if k == 'un':
            a = self.deref(st, self.operand(st, body, fid, r[2]))
            if r[1] == 'Not':
                ty = self.op_ty(body, r[2])
                if ty is not None and self.prog.types[ty]['k'] == 'bool':
                    return bnot(a)
                return mk('bitnot', a)
            if r[1] == 'Neg':
                return neg(a)
            if r[1] == 'PtrMetadata':
                return length(a)
            return mk('unk', r[1], a)
        if k == 'discr':
            v, ty = self.walk(st, body, fid, r[1], False)
            v = self.deref(st, v)
            return self.discr(st, v, ty)
        if k == 'agg':
            ops = [self.operand(st, body, fid, o) for o in r[2]]
            kk = r[1]
            if kk[0] == 'array':
                return seq([('e', o) for o in ops]) if ops else EMPTY
            if kk[0] == 'tuple':
                return tup(*ops)
            if kk[0] == 'adt':
                return agg(kk[1], kk[2], tuple(ops))
            if kk[0] == 'closure':
                return agg('closure:' + kk[1], 0, tuple(ops))
            return mk('unk', 'agg', *ops)
        if k == 'repeat':
            x = self.operand(st, body, fid, r[1])
            n = self.cenv[-1].get(r[2]) if isinstance(r[2], str) else r[2]
            if n is None:
                return mk('unk', 'repeat', x)
            return rep(x, I(n))
        return mk('unk', str(r[:2]))

    def discr(self, st, v, ty):
        t = self.prog.types[ty] if ty is not None else None
        var = st.facts.variant(v)
        if t and t['k'] == 'adt':
            a = self.prog.adts.get(t['path'])
            if a and a['kind'] == 'enum':
                if var is not None:
                    return I(a['variants'][var]['discr'])
                if v.op == 'ite':
                    return ite(v.a[0], self.discr(st, v.a[1], ty), self.discr(st, v.a[2], ty))
                return mk('discr', v, t['path'])
        if v.op == 'agg':
            a = self.prog.adts.get(v.a[0])
            if a:
                return I(a['variants'][v.a[1]]['discr'])
        return mk('discr', v, '?')

    def cast(self, st, body, fid, r):
        kind, o, dt = r[1], r[2], self.prog.types[r[3]]
        v = self.operand(st, body, fid, o)
        if kind == 'IntToInt':
            sty = self.op_ty(body, o)
            stt = self.prog.types[sty] if sty is not None else {'k': 'other'}
            return self.int_cast(st, v, stt, dt)
        return v

    def int_cast(self, st, v, stt, dt):
        if isint(v):
            n = v.a[0]
            if dt['k'] == 'uint':
                return I(n % (1 << dt['bits']))
            if dt['k'] == 'int':
                b = dt['bits']
                n %= 1 << b
                return I(n - (1 << b) if n >= 1 << (b - 1) else n)
            return v
        sb = {'bool': 1, 'char': 21}.get(stt['k']) or stt.get('bits')
        if stt['k'] in ('uint', 'bool', 'char') and v.op not in ('int', 'lin'):
            st.facts.unsigned(v, sb)
        if stt['k'] == 'adt':
            return v
        if dt['k'] in ('uint', 'char'):
            db = dt.get('bits', 21)
            if stt['k'] in ('uint', 'bool', 'char') and sb is not None and sb <= db:
                return v
            if v.op == 'ite':
                return ite(v.a[0], self.int_cast(st, v.a[1], stt, dt), self.int_cast(st, v.a[2], stt, dt))
            if stt['k'] in ('uint', 'char'):
                if st.facts.prove_le(sub(v, I((1 << db) - 1)), 2):
                    return v
                if v.op == 'trunc' and v.a[0] <= db:
                    return v
                return mk('trunc', db, v)
            return mk('icast', dt['s'], v)
        if dt['k'] == 'int' and stt['k'] in ('uint', 'bool', 'char') and sb is not None and sb < dt['bits']:
            return v
        if dt['k'] == 'int' and stt['k'] == 'int' and sb is not None and sb <= dt['bits']:
            return v
        return mk('icast', dt['s'], v)

    def binop(self, st, body, fid, op, oa, ob):
        a = self.deref(st, self.operand(st, body, fid, oa))
        b = self.deref(st, self.operand(st, body, fid, ob))
        ta = self.op_ty(body, oa)
        t = self.prog.types[ta] if ta is not None else {'k': 'other'}
        if t['k'] == 'uint':
            for x in (a, b):
                if x.op not in ('int', 'lin'):
                    st.facts.unsigned(x, t['bits'])
        return self.arith(st, op, a, b, t)

    def arith(self, st, op, a, b, t):
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge') or op == 'Cmp':
            if op == 'Eq':
                return self.simp_eq(a, b, t)
            if op == 'Ne':
                return bnot(self.simp_eq(a, b, t))
            if op == 'Lt':
                return self.cmp_lift(lt, a, b)
            if op == 'Le':
                return self.cmp_lift(le, a, b)
            if op == 'Gt':
                return self.cmp_lift(lt, b, a)
            if op == 'Ge':
                return self.cmp_lift(le, b, a)
            return mk('cmp', a, b)
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        v = None
        if t['k'] == 'bool':
            if base == 'BitAnd':
                return band(a, b)
            if base == 'BitOr':
                return bor(a, b)
            if base == 'BitXor':
                return bnot(eq(a, b)) if not isint(b) else (bnot(a) if b.a[0] else a)
        if base == 'Add':
            v = add(a, b)
            if v.op == 'lin' and t['k'] == 'uint':
                v = bigendian(v) or v
        elif base == 'Sub':
            v = sub(a, b)
        elif base == 'Mul':
            v = mul(a, b)
        elif base in ('BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr', 'Div', 'Rem'):
            v = self.bitop(base, a, b, t)
        else:
            v = mk('unk', op, a, b)
        if op.endswith('WithOverflow'):
            return tup(v, mk('ovf', base, a, b, t.get('bits', 64), t['k'] == 'int'))
        return v

    def simp_eq(self, a, b, t):
        return eq(a, b)

    def cmp_lift(self, f, a, b):
        if a.op == 'ite':
            return ite(a.a[0], self.cmp_lift(f, a.a[1], b), self.cmp_lift(f, a.a[2], b))
        if b.op == 'ite':
            return ite(b.a[0], self.cmp_lift(f, a, b.a[1]), self.cmp_lift(f, a, b.a[2]))
        return f(a, b)

    def bitop(self, op, a, b, t):
        if isint(a) and isint(b):
            x, y = a.a[0], b.a[0]
            try:
                r = {'BitAnd': lambda: x & y, 'BitOr': lambda: x | y, 'BitXor': lambda: x ^ y,
                     'Shl': lambda: (x << y) % (1 << t.get('bits', 64)), 'Shr': lambda: x >> y,
                     'Div': lambda: x // y if x >= 0 else -((-x) // y), 'Rem': lambda: x % y if x >= 0 else -((-x) % y)}[op]()
                return I(r)
            except Exception:
                pass
        n = {'BitAnd': 'bitand', 'BitOr': 'bitor', 'BitXor': 'xor', 'Shl': 'shl', 'Shr': 'shr', 'Div': 'div',
             'Rem': 'rem'}[op]
        if op in ('BitAnd', 'BitOr', 'BitXor') and (isint(a) or (not isint(b) and a.n > b.n)):
            a, b = b, a
        if op == 'BitAnd' and isint(b) and b.a[0] == 128 and t.get('bits') == 8:
            return ite(le(a, I(127)), ZERO, I(128))
        if op == 'Shr' and isint(b) and b.a[0] == 7 and t.get('bits') == 8:
            return ite(le(a, I(127)), ZERO, ONE)
        if op == 'BitAnd' and b is ZERO:
            return ZERO
        if op in ('BitOr', 'BitXor') and b is ZERO:
            return a
        if op in ('Shl', 'Shr') and b is ZERO:
            return a
        if op == 'Div' and b is ONE:
            return a
        if op == 'Rem' and isint(b) and b.a[0] > 0:
            # (a + k*m) % m
            c, d = lin_of(a)
            m = b.a[0]
            if any(v % m == 0 for v in d.values()) or not (0 <= c < m):
                if all(v >= 0 for v in d.values()) and c >= 0:
                    a = mklin(c % m, {k: v for k, v in d.items() if v % m})
                    if isint(a):
                        return I(a.a[0] % m)
        r = mk(n, a, b)
        return bigendian(r) or r if op == 'BitOr' else r

    # ------------------------------------------------------------ forking helpers
    def split_variant(self, st, t, adt):
        """fork st on the variant of t -> [(st, variant)]"""
        v = st.facts.variant(t)
        if v is not None:
            return [(st, v)]
        if t.op == 'ite':
            r = []
            for s, b in self.split_bool(st, t.a[0]):
                r += self.split_variant(s, t.a[1] if b else t.a[2], adt)
            return r
        a = self.prog.adts.get(adt)
        n = len(a['variants']) if a else 2
        out = []
        cands = [i for i in range(n) if i not in st.facts.nvar.get(t, ())]
        for i in cands:
            s = st.copy() if i != cands[-1] else st
            if s.facts.set_variant(t, i):
                out.append((s, i))
        return out

    def payload(self, t, variant, i=0):
        if t.op == 'ite':
            # only valid under facts selecting a branch; caller splits first
            return fld(t, variant, i)
        return fld(t, variant, i)

    def resolve_ite(self, st, t):
        while t.op == 'ite':
            k = st.facts.truth_of(t.a[0])
            if k is None:
                return t
            t = t.a[1] if k else t.a[2]
        return t

    def split_bool(self, st, t):
        """fork on boolean term -> [(st, bool)]"""
        k = st.facts.truth_of(t)
        if k is not None:
            st.facts.assume(t, k)
            return [(st, k)]
        if t.op == 'not':
            return [(s, not b) for s, b in self.split_bool(st, t.a[0])]
        if t.op == 'ite':
            r = []
            for s, b in self.split_bool(st, t.a[0]):
                r += self.split_bool(s, t.a[1] if b else t.a[2])
            return r
        if t.op == 'and':
            out = []
            cur = [st]
            for x in t.a:
                nxt = []
                for s in cur:
                    for s2, b in self.split_bool(s, x):
                        if b:
                            nxt.append(s2)
                        else:
                            out.append((s2, False))
                cur = nxt
            return out + [(s, True) for s in cur]
        out = []
        s1 = st.copy()
        if s1.facts.assume(t, True):
            out.append((s1, True))
        if st.facts.assume(t, False):
            out.append((st, False))
        return out

    # ------------------------------------------------------------ obligations
    def oblige(self, fn, kind, what, span, ok, why, chain):
        if self.silent:
            if ok is False:
                self.first.append(Obligation(fn.path, kind, what, tuple(span) if span else None, ok, why, chain))
            return
        if self.bounded:
            if ok is False and self._neg:
                self.refuted.append(Obligation(fn.path, kind, what, tuple(span) if span else None, ok, why, chain))
            self._neg = False
            return
        self.obligations.append(Obligation(fn.path, kind, what, tuple(span) if span else None, ok, why, chain))

    # ------------------------------------------------------------ bodies
    def call_fn(self, st, fn, args, callee=None):
        cs = (callee or {}).get('cargs') or {}
        self.cenv.append(self.cenv[-1] if callee is None else {k: self.cenv[-1].get(v) if isinstance(v, str) else v for k, v in cs.items()})
        try:
            return self.exec_body(st, fn, fn.body, args)
        finally:
            self.cenv.pop()

    def exec_body(self, st, fn, body, args):
        if len(self.stack) > self.max_depth or self.stack.count(fn.path) > 2:
            return [(st, mk('unk', 'recursion', fn.path))]
        self.fid += 1
        fid = self.fid
        self.visited.add(fn.path)
        for i, a in enumerate(args):
            if i + 1 <= body.argc:
                st.cells[(fid, i + 1)] = a
        self.stack.append(fn.path)
        try:
            outs = self.run(body, fid, st, 0, (), None)
        finally:
            self.stack.pop()
        res = []
        for o in outs:
            if o[0] != 'ret':
                continue
            s = o[1]
            r = s.cells.get((fid, 0))
            if r is None:
                r = UNIT
            for l in range(len(body.tys)):
                s.cells.pop((fid, l), None)
            res.append((s, r))
        return res

    def run(self, body, fid, st, bb, active, within, start=False):
        out = []
        work = [(st, bb, active, start)]
        while work:
            st, b, act, start = work.pop()
            if not start:
                if act:
                    left = [h for h in act if b not in body.bodies[h]]
                    if left:
                        for h in left:
                            self.loop_exit(st, (fid, h))
                        act = tuple(h for h in act if b in body.bodies[h])
                if within is not None and b not in within:
                    continue
                if b in act:
                    out.append(('back', b, st))
                    continue
                if b in body.heads:
                    out.extend(self.do_loop(body, fid, st, b, act, within))
                    continue
            self.steps += 1
            if self.steps > self.max_steps:
                raise Budget(self.stack[0] if self.stack else '?')
            blk = body.blocks[b]
            dead = False
            for s in blk['s']:
                if s[0] == '=':
                    v = self.rvalue(st, body, fid, s[2], s[3])
                    pl = s[1]
                    if len(pl) == 1:
                        st.cells[(fid, pl[0])] = v
                        ty = body.tys[pl[0]]
                        self.note_type(st, v, ty)
                    else:
                        cell, path = self.lplace(st, body, fid, pl)
                        self.store(st, cell, path, v)
                elif s[0] == 'setd':
                    cell, path = self.lplace(st, body, fid, s[1])
                    ty = self.place_ty(body, s[1])
                    t = self.prog.types[ty]
                    old = self.load(st, cell, path)
                    self.store(st, cell, path, agg(t['path'], s[2], tuple(old.a[2:]) if old.op == 'agg' else ()))
            t = blk['t']
            k = t[0]
            if k == 'goto':
                work.append((st, t[1], act, False))
            elif k == 'drop':
                work.append((st, t[2], act, False))
            elif k == 'ret':
                out.append(('ret', st))
            elif k == 'switch':
                for s, target in self.switch(st, body, fid, t):
                    work.append((s, target, act, False))
            elif k == 'assert':
                s = self.do_assert(st, body, fid, t, blk['sp'])
                if s is not None:
                    work.append((s, t[4], act, False))
            elif k == 'call':
                for s, v in self.do_call(st, body, fid, t, blk['sp']):
                    if t[4] is None:
                        continue
                    pl = t[3]
                    if len(pl) == 1:
                        s.cells[(fid, pl[0])] = v
                        self.note_type(s, v, body.tys[pl[0]])
                    else:
                        cell, path = self.lplace(s, body, fid, pl)
                        self.store(s, cell, path, v)
                    work.append((s, t[4], act, False))
            # unreachable / resume / other: path ends
        return out

    def switch(self, st, body, fid, t):
        v = self.deref(st, self.operand(st, body, fid, t[1]))
        ty = self.prog.types[t[4]]
        targets = [(int(x[0]), x[1]) for x in t[2]]
        other = t[3]
        if ty['k'] == 'int':
            b = ty['bits']
            targets = [(n - (1 << b) if n >= 1 << (b - 1) else n, x) for n, x in targets]
        if isint(v):
            for n, x in targets:
                if n == v.a[0]:
                    return [(st, x)]
            return [(st, other)]
        if v.op == 'ite' and ty['k'] != 'bool':
            out = []
            for s, b in self.split_bool(st, v.a[0]):
                out += self.switch_on(s, v.a[1] if b else v.a[2], ty, targets, other)
            return out
        return self.switch_on(st, v, ty, targets, other)

    def switch_on(self, st, v, ty, targets, other):
        if isint(v):
            for n, x in targets:
                if n == v.a[0]:
                    return [(st, x)]
            return [(st, other)]
        if ty['k'] == 'bool':
            out = []
            for s, b in self.split_bool(st, v):
                d = dict(targets)
                out.append((s, d.get(1 if b else 0, other)))
            return out
        if v.op == 'discr' and v.a[1] != '?':
            a = self.prog.adts[v.a[1]]
            byd = {int(x['discr']): i for i, x in enumerate(a['variants'])}
            out = []
            seen = []
            x = v.a[0]
            for n, tgt in targets:
                if ty['k'] == 'int' and n < 0:
                    n2 = n
                vi = byd.get(n)
                if vi is None:
                    continue
                seen.append(vi)
                s = st.copy()
                if s.facts.set_variant(x, vi):
                    out.append((s, tgt))
            rest = [i for i in range(len(a['variants'])) if i not in seen and i not in st.facts.nvar.get(x, ())]
            if st.facts.variant(x) is not None:
                rest = [i for i in rest if i == st.facts.variant(x)]
            if rest:
                s = st
                good = True
                if len(rest) == 1:
                    good = s.facts.set_variant(x, rest[0])
                else:
                    for i in seen:
                        good = good and s.facts.not_variant(x, i)
                if good:
                    out.append((s, other))
            return out
        out = []
        cur = st
        for n, tgt in targets:
            atom = eq(v, I(n))
            s = cur.copy()
            if s.facts.assume(atom, True):
                out.append((s, tgt))
            if not cur.facts.assume(atom, False):
                return out
        out.append((cur, other))
        return out

    def do_assert(self, st, body, fid, t, sp):
        msg = t[3]
        kind = msg[0]
        if kind == 'bounds':
            ln = self.deref(st, self.operand(st, body, fid, msg[1]))
            ix = self.deref(st, self.operand(st, body, fid, msg[2]))
            if ix.op not in ('int', 'lin'):
                st.facts.unsigned(ix)
            goal = add(sub(ix, ln), ONE)
            ok_ = self.prove(st, goal)
            self.oblige(body.fn, 'index', f'index {show(ix)} < len {show(ln)}', sp, ok_, None, tuple(self.stack))
            if not st.facts.assume(le0(goal), True):
                return None
            return st
        if kind == 'overflow':
            a = self.deref(st, self.operand(st, body, fid, msg[2]))
            b = self.deref(st, self.operand(st, body, fid, msg[3]))
            c = self.deref(st, self.operand(st, body, fid, t[1]))
            bits, signed = 64, False
            if c.op == 'ovf':
                bits, signed = c.a[3], c.a[4]
            elif msg[1] in ('Shl', 'Shr'):
                ty = self.op_ty(body, msg[2])
                bits = self.prog.types[ty].get('bits', 64) if ty is not None else 64
                okk = self.prove(st, sub(b, I(bits - 1)))
                self.oblige(body.fn, 'overflow', f'{msg[1]} by {show(b)}', sp, okk, None, tuple(self.stack))
                return st
            v = {'Add': add, 'Sub': sub, 'Mul': mul}.get(msg[1], lambda x, y: None)(a, b)
            okk = False
            if v is not None:
                if signed:
                    okk = self.prove(st, sub(v, I((1 << (bits - 1)) - 1))) and self.prove(st, sub(I(-(1 << (bits - 1))), v))
                elif msg[1] == 'Sub':
                    okk = self.prove(st, sub(b, a))
                else:
                    okk = self.prove(st, sub(v, I((1 << bits) - 1)))
            self.oblige(body.fn, 'overflow', f'{show(a)} {msg[1]} {show(b)} ({bits} bits)', sp, okk, None, tuple(self.stack))
            if v is not None and not signed:
                if msg[1] == 'Sub':
                    if not st.facts.assume(le0(sub(b, a)), True):
                        return None
                elif not st.facts.assume(le0(sub(v, I((1 << bits) - 1))), True):
                    return None
            return st
        if kind in ('div0', 'rem0'):
            c = self.deref(st, self.operand(st, body, fid, t[1]))
            k = st.facts.truth_of(c)
            self.oblige(body.fn, kind, show(c), sp, k is not None and k == t[2], None, tuple(self.stack))
            if not st.facts.assume(c, t[2]):
                return None
            return st
        c = self.deref(st, self.operand(st, body, fid, t[1]))
        k = st.facts.truth_of(c)
        self.oblige(body.fn, kind, show(c), sp, k is not None and k == t[2], None, tuple(self.stack))
        return st

    def prove(self, st, l):
        r = self._prove(st, l, 0)
        if self.bounded and not r:
            self._neg = st.facts.prove_le(sub(ONE, l), 5)
        return r

    def _prove(self, st, l, d):
        if st.facts.prove_le(l, 5):
            return True
        # case split on an ite inside
        if d < 3:
            for k in lin_of(l)[1]:
                if k.op == 'ite':
                    for br, val in ((k.a[1], True), (k.a[2], False)):
                        s = st.copy()
                        if s.facts.assume(k.a[0], val) and not self._prove(s, subst(l, {k: br}), d + 1):
                            return False
                    return True
        return False

    # ------------------------------------------------------------ calls
    def do_call(self, st, body, fid, t, sp):
        f = t[1]
        args = [self.operand(st, body, fid, a) for a in t[2]]
        if f['k'] == 'fn':
            return self.invoke(st, f['fn'], args, t[5], t[6], sp, body.fn)
        fv = self.deref(st, self.operand(st, body, fid, f))
        return self.apply(st, fv, args, sp, tuple(self.stack))

    def apply(self, st, f, args, sp, chain=()):
        """call a function value with positional args"""
        f = self.deref(st, f)
        if f.op == 'ite':
            out = []
            for s, b in self.split_bool(st, f.a[0]):
                out += self.apply(s, f.a[1] if b else f.a[2], args, sp, chain)
            return out
        if f.op == 'fn':
            c = self.fncallee(f)
            return self.invoke(st, c, args, [None] * len(args), None, sp, None)
        if f.op == 'agg' and f.a[0].startswith('closure:'):
            fn = self.prog.fns.get(f.a[0][8:])
            if fn is not None:
                self.hid += 1
                cell = ('C', self.hid)
                st.cells[cell] = f
                # closure self may be taken by reference or by value
                sty = self.prog.types[fn.body.tys[1]]
                selfv = mk('mref', cell, ()) if sty['k'] == 'ref' and sty['mut'] else f
                return self.call_fn(st, fn, [selfv] + list(args))
        vals = [self.deref(st, a) for a in args]
        r = mk('call', 'dyn', f, *vals)
        self.havoc(st, 'dyn', args, vals)
        st.event(('call', 'dyn', (f,) + tuple(vals), r, sp))
        return [(st, r)]

    def havoc(self, st, name, args, vals, skip=(), tys=None):
        for i, a in enumerate(args):
            if a.op == 'mref' and i not in skip:
                if tys and i < len(tys) and tys[i] is not None:
                    t = self.prog.types[self.prog.strip_refs(tys[i])]
                    if t['k'] in ('slice', 'array'):
                        # a callee cannot change the length of a borrowed slice or array
                        op = 'outbuf' if models.known(name) else 'mutsl'
                        self.store(st, a.a[0], a.a[1], mk(op, length(vals[i]), name, i, *vals))
                        continue
                self.store(st, a.a[0], a.a[1], mk('mutby', name, i, *vals))

    def names(self, callee):
        """candidate model keys, most specific first"""
        r = callee.get('res')
        out = []
        if r:
            out.append(norm(r['path']))
        p = norm(callee['path'])
        if p not in out:
            out.append(p)
        return out

    def invoke(self, st, callee, args, argtys, dty, sp, fn):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget(self.stack[0] if self.stack else '?')
        if 'ctor' in callee:
            return [(st, agg(callee['ctor'][0], callee['ctor'][1], tuple(args)))]
        c = Call()
        c.I, c.st, c.args, c.argtys, c.callee, c.dty, c.site = self, st, args, argtys, callee, dty, sp
        c.fn = fn or (self.prog.fns.get(self.stack[-1]) if self.stack else None)
        c.chain = tuple(self.stack)
        names = self.names(callee)
        c.name = names[0]
        self.callsites.add((self.stack[-1] if self.stack else '?', tuple(sp) if sp else None, names[0]))
        for n in names:
            h = self.overrides.get(n)
            if h is not None:
                r = h(c)
                if r is not None:
                    return r if isinstance(r, list) else [(c.st, r)]
        r = callee.get('res')
        target = None
        if r and r['local'] and r['k'] == 'item':
            target = self.prog.fns.get(r['path'])
        elif not r and callee['local']:
            target = self.prog.fns.get(callee['path'])
        if target is None and 'trait' in callee:
            target = self.local_impl(st, callee, args)
        if target is not None and target.path not in self.opaque:
            if target.derived or (target.macro and target.impl_trait):
                h = models.derived(c, target)
                if h is not None:
                    return h if isinstance(h, list) else [(c.st, h)]
            return self.call_fn(st, target, args, callee)
        h = None
        if 'trait' in callee:
            h = models.TRAITS.get((callee['trait'], callee['method']))
        for n in names:
            h2 = models.FUNCS.get(n)
            if h2 is not None:
                h = h2
                break
        if h is None or names[0].startswith('num_bigint'):
            for n in names:
                h2 = models.by_suffix(n)
                if h2 is not None:
                    h = h2
                    break
        if h is not None:
            r = h(c)
            if r is not None:
                return r if isinstance(r, list) else [(c.st, r)]
        return self.opaque_call(c)

    def local_impl(self, st, callee, args):
        """resolve a trait method call in generic code by the type of its receiver term"""
        fs = self.prog.trait_impls.get((callee['trait'], callee['method']))
        if not fs or not args:
            return None
        v = self.deref(st, args[0])
        if v.op == 'agg' and not v.a[0].startswith('closure'):
            for f in fs:
                t = self.prog.types[self.prog.strip_refs(f.impl_self)]
                if t['k'] == 'adt' and t['path'] == v.a[0]:
                    return f
        return None

    def opaque_call(self, c, name=None):
        st = c.st
        name = name or c.name
        vals = [self.deref(st, a) for a in c.args]
        if not models.known(name):
            self.unmodelled[name] = self.unmodelled.get(name, 0) + 1
        if models.impure(name):
            st.k += 1
            r = mk('call', name, *vals, mk('uid', st.k, self.stack[-1] if self.stack else ''))
        else:
            r = mk('call', name, *vals)
        self.havoc(st, name, c.args, vals, tys=c.argtys)
        st.event(('call', name, tuple(vals), r, c.site))
        return [(st, r)]

    # ------------------------------------------------------------ loops
    def do_loop(self, body, fid, st, h, active, within):
        lb = body.bodies[h]
        inner = lb if within is None else (lb & within)
        if self.bounded and not self.silent:
            return self.follow(body, fid, st, h, active, within)

        def step(s):
            return self.run(body, fid, s, h, active + (h,), inner, start=True)

        backs = self.probe(st, step, h)
        if not backs:
            return self.run(body, fid, st, h, active + (h,), within, start=True)
        if self.unrollable(st, backs):
            r = self.unroll(body, fid, st, h, active, within)
            if r is not None:
                return r
        info, sw = self.widen(st, step, h, f'{body.path}:{h}', backs)
        self.loops[info['uid']] = info
        prev = self.loopctx.get((fid, h))
        self.loopctx[(fid, h)] = info
        info['line'] = body.blocks[h]['sp']
        info['fn'] = body.path
        outs = self.run(body, fid, sw, h, active + (h,), within, start=True)
        res = []
        fin = []
        for o in outs:
            if o[0] == 'back' and o[1] == h:
                fin.append(o[2])
            else:
                res.append(o)
        info['backs'] = fin
        if prev is not None:
            self.loopctx[(fid, h)] = prev
        return res



    def follow(self, body, fid, st, h, active, within):
        """the paths that go round the loop at most `bounded` times"""
        cur, res = [st], []
        for n in range(self.bounded + 1):
            nxt = []
            for s in cur:
                for o in self.run(body, fid, s.copy(), h, active + (h,), within, start=True):
                    if o[0] == 'back' and o[1] == h:
                        nxt.append(o[2])
                    else:
                        res.append(o)
            cur = nxt[:60]
        return res

    def probe(self, st, step, h):
        self.silent += 1
        try:
            outs = step(st.copy())
        finally:
            self.silent -= 1
        return [o[2] for o in outs if o[0] == 'back' and o[1] == h]

    def unrollable(self, st, backs):
        conc = False
        for b in backs:
            for k, v in st.cells.items():
                nv = b.cells.get(k)
                if nv is None or nv is v:
                    continue
                if v.op == 'it':
                    L = length(v.a[0])
                    if not (isint(L) and isint(v.a[1])):
                        return False
                    if L.a[0] > 80:
                        return False
                    conc = True
                elif isint(v) and isint(nv):
                    conc = True
        return conc

    def unroll(self, body, fid, st, h, active, within):
        cur = [st.copy()]
        res = []
        nob = len(self.obligations)
        for n in range(100):
            nxt = []
            for s in cur:
                for o in self.run(body, fid, s.copy(), h, active + (h,), within, start=True):
                    if o[0] == 'back' and o[1] == h:
                        nxt.append(o[2])
                    else:
                        res.append(o)
            if not nxt:
                return res
            if len(nxt) > 40:
                break
            if n >= 3 and not any(self.unrollable(s, [s2]) for s in cur for s2 in nxt):
                break
            cur = [s.copy() for s in nxt]
        del self.obligations[nob:]
        return None

    def widen(self, st, step, h, name, backs0):
        self.luid += 1
        uid = f'{name}#{self.luid}'
        info = {'uid': uid, 'init': {}, 'h': h, 'exits': 0, 'cells': {}}
        sw = st.copy()
        backs = backs0
        # cells that are overwritten before being read need no variable, but are harmless
        for rnd in range(10):
            changed = False
            for b in backs:
                for k in list(sw.cells):
                    nv = b.cells.get(k)
                    v = sw.cells[k]
                    if nv is None:
                        if k[0] not in ('P',):
                            del sw.cells[k]
                            changed = True
                        continue
                    if nv is v:
                        continue
                    g = self.generalise(v, nv, info, (k,), force=rnd > 6)
                    if g is not v:
                        sw.cells[k] = g
                        changed = True
            if not changed and rnd > 0:
                break
            backs = self.probe(sw, step, h)
        def steps_of(backs):
            steps = []
            for b in backs:
                m = {}
                for k, v in sw.cells.items():
                    nv = b.cells.get(k)
                    if nv is not None:
                        self.match_steps(v, nv, m, uid)
                steps.append((b, m))
            return steps
        steps = steps_of(backs)
        uni = self.lockstep(info, steps, sw, uid)
        if uni:
            for k, v in list(sw.cells.items()):
                if any(x in uni for x in subterms(v) if x.op == 'lv'):
                    sw.cells[k] = subst(v, uni)
            for lv in uni:
                del info['init'][lv]
            backs = self.probe(sw, step, h)
            steps = steps_of(backs)
        info['steps'] = [m for _, m in steps]
        info['conds'] = [self.delta(sw, b) for b, _ in steps]
        info['sfacts'] = [b.facts for b, _ in steps]
        info['sw'] = sw
        lvs = info['init']
        # iterator positions
        iters = {}
        for k, v in sw.cells.items():
            self.find_iters(v, iters, uid)
        info['iters'] = iters
        cands = []
        ints = [lv for lv in lvs if self.intlike(lvs[lv]) and lv not in SIGNED]
        for lv in ints:
            cands.append(sub(lvs[lv], lv))
            cands.append(sub(lv, lvs[lv]))
            st0 = lvs[lv]
            if st.facts.prove_le(neg(st0), 2):
                if all(m.get(lv) is not None and sw.facts.prove_le(neg(subst(m[lv], {lv: ZERO})), 3) for _, m in steps):
                    sw.facts.unsigned(lv)
        for p, src in iters.items():
            cands.append(sub(p, length(src)))
            msrc = src.a[0] if src.op == 'enum' else src
            if msrc.op == 'matchidx':
                for lv in ints:
                    cands.append(sub(lv, models.midx(msrc, p)))
                    cands.append(sub(lv, length(msrc.a[0])))
        for a in ints:
            for b_ in ints:
                if a is not b_:
                    cands.append(sub(sub(a, lvs[a]), sub(b_, lvs[b_])))
        for b, m in steps:
            for l in b.facts.le[len(st.facts.le):]:
                ks = lin_of(l)[1]
                for lv in ints:
                    if ks.get(lv) == 1:
                        cands.append(l)
                        cands.append(sub(l, ONE))
        good = []
        for cnd in cands:
            if isint(cnd) or cnd in good:
                continue
            if not st.facts.prove_le(subst(cnd, lvs), 4):
                continue
            okk = True
            for b, m in steps:
                f = b.facts
                if not f.prove_le(subst(cnd, {lv: m.get(lv, lv) for lv in lvs}), 4):
                    f2 = f.copy()
                    f2.le = f2.le + tuple(good) + (cnd,)
                    if not f2.prove_le(subst(cnd, {lv: m.get(lv, lv) for lv in lvs}), 5):
                        okk = False
                        break
            if okk:
                good.append(cnd)
        sw.facts.le = sw.facts.le + tuple(good)
        info['inv'] = good
        self.closed_forms(info)
        return info, sw

    def lockstep(self, info, steps, sw, uid):
        """induction variables advancing by constants in step with each other: keep one"""
        inc = {}
        for lv in info['init']:
            ks = set()
            for _, m in steps:
                nv = m.get(lv)
                if nv is None:
                    ks.add(None)
                    break
                d = sub(nv, lv)
                ks.add(d.a[0] if isint(d) else None)
            if len(ks) == 1 and None not in ks and 0 not in ks:
                inc[lv] = ks.pop()
        if len(inc) < 2:
            return {}
        iters = {}
        for k, v in sw.cells.items():
            self.find_iters(v, iters, uid)
        lead = [lv for lv in inc if lv in iters and inc[lv] == 1] or [lv for lv in inc if abs(inc[lv]) == 1]
        if not lead:
            return {}
        a = lead[0]
        uni = {}
        for lv, k in inc.items():
            if lv is not a and not (lv in iters and iters[lv] is None):
                uni[lv] = add(info['init'][lv], mul(sub(a, info['init'][a]), I(k * inc[a])))
        return uni

    def intlike(self, t):
        return t.op in ('int', 'lin', 'len', 'lv', 'fld', 'param', 'unbe', 'elem')

    def generalise(self, old, new, info, path, force=False):
        if old is new:
            return old
        if old.op == 'lv' and old.a[0] == info['uid']:
            return old
        if not force and old.op == new.op and len(old.a) == len(new.a) and old.op in ('agg', 'it', 'upd', 'reader', 'writer'):
            if old.op != 'agg' or (old.a[0] == new.a[0] and old.a[1] == new.a[1]):
                if old.op == 'it' and old.a[0] is not new.a[0]:
                    pass
                elif old.op == 'upd' and old.a[1] != new.a[1]:
                    pass
                else:
                    a = []
                    ch = False
                    for i, (x, y) in enumerate(zip(old.a, new.a)):
                        if isinstance(x, T) and isinstance(y, T):
                            g = self.generalise(x, y, info, path + (i,))
                            ch = ch or g is not x
                            a.append(g)
                        else:
                            a.append(x)
                    return mk(old.op, *a) if ch else old
        if not force and new.op == 'upd' and old.op in ('param', 'fld', 'upd', 'call', 'elem'):
            keys = []
            base = new
            while base.op == 'upd':
                keys.append(base.a[1])
                base = base.a[0]
            ob = old
            while ob.op == 'upd':
                if ob.a[1] not in keys:
                    keys.append(ob.a[1])
                ob = ob.a[0]
            if ob is base:
                g = old
                for (vr, i) in keys:
                    x = self.generalise(fld(old, vr, i), fld(new, vr, i), info, path + (i,))
                    if x is not fld(g, vr, i):
                        g = setfld(g, vr, i, x)
                return g
        # a sequence growing at its end / a value already generalised inside
        if old.op == 'seq' or old.op == 'lin':
            inner = [x for x in subterms(old) if x.op == 'lv' and x.a[0] == info['uid']]
            if inner and len(info['init']) > 60:
                pass
        lv = mk('lv', info['uid'], len(info['init']))
        info['init'][lv] = subst(old, info['init']) if any(
            x.op == 'lv' and x.a[0] == info['uid'] for x in subterms(old)) else old
        info['cells'][lv] = path
        if old in BYTESY or old.op == 'bytes':
            BYTESY.add(lv)
        if old in SIGNED:
            SIGNED.add(lv)
        return lv

    def match_steps(self, old, new, m, uid):
        if old.op == 'lv' and old.a[0] == uid:
            m[old] = new
            return
        if old is new:
            for x in subterms(old):
                if x.op == 'lv' and x.a[0] == uid:
                    m.setdefault(x, x)
            return
        if old.op == 'upd':
            b = old
            while b.op == 'upd':
                self.match_steps(b.a[2], fld(new, b.a[1][0], b.a[1][1]), m, uid)
                b = b.a[0]
            return
        if old.op == new.op and len(old.a) == len(new.a):
            for x, y in zip(old.a, new.a):
                if isinstance(x, T) and isinstance(y, T):
                    self.match_steps(x, y, m, uid)

    def find_iters(self, v, out, uid):
        for x in subterms(v):
            if x.op == 'it' and x.a[1].op == 'lv' and x.a[1].a[0] == uid:
                out[x.a[1]] = x.a[0]

    def delta(self, sw, b):
        d = {}
        for k, v in b.facts.truth.items():
            if k not in sw.facts.truth:
                d[k] = v
        for k, v in b.facts.var.items():
            if k not in sw.facts.var:
                d[mk('is', k, v)] = True
        for k, vs in b.facts.nvar.items():
            for v in vs - sw.facts.nvar.get(k, frozenset()):
                d[mk('is', k, v)] = False
        return d

    def merge(self, items):
        """[(conds, value)] -> ite tree or None"""
        vals = {v for _, v in items}
        if len(vals) == 1:
            return items[0][1]
        atoms = {}
        for c, _ in items:
            for a, b in c.items():
                atoms.setdefault(a, set()).add(b)
        for a in sorted(atoms, key=lambda t: t.n):
            if len(atoms[a]) == 2 and all(a in c or self.implied(a, c) is not None for c, _ in items):
                yes = [(c, v) for c, v in items if (c.get(a) if a in c else self.implied(a, c))]
                no = [(c, v) for c, v in items if not (c.get(a) if a in c else self.implied(a, c))]
                if not yes or not no:
                    continue
                x = self.merge([({k: q for k, q in c.items() if k is not a}, v) for c, v in yes])
                y = self.merge([({k: q for k, q in c.items() if k is not a}, v) for c, v in no])
                if x is not None and y is not None:
                    return ite(a, x, y)
        # positive-only variant atoms: is(t,0) vs is(t,1)
        for a in sorted(atoms, key=lambda t: t.n):
            if a.op == 'is':
                t = a.a[0]
                got = {}
                for c, v in items:
                    kk = [x.a[1] for x, p in c.items() if x.op == 'is' and x.a[0] is t and p]
                    if len(kk) != 1:
                        break
                    got.setdefault(kk[0], []).append((c, v))
                else:
                    if len(got) == 2:
                        (k1, i1), (k2, i2) = sorted(got.items())
                        x = self.merge([({k: q for k, q in c.items() if not (k.op == 'is' and k.a[0] is t)}, v) for c, v in i1])
                        y = self.merge([({k: q for k, q in c.items() if not (k.op == 'is' and k.a[0] is t)}, v) for c, v in i2])
                        if x is not None and y is not None:
                            return ite(mk('is', t, k1), x, y)
        return None

    def implied(self, a, c):
        if a.op == 'is':
            for x, p in c.items():
                if p and x.op == 'is' and x.a[0] is a.a[0] and x.a[1] != a.a[1]:
                    return False
        return None

    def closed_forms(self, info):
        """closed forms of accumulators when the loop runs an iterator to exhaustion"""
        info['closed'] = {}
        steps, conds = info['steps'], info['conds']
        if len(info['iters']) != 1 or not steps:
            return
        (p, src), = info['iters'].items()
        p0 = info['init'][p]
        if not all(m.get(p) is add(p, ONE) for m in steps):
            return
        info['iter'] = (p, src)
        base = src if p0 is ZERO else mk('skip', src, p0)
        idx = add(p0, BV0)
        lvs = set(info['init'])
        closed = {}
        for lv, init in info['init'].items():
            if lv is p:
                continue
            items = []
            good = True
            kind = None
            for m, c in zip(steps, conds):
                nv = m.get(lv, lv)
                ps = parts_of(nv)
                if nv is lv:
                    items.append((c, ('same',)))
                elif ps and ps[0] == ('s', lv):
                    items.append((c, ('app', seq(ps[1:]))))
                elif lin_of(nv)[1].get(lv) == 1:
                    items.append((c, ('sum', sub(nv, lv))))
                elif nv.op == 'mapins' and nv.a[0] is lv:
                    items.append((c, ('ins', tup(nv.a[1], nv.a[2]))))
                else:
                    good = False
            if not good:
                continue
            kinds = {x[1][0] for x in items} - {'same'}
            if len(kinds) > 1:
                continue
            if not kinds:
                closed[lv] = init
                continue
            kind = kinds.pop()
            dflt = {'app': EMPTY, 'sum': ZERO, 'ins': mk('noins')}[kind]
            body = self.merge([(c, x[1] if len(x) > 1 else dflt) for c, x in items])
            if body is None:
                continue
            if any(x in lvs and x is not p for x in subterms(body)):
                continue
            body = subst(body, {p: idx})
            if kind == 'app':
                closed[lv] = cat(init, cmap(base, body))
            elif kind == 'sum':
                closed[lv] = add(init, sum_(base, body))
            else:
                closed[lv] = mk('mapfrom', init, base, body)
        closed[p] = length(src)
        info['closed'] = closed

    def loop_exit(self, st, key):
        info = self.loopctx.get(key)
        if not info or not info.get('closed'):
            return
        it = info.get('iter')
        if not it:
            return
        p, src = it
        if st.facts.truth_of(lt(p, length(src))) is False:
            m = info['closed']
            for k, v in list(st.cells.items()):
                if any(x in m for x in subterms(v) if x.op == 'lv'):
                    st.cells[k] = subst(v, m)
            info['exits'] += 1
