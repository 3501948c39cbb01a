"""Transfer functions for external (std / third-party) callees, in terms of provenance terms.

A handler gets a Call context and returns a term, a list of (state, term), or None to fall back to
an opaque call.  Functions not listed here become opaque values that remember their arguments."""
from .terms import *

FUNCS = {}
TRAITS = {}
SUFFIX = {}
KNOWN_PREFIX = ('ring::', 'chrono::', 'base64::', 'bcrypt_pbkdf::', 'cipher::', 'minicbor::', 'num_bigint::',
                'x509_parser::', 'der_parser::', 'asn1_rs::', 'yubikey::', 'authenticator::', 'ctap_hid_fido2::',
                'rcgen::', 'simple_asn1::', 'sec1::', 'zeroize::', 'std::fs', 'std::sync::mpsc', 'std::thread',
                'x509::', 'generic_array::', 'aes', '<aes', '<x509', '<ring', '<yubikey', '<authenticator', '<T as ring',
                '<C as cipher', 'ssh::SSHCertificateSigner::sign', 'core::io', '<core::io', '<std::fs', '<base64', 'std::io', '<std::sync')
PASSIVE = ('core::fmt', 'core::error', '<core::fmt', 'core::any')
IMPURE = ('ring::rand', '<T as ring::rand', 'std::fs', '<std::fs', 'yubikey::', 'authenticator::', 'ctap_hid_fido2::',
          'std::sync::mpsc', 'std::thread', 'std::io', 'std::time', 'chrono::offset::utc', 'chrono::offset::local',
          'std::env')


def known(name):
    return name.startswith(KNOWN_PREFIX) or name.startswith(PASSIVE)


def impure(name):
    return name.startswith(IMPURE)


def by_suffix(name):
    """strip impl headers: `core::slice::<impl [T]>::len` etc. are keyed by their last two segments"""
    if '<impl ' in name or name.startswith('<'):
        m = name.rsplit('::', 1)[-1]
        base = name[:-(len(m) + 2)]
        for pat, table in SUFFIX.items():
            if base.startswith(pat) and m in table:
                return table[m]
    return None


def fn(*names):
    def d(h):
        for n in names:
            FUNCS[n] = h
        return h
    return d


def tr(trait, *methods):
    def d(h):
        for m in methods:
            TRAITS[(trait, m)] = h
        return h
    return d


def sfx(prefix, *methods):
    def d(h):
        for m in methods:
            SUFFIX.setdefault(prefix, {})[m] = h
        return h
    return d


SL = 'core::slice::<impl [T]>'
ASL = 'alloc::slice::<impl [T]>'
ST = 'core::str::<impl str>'
AST = 'alloc::str::<impl str>'
VEC = 'alloc::vec::Vec'
STR = 'alloc::string::String'
O = 'core::option::Option::'
R = 'core::result::Result::'
ITER = 'core::iter::traits::iterator::Iterator'
NUMS = ['u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize']


def both(prefixes, *methods):
    def d(h):
        for p in prefixes:
            for m in methods:
                FUNCS[p + '::' + m] = h
        return h
    return d


SEQS = (SL, ASL, ST, AST, VEC, STR, 'core::array::<impl [T; N]>')


# ------------------------------------------------------------------ identity
def ident(c):
    return c.val(0)


def same(c):
    return c.args[0]


both(SEQS, 'to_vec', 'to_owned', 'as_slice', 'as_bytes', 'as_str', 'into_bytes', 'into_vec', 'into_boxed_slice',
     'into_string', 'to_string', 'into_boxed_str', 'as_ref', 'as_array')(ident)
both(SEQS, 'as_mut_slice', 'as_mut_str', 'as_mut')(same)
for n in ('alloc::boxed::Box::new', 'core::hint::must_use', 'core::hint::black_box', 'zeroize::Zeroizing::new',
          'core::convert::identity', 'generic_array::GenericArray::as_slice', 'sec1::point::EncodedPoint::as_bytes',
          'alloc::rc::Rc::new', 'alloc::sync::Arc::new', 'alloc::borrow::Cow::into_owned',
          'core::iter::adapters::peekable::Peekable::new', 'core::mem::ManuallyDrop::new', 'alloc::string::String::as_mut_vec',
          'core::slice::from_ref', 'alloc::boxed::Box::pin', 'ring::rand::Random::expose', 'zeroize::Zeroizing::from'):
    FUNCS[n] = ident
FUNCS['core::slice::from_ref'] = lambda c: seq([('e', c.val(0))])
FUNCS[STR + '::from_utf8_lossy'] = lambda c: mk('lossy', c.val(0))
for n in ('from_utf8_unchecked',):
    FUNCS[STR + '::' + n] = ident
    FUNCS['core::str::converts::' + n] = ident


@tr('core::clone::Clone', 'clone')
def clone(c):
    return c.val(0)


@tr('alloc::borrow::ToOwned', 'to_owned')
def to_owned(c):
    return c.val(0)


@tr('core::convert::AsRef', 'as_ref')
@tr('core::borrow::Borrow', 'borrow')
def as_ref(c):
    return c.val(0)


@tr('core::ops::deref::Deref', 'deref')
def deref(c):
    v = c.val(0)
    if 'X509Certificate' in c.name:
        i = field_ix(c, 'x509_parser::certificate::X509Certificate', 'tbs_certificate')
        if i is not None:
            return fld(v, None, i)
    return v


def field_ix(c, adt, name):
    a = c.I.prog.adts.get(adt)
    if a:
        for i, f in enumerate(a['variants'][0]['fields']):
            if f[0] == name:
                return i
    return None


@tr('core::ops::deref::DerefMut', 'deref_mut')
@tr('core::convert::AsMut', 'as_mut')
@tr('core::borrow::BorrowMut', 'borrow_mut')
def deref_mut(c):
    return c.args[0]


# ------------------------------------------------------------------ conversions
def tyk(c, i):
    return c.I.prog.types[i]


def base_ty(c, i):
    return c.I.prog.types[c.I.prog.strip_refs(i)]


def seqty(t):
    return t['k'] in ('slice', 'array', 'str') or (t['k'] == 'adt' and t['path'] in (
        VEC, STR, 'alloc::borrow::Cow', 'alloc::boxed::Box', 'zeroize::Zeroizing', 'generic_array::GenericArray'))


@tr('core::convert::Into', 'into')
def into(c):
    a = c.callee['args']
    return convert(c, c.args[0], a[0], a[1])


@tr('core::convert::From', 'from')
def from_(c):
    a = c.callee['args']
    return convert(c, c.args[0], a[1], a[0])


def convert(c, v, src, dst):
    P = c.I.prog
    ts, td = P.types[src], P.types[dst]
    if ts['s'] == td['s']:
        return v
    f = P.from_impl(dst, src)
    if f is not None:
        return c.I.call_fn(c.st, f, [v])
    bs, bd = P.types[P.strip_refs(src)], P.types[P.strip_refs(dst)]
    if td['k'] == 'adt' and td['path'] == OPT:
        return some(v)
    if bs['s'] == bd['s'] or (seqty(bs) and seqty(bd)):
        return c.I.deref(c.st, v)
    if td['k'] in ('uint', 'int', 'char') and ts['k'] in ('uint', 'int', 'bool', 'char'):
        return c.I.int_cast(c.st, v, ts, td)
    if td['k'] == 'adt' and td['path'] in ('alloc::boxed::Box', 'alloc::rc::Rc', 'alloc::sync::Arc'):
        return v
    if bd['k'] == 'adt' and bd['path'] == STR and bs['k'] == 'char':
        return push_char(EMPTY, c.I.deref(c.st, v))
    return mk('conv', td['s'], c.I.deref(c.st, v))


@tr('core::convert::TryInto', 'try_into')
def try_into(c):
    a = c.callee['args']
    return try_conv(c, a[0], a[1])


@tr('core::convert::TryFrom', 'try_from')
def try_from(c):
    a = c.callee['args']
    return try_conv(c, a[1], a[0])


def try_conv(c, src, dst):
    P = c.I.prog
    v = c.val(0)
    ts, td = P.types[src], P.types[P.strip_refs(dst)]
    for f in P.trait_impls.get(('core::convert::TryFrom', 'try_from'), []):
        if P.tystr(f.impl_self) == P.tystr(dst) and P.tystr(f.impl_trait_arg) == P.tystr(src):
            return c.I.call_fn(c.st, f, [c.args[0]])
    e = mk('call', 'try_into', v, mk('tyname', td['s']))
    if td['k'] == 'array' and td['len'] is not None:
        out = []
        for s, b in c.I.split_bool(c.st, eq(length(v), I(td['len']))):
            if b:
                if not isint(length(v)):
                    # the array is the same bytes, now of known length
                    v2 = slice_(v, ZERO, I(td['len'])) if v.op != 'rdv' else v
                else:
                    v2 = v
                out.append((s, ok(v2)))
            else:
                out.append((s, err(fld(e, 1, 0))))
        return out
    if td['k'] in ('uint', 'int') and ts['k'] in ('uint', 'int'):
        if ts['k'] == 'uint' and v.op not in ('int', 'lin'):
            c.st.facts.unsigned(v, ts['bits'])
        hi = (1 << (td['bits'] - (1 if td['k'] == 'int' else 0))) - 1
        cond = le(v, I(hi))
        if ts['k'] == 'int':
            lo = 0 if td['k'] == 'uint' else -(1 << (td['bits'] - 1))
            cond = band(cond, le(I(lo), v))
        if ts['k'] == 'uint' and ts['bits'] <= td['bits'] - (1 if td['k'] == 'int' else 0):
            return ok(v)
        return [(s, ok(v) if b else err(fld(e, 1, 0))) for s, b in c.I.split_bool(c.st, cond)]
    return None


# ------------------------------------------------------------------ Try
def isres(c):
    t = c.selfty()
    if t is not None:
        t = c.I.prog.types[t]
        if t['k'] == 'adt':
            return t['path'] == RES
    return 'result::Result' in c.name


@tr('core::ops::try_trait::Try', 'branch')
def branch(c):
    v = c.val(0)
    out = []
    if isres(c):
        for s, k in c.split(v, RES):
            w = c.I.resolve_ite(s, v)
            out.append((s, agg(CF, 0, (fld(w, 0, 0),)) if k == 0 else agg(CF, 1, (err(fld(w, 1, 0)),))))
    else:
        for s, k in c.split(v, OPT):
            w = c.I.resolve_ite(s, v)
            out.append((s, agg(CF, 0, (fld(w, 1, 0),)) if k == 1 else agg(CF, 1, (NONE,))))
    return out


@tr('core::ops::try_trait::FromResidual', 'from_residual')
def from_residual(c):
    v = c.val(0)
    P = c.I.prog
    ts = P.types[c.callee['args'][0]]
    if ts['k'] == 'adt' and ts['path'] == OPT:
        return NONE
    rt = P.types[c.callee['args'][1]]
    if rt['k'] == 'adt' and rt['path'] == RES and ts['k'] == 'adt':
        r = convert(c, fld(v, 1, 0), rt['args'][1], ts['args'][1])
        if isinstance(r, list):
            return [(s, err(x)) for s, x in r]
        return err(r)
    return None


@tr('core::ops::try_trait::Try', 'from_output')
def from_output(c):
    return ok(c.args[0]) if isres(c) else some(c.args[0])


# ------------------------------------------------------------------ Option / Result
def var_atom(t, k):
    if t.op == 'agg':
        return TRUE if t.a[1] == k else FALSE
    if t.op == 'ite':
        return ite(t.a[0], var_atom(t.a[1], k), var_atom(t.a[2], k))
    return mk('is', t, k)


FUNCS[O + 'is_some'] = lambda c: var_atom(c.val(0), 1)
FUNCS[O + 'is_none'] = lambda c: var_atom(c.val(0), 0) if c.val(0).op == 'agg' else bnot(var_atom(c.val(0), 1))
FUNCS[R + 'is_ok'] = lambda c: var_atom(c.val(0), 0)
FUNCS[R + 'is_err'] = lambda c: bnot(var_atom(c.val(0), 0))
for m in ('as_ref', 'as_deref', 'cloned', 'copied', 'as_slice'):
    FUNCS[O + m] = ident
    FUNCS[R + m] = ident


class Alt:
    """the case split of an Option/Result argument"""

    def __init__(self, c, i=0, opt=None):
        self.c = c
        self.v = c.val(i)
        self.opt = opt if opt is not None else c.name.startswith(O)

    def __iter__(self):
        """yields (state, good?, payload)"""
        adt = OPT if self.opt else RES
        good = 1 if self.opt else 0
        for s, k in self.c.split(self.v, adt):
            w = self.c.I.resolve_ite(s, self.v)
            if k == good:
                yield s, True, fld(w, good, 0)
            else:
                yield s, False, (None if self.opt else fld(w, 1, 0))


def wrapgood(c, x):
    return some(x) if c.name.startswith(O) else ok(x)


def badval(c, e):
    return NONE if c.name.startswith(O) else err(e)


@fn(O + 'map', R + 'map')
def o_map(c):
    out = []
    for s, g, x in Alt(c):
        if g:
            out += [(s2, wrapgood(c, r)) for s2, r in c.apply(c.args[1], [x], s)]
        else:
            out.append((s, badval(c, x)))
    return out


@fn(R + 'map_err')
def r_map_err(c):
    out = []
    for s, g, x in Alt(c):
        if g:
            out.append((s, ok(x)))
        else:
            out += [(s2, err(r)) for s2, r in c.apply(c.args[1], [x], s)]
    return out


@fn(O + 'and_then', R + 'and_then')
def o_and_then(c):
    out = []
    for s, g, x in Alt(c):
        if g:
            out += c.apply(c.args[1], [x], s)
        else:
            out.append((s, badval(c, x)))
    return out


@fn(O + 'and', R + 'and')
def o_and(c):
    return [(s, c.args[1] if g else badval(c, x)) for s, g, x in Alt(c)]


@fn(O + 'or', R + 'or')
def o_or(c):
    return [(s, wrapgood(c, x) if g else c.args[1]) for s, g, x in Alt(c)]


@fn(O + 'or_else', R + 'or_else')
def o_or_else(c):
    out = []
    for s, g, x in Alt(c):
        out += [(s, wrapgood(c, x))] if g else c.apply(c.args[1], [] if c.name.startswith(O) else [x], s)
    return out


@fn(O + 'unwrap_or', R + 'unwrap_or')
def o_unwrap_or(c):
    return [(s, x if g else c.args[1]) for s, g, x in Alt(c)]


@fn(O + 'unwrap_or_else', R + 'unwrap_or_else')
def o_unwrap_or_else(c):
    out = []
    for s, g, x in Alt(c):
        out += [(s, x)] if g else c.apply(c.args[1], [] if c.name.startswith(O) else [x], s)
    return out


def default_of(c, ti):
    t = c.I.prog.types[ti]
    if t['k'] in ('int', 'uint', 'bool', 'char'):
        return ZERO
    if t['k'] == 'adt':
        if t['path'] in (VEC, STR):
            return EMPTY
        if t['path'] == OPT:
            return NONE
        if 'HashMap' in t['path'] or 'BTreeMap' in t['path']:
            return mk('emptymap')
        f = [f for f in c.I.prog.trait_impls.get(('core::default::Default', 'default'), [])
             if c.I.prog.tystr(f.impl_self) == t['s']]
        if f:
            r = c.I.call_fn(c.st, f[0], [])
            if len(r) == 1:
                return r[0][1]
    if t['k'] == 'array' and t['len'] is not None:
        return rep(default_of(c, t['elem']), I(t['len']))
    if t['k'] == 'tuple':
        return tup(*[default_of(c, x) for x in t['args']])
    if t['k'] == 'ref':
        return EMPTY if base_ty(c, ti)['k'] in ('str', 'slice') else mk('default', t['s'])
    return mk('default', t['s'])


@tr('core::default::Default', 'default')
def default(c):
    return default_of(c, c.callee['args'][0])


@fn(O + 'unwrap_or_default', R + 'unwrap_or_default')
def o_unwrap_or_default(c):
    return [(s, x if g else default_of(c, c.callee['args'][0])) for s, g, x in Alt(c)]


@fn(O + 'map_or', R + 'map_or')
def o_map_or(c):
    out = []
    for s, g, x in Alt(c):
        out += c.apply(c.args[2], [x], s) if g else [(s, c.args[1])]
    return out


@fn(O + 'map_or_else', R + 'map_or_else')
def o_map_or_else(c):
    out = []
    for s, g, x in Alt(c):
        out += c.apply(c.args[2], [x], s) if g else c.apply(c.args[1], [] if c.name.startswith(O) else [x], s)
    return out


@fn(O + 'is_some_and', R + 'is_ok_and')
def o_is_and(c):
    out = []
    for s, g, x in Alt(c):
        out += c.apply(c.args[1], [x], s) if g else [(s, FALSE)]
    return out


@fn(O + 'is_none_or')
def o_none_or(c):
    out = []
    for s, g, x in Alt(c):
        out += c.apply(c.args[1], [x], s) if g else [(s, TRUE)]
    return out


@fn(R + 'is_err_and')
def r_is_err_and(c):
    out = []
    for s, g, x in Alt(c):
        out += [(s, FALSE)] if g else c.apply(c.args[1], [x], s)
    return out


@fn(O + 'filter')
def o_filter(c):
    out = []
    for s, g, x in Alt(c):
        if not g:
            out.append((s, NONE))
            continue
        for s2, r in c.apply(c.args[1], [x], s):
            for s3, b in c.I.split_bool(s2, r):
                out.append((s3, some(x) if b else NONE))
    return out


@fn(O + 'ok_or')
def ok_or(c):
    return [(s, ok(x) if g else err(c.args[1])) for s, g, x in Alt(c)]


@fn(O + 'ok_or_else')
def ok_or_else(c):
    out = []
    for s, g, x in Alt(c):
        out += [(s, ok(x))] if g else [(s2, err(r)) for s2, r in c.apply(c.args[1], [], s)]
    return out


@fn(R + 'ok')
def r_ok(c):
    return [(s, some(x) if g else NONE) for s, g, x in Alt(c)]


@fn(R + 'err')
def r_err(c):
    return [(s, NONE if g else some(x)) for s, g, x in Alt(c)]


@fn(O + 'flatten', R + 'flatten')
def o_flatten(c):
    return [(s, x if g else badval(c, x)) for s, g, x in Alt(c)]


@fn(O + 'zip')
def o_zip(c):
    out = []
    for s, g, x in Alt(c):
        if not g:
            out.append((s, NONE))
            continue
        w = c.I.deref(s, c.args[1])
        for s2, k in c.split(w, OPT, s):
            w2 = c.I.resolve_ite(s2, w)
            out.append((s2, some(tup(x, fld(w2, 1, 0))) if k == 1 else NONE))
    return out


@fn(O + 'transpose')
def o_transpose(c):
    out = []
    for s, g, x in Alt(c):
        if not g:
            out.append((s, ok(NONE)))
            continue
        for s2, k in c.split(x, RES, s):
            w = c.I.resolve_ite(s2, x)
            out.append((s2, ok(some(fld(w, 0, 0))) if k == 0 else err(fld(w, 1, 0))))
    return out


@fn(R + 'transpose')
def r_transpose(c):
    out = []
    for s, g, x in Alt(c):
        if not g:
            out.append((s, some(err(x))))
            continue
        for s2, k in c.split(x, OPT, s):
            w = c.I.resolve_ite(s2, x)
            out.append((s2, some(ok(fld(w, 1, 0))) if k == 1 else NONE))
    return out


@fn(O + 'unwrap', R + 'unwrap', O + 'expect', R + 'expect')
def unwrap(c):
    v = c.val(0)
    opt = c.name.startswith(O)
    out = []
    bad = False
    for s, g, x in list(Alt(c)):
        if g:
            out.append((s, x))
        else:
            bad = True
    c.I._neg = bad and not out
    c.oblige('unwrap', not bad, f'{c.name.rsplit("::", 1)[-1]} on {show(v)}')
    return out


@fn(R + 'unwrap_err', R + 'expect_err')
def unwrap_err(c):
    v = c.val(0)
    out = []
    bad = False
    for s, g, x in list(Alt(c)):
        if g:
            bad = True
        else:
            out.append((s, x))
    c.oblige('unwrap', not bad, f'unwrap_err on {show(v)}')
    return out


@fn(O + 'as_mut', R + 'as_mut', O + 'as_deref_mut')
def o_as_mut(c):
    a = c.args[0]
    out = []
    for s, g, x in Alt(c):
        k = 1 if c.name.startswith(O) else 0
        m = mk('mref', a.a[0], a.a[1] + (('f', k, 0),)) if a.op == 'mref' else x
        out.append((s, wrapgood(c, m) if g else badval(c, x)))
    return out


@fn(O + 'take')
def o_take(c):
    v = c.val(0)
    c.store(0, NONE)
    return v


@fn(O + 'replace', 'core::mem::replace')
def o_replace(c):
    v = c.val(0)
    if c.name.startswith(O):
        c.store(0, some(c.args[1]))
    else:
        c.store(0, c.args[1])
    return v


@fn(O + 'get_or_insert', O + 'get_or_insert_with', O + 'get_or_insert_default')
def o_goi(c):
    a = c.args[0]
    if a.op != 'mref':
        return None
    out = []
    m = mk('mref', a.a[0], a.a[1] + (('f', 1, 0),))
    for s, k in c.split(c.val(0), OPT):
        if k == 1:
            out.append((s, m))
        elif c.name.endswith('_with'):
            for s2, r in c.I.apply(s, c.args[1], [], c.site, c.chain):
                c.I.store(s2, a.a[0], a.a[1], some(r))
                out.append((s2, m))
        elif c.name.endswith('_default'):
            return None
        else:
            c.I.store(s, a.a[0], a.a[1], some(c.args[1]))
            out.append((s, m))
    return out


@fn(O + 'insert')
def o_insert(c):
    c.store(0, some(c.args[1]))
    a = c.args[0]
    return mk('mref', a.a[0], a.a[1] + (('f', 1, 0),)) if a.op == 'mref' else c.args[1]


@fn('core::mem::take')
def mem_take(c):
    v = c.val(0)
    c.store(0, default_of(c, c.callee['args'][0]))
    return v


@fn('core::mem::swap')
def mem_swap(c):
    a, b = c.val(0), c.val(1)
    c.store(0, b)
    c.store(1, a)
    return UNIT


@fn('core::mem::drop', 'core::mem::forget')
def mem_drop(c):
    return UNIT


@fn('core::bool::<impl bool>::then')
def b_then(c):
    out = []
    for s, b in c.I.split_bool(c.st, c.val(0)):
        out += [(s2, some(r)) for s2, r in c.apply(c.args[1], [], s)] if b else [(s, NONE)]
    return out


@fn('core::bool::<impl bool>::then_some')
def b_then_some(c):
    return [(s, some(c.args[1]) if b else NONE) for s, b in c.I.split_bool(c.st, c.val(0))]


# ------------------------------------------------------------------ comparison
def local_eq(c):
    """user-written PartialEq of a crate type"""
    P = c.I.prog
    if not c.callee['args']:
        return None
    t = P.types[P.strip_refs(c.callee['args'][0])]
    if t['k'] != 'adt':
        return None
    for f in P.trait_impls.get(('core::cmp::PartialEq', 'eq'), []):
        if P.tystr(P.strip_refs(f.impl_self)) == t['s'] and not f.derived:
            return f
    return None


@tr('core::cmp::PartialEq', 'eq')
def p_eq(c):
    f = local_eq(c)
    if f is not None:
        return c.I.call_fn(c.st, f, [c.val(0), c.val(1)])
    return eq(c.val(0), c.val(1))


@tr('core::cmp::PartialEq', 'ne')
def p_ne(c):
    f = local_eq(c)
    if f is not None:
        return [(s, bnot(r)) for s, r in c.I.call_fn(c.st, f, [c.val(0), c.val(1)])]
    return bnot(eq(c.val(0), c.val(1)))


def intarg(c):
    t = base_ty(c, c.callee['args'][0])
    return t['k'] in ('uint', 'int', 'char', 'bool') or t.get('s') == BIGU


def cmpop(f, nm):
    def h(c):
        if intarg(c):
            return c.I.cmp_lift(f, c.val(0), c.val(1))
        return mk('cmpop', nm, c.val(0), c.val(1))
    return h


TRAITS[('core::cmp::PartialOrd', 'lt')] = cmpop(lt, 'lt')
TRAITS[('core::cmp::PartialOrd', 'le')] = cmpop(le, 'le')
TRAITS[('core::cmp::PartialOrd', 'gt')] = cmpop(lambda a, b: lt(b, a), 'gt')
TRAITS[('core::cmp::PartialOrd', 'ge')] = cmpop(lambda a, b: le(b, a), 'ge')
ORD = 'core::cmp::Ordering'


@tr('core::cmp::Ord', 'cmp')
def o_cmp(c):
    if not intarg(c):
        return None
    a, b = c.val(0), c.val(1)
    out = []
    for s, l in c.I.split_bool(c.st, lt(a, b)):
        if l:
            out.append((s, agg(ORD, 0, ())))
            continue
        for s2, e in c.I.split_bool(s, eq(a, b)):
            out.append((s2, agg(ORD, 1 if e else 2, ())))
    return out


@tr('core::cmp::PartialOrd', 'partial_cmp')
def o_pcmp(c):
    r = o_cmp(c)
    return None if r is None else [(s, some(x)) for s, x in r]


@tr('core::cmp::Ord', 'min')
@fn('core::cmp::min')
def o_min(c):
    if not intarg(c):
        return None
    a, b = c.val(0), c.val(1)
    return [(s, a if k else b) for s, k in c.I.split_bool(c.st, le(a, b))]


@tr('core::cmp::Ord', 'max')
@fn('core::cmp::max')
def o_max(c):
    if not intarg(c):
        return None
    a, b = c.val(0), c.val(1)
    return [(s, b if k else a) for s, k in c.I.split_bool(c.st, le(a, b))]


# ------------------------------------------------------------------ sequences
def note_seq(c, v):
    return v


@both(SEQS + ('std::collections::hash::map::HashMap', 'alloc::collections::btree::map::BTreeMap',
              'std::collections::hash::set::HashSet', 'alloc::collections::vec_deque::VecDeque'), 'len')
def s_len(c):
    return length(c.val(0))


@both(SEQS + ('std::collections::hash::map::HashMap', 'alloc::collections::btree::map::BTreeMap',
              'std::collections::hash::set::HashSet', 'alloc::collections::vec_deque::VecDeque'), 'is_empty')
def s_is_empty(c):
    return eq(length(c.val(0)), ZERO)


@tr('core::iter::traits::exact_size::ExactSizeIterator', 'len')
def it_len(c):
    v = c.val(0)
    if v.op == 'it':
        return sub(length(v.a[0]), v.a[1])
    return None


for n in ('new', 'with_capacity'):
    FUNCS[VEC + '::' + n] = lambda c: alloc(c, 0) or EMPTY
    FUNCS[STR + '::' + n] = lambda c: alloc(c, 0) or EMPTY
    for m in ('std::collections::hash::map::HashMap', 'alloc::collections::btree::map::BTreeMap'):
        FUNCS[m + '::' + n] = lambda c: alloc(c, 0) or mk('emptymap')


def held(t):
    """a quantity that memory already in use, or a small constant, bounds"""
    if t.op in ('div', 'shr'):
        return held(t.a[0])
    if t.op == 'lin':
        return all(k < 0 or held(x) for x, k in lin_of(t)[1].items())
    if t.op in ('min', 'bitand'):
        return any(held(x) for x in t.a if isinstance(x, T))
    if t.op == 'max':
        return all(held(x) for x in t.a if isinstance(x, T))
    return t.op in ('len', 'nlen') or atmost(t) <= 1 << 24


def atmost(t):
    """an upper bound that holds whatever the input"""
    if t.op == 'int':
        return t.a[0]
    if t.op == 'unbe':
        return (1 << 8 * t.a[0]) - 1
    if t.op == 'elem':
        return 255
    if t.op == 'shl' and isint(t.a[1]):
        return atmost(t.a[0]) << min(t.a[1].a[0], 64)
    if t.op == 'bitand':
        return min(atmost(x) for x in t.a if isinstance(x, T))
    if t.op == 'rem' and isint(t.a[1]):
        return t.a[1].a[0]
    if t.op in ('div', 'shr'):
        return atmost(t.a[0])
    if t.op == 'mul':
        r = 1
        for x in t.a:
            if isinstance(x, T):
                r *= atmost(x)
        return r
    return 1 << 64


def bounded(F, t):
    if held(t) or F.truth_of(le(t, I(1 << 24))) is True:
        return True
    if t.op in ('div', 'shr'):
        return bounded(F, t.a[0])
    if t.op == 'lin':
        return all(k < 0 or bounded(F, x) for x, k in lin_of(t)[1].items())
    if t.op in ('min', 'bitand'):
        return any(bounded(F, x) for x in t.a if isinstance(x, T))
    ls = set()
    for l in F.le:
        d = lin_of(l)[1]
        if d.get(t, 0) > 0 and all(y > 0 or held(x) for x, y in d.items()):
            return True
        ls |= {x for x, y in d.items() if y < 0 and x.op == 'len'}
    if any(F.prove_le(sub(t, x), 4) for x in ls):
        return True
    if t.op == 'unbe' and t.a[0] == 4 and t.a[1].op == 'slice':
        e = add(add(t.a[1].a[1], I(4)), t)      # the end of the field this is the length of
        return any(F.prove_le(sub(e, x), 4) for x in ls)
    return False


def alloc(c, i):
    """obligation: the size asked for is bounded by a constant or by the length of data already held"""
    if len(c.args) <= i:
        return
    n = c.val(i)
    F = c.st.facts
    ok = all(k < 0 or bounded(F, t) for t, k in lin_of(n)[1].items()) or F.truth_of(le(n, I(1 << 24))) is True
    if isint(n) and n.a[0] > 1 << 28:
        ok = False
    c.oblige('allocation', ok, 'size ' + show(n))


@both((VEC, STR, 'std::collections::hash::map::HashMap'), 'reserve', 'reserve_exact')
def s_reserve(c):
    alloc(c, 1)
    return UNIT


@both((VEC, STR, 'std::collections::hash::map::HashMap'), 'shrink_to_fit')
def s_shrink(c):
    return UNIT


FUNCS[VEC + '::capacity'] = lambda c: mk('capacity', c.val(0))


@fn('alloc::vec::from_elem')
def from_elem(c):
    c.st.event(('alloc', c.val(1), c.site))
    alloc(c, 1)
    return rep(c.args[0], c.val(1))


def push_char(s, ch):
    if isint(ch):
        return cat(s, B(chr(ch.a[0]).encode('utf8', 'surrogatepass')))
    return seq(parts_of(s) + [('s', mk('utf8enc', ch))])


@fn(VEC + '::push')
def v_push(c):
    c.store(0, push(c.val(0), c.args[1]))
    return UNIT


@fn(STR + '::push')
def s_push(c):
    c.store(0, push_char(c.val(0), c.val(1)))
    return UNIT


@fn(VEC + '::extend_from_slice', STR + '::push_str')
def v_extend(c):
    c.store(0, cat(c.val(0), c.val(1)))
    return UNIT


@fn(VEC + '::append')
def v_append(c):
    a, b = c.val(0), c.val(1)
    c.store(0, cat(a, b))
    c.store(1, EMPTY)
    return UNIT


@tr('core::io::write::Write', 'write_all')
def w_all(c):
    t = base_ty(c, c.callee['args'][0])
    if t['k'] == 'adt' and t['path'] == VEC:
        c.store(0, cat(c.val(0), c.val(1)))
        return ok(UNIT)
    return None


@tr('core::iter::traits::collect::Extend', 'extend')
def extend(c):
    t = base_ty(c, c.callee['args'][0])
    a = c.val(1)
    src = as_src(c, c.st, a)
    if src is None:
        return None
    if t['k'] == 'adt' and t['path'] == STR:
        c.store(0, cat(c.val(0), concat_of(src)))
        return UNIT
    if t['k'] == 'adt' and t['path'] == VEC:
        if src.op == 'mapf':
            out = []
            for s, r in drain_mapf(c, c.st, src):
                c.I.store(s, c.args[0].a[0], c.args[0].a[1], cat(c.I.deref(s, c.args[0]), r))
                out.append((s, UNIT))
            return out
        c.store(0, cat(c.val(0), src))
        return UNIT
    if t['k'] == 'adt' and ('HashMap' in t['path'] or 'BTreeMap' in t['path']) and src.op != 'mapf':
        m = c.val(0)
        if a.op != 'it' and src is a:
            src = mk('entries', a)
        if src.op == 'entries':
            c.store(0, src.a[0] if m.op == 'emptymap' else mk('mapext', m, src.a[0]))
        else:
            c.store(0, mk('mapfrom', m, src, elem(src, BV0)))
        return UNIT
    return None


@fn(VEC + '::insert')
def v_insert(c):
    v, i = c.val(0), c.val(1)
    c.oblige('index', c.I.prove(c.st, sub(i, length(v))), f'insert at {show(i)} <= len {show(length(v))}')
    c.store(0, seq([('s', slice_(v, ZERO, i)), ('e', c.args[2]), ('s', slice_(v, i, length(v)))]))
    return UNIT


@fn(VEC + '::remove')
def v_remove(c):
    v, i = c.val(0), c.val(1)
    c.oblige('index', c.I.prove(c.st, add(sub(i, length(v)), ONE)), f'remove at {show(i)}')
    c.store(0, cat(slice_(v, ZERO, i), slice_(v, add(i, ONE), length(v))))
    return elem(v, i)


@fn(VEC + '::pop', STR + '::pop')
def v_pop(c):
    v = c.val(0)
    L = length(v)
    out = []
    for s, e in c.I.split_bool(c.st, eq(L, ZERO)):
        if e:
            out.append((s, NONE))
        else:
            s.facts.assume(le0(sub(ONE, L)), True)
            last = sub(L, ONE)
            c.store(0, slice_(v, ZERO, last), s)
            out.append((s, some(elem(v, last))))
    return out


@both((VEC, STR), 'clear')
def v_clear(c):
    c.store(0, EMPTY)
    return UNIT


@both((VEC, STR), 'truncate')
def v_trunc(c):
    v, n = c.val(0), c.val(1)
    out = []
    for s, b in c.I.split_bool(c.st, le(n, length(v))):
        if b:
            c.store(0, slice_(v, ZERO, n), s)
        out.append((s, UNIT))
    return out


@fn(VEC + '::resize')
def v_resize(c):
    v, n = c.val(0), c.val(1)
    c.st.event(('alloc', n, c.site))
    out = []
    if c.I.prove(c.st, sub(length(v), n)):
        c.store(0, cat(v, rep(c.args[2], sub(n, length(v)))))
        return UNIT
    for s, b in c.I.split_bool(c.st, le(n, length(v))):
        c.store(0, slice_(v, ZERO, n) if b else cat(v, rep(c.args[2], sub(n, length(v)))), s)
        out.append((s, UNIT))
    return out


@both((VEC, STR), 'split_off')
def v_split_off(c):
    v, n = c.val(0), c.val(1)
    c.oblige('index', c.I.prove(c.st, sub(n, length(v))), f'split_off {show(n)} <= {show(length(v))}')
    c.store(0, slice_(v, ZERO, n))
    return slice_(v, n, length(v))


@both((VEC, STR), 'drain')
def v_drain(c):
    v = c.val(0)
    rg = range_of(c, c.val(1), length(v))
    if rg is None:
        return None
    lo, hi = rg
    c.oblige('slice', c.I.prove(c.st, sub(hi, length(v))) and c.I.prove(c.st, sub(lo, hi)), f'drain {show(lo)}..{show(hi)} of len {show(length(v))}')
    if c.name.startswith(STR):
        c.oblige('strindex', boundary(c, v, lo) and boundary(c, v, hi), f'char boundary {show(lo)}..{show(hi)}')
    c.store(0, cat(slice_(v, ZERO, lo), slice_(v, hi, length(v))))
    r = slice_(v, lo, hi)
    return mk('it', mk('chars', r) if c.name.startswith(STR) else r, ZERO)


@both(SEQS, 'reverse')
def s_reverse(c):
    c.store(0, rev_of(c.val(0)))
    return UNIT


def rev_of(v):
    if v.op == 'bytes':
        return B(v.a[0][::-1])
    if v.op == 'rev':
        return v.a[0]
    return mk('rev', v)


@both(SEQS, 'sort', 'sort_unstable')
def s_sort(c):
    c.store(0, mk('sorted', c.val(0)))
    return UNIT


@both(SEQS, 'fill')
def s_fill(c):
    c.store(0, rep(c.args[1], length(c.val(0))))
    return UNIT


@both(SEQS, 'swap')
def s_swap(c):
    v, i, j = c.val(0), c.val(1), c.val(2)
    a, b = elem(v, i), elem(v, j)
    c.store(0, c.I.setelem(c.I.setelem(v, i, b), j, a))
    return UNIT


@both(SEQS, 'copy_from_slice', 'clone_from_slice')
def s_copy(c):
    d, s = c.val(0), c.val(1)
    e = eq(length(d), length(s))
    c.oblige('copy_len', c.st.facts.truth_of(e) is True, f'{show(length(d))} == {show(length(s))}')
    c.store(0, s)
    return UNIT


@both(SEQS, 'concat')
def s_concat(c):
    return concat_of(c.val(0))


def concat_of(v):
    """flatten a sequence of sequences"""
    if v.op == 'chars':
        return v.a[0]
    ps = parts_of(v)
    out = []
    for k, x in ps:
        if k == 'e':
            out.append(('s', x))
        elif x.op == 'cmap' and x.a[1].op == 'seq' and all(q[0] == 'e' for q in x.a[1].a):
            out.append(('s', cmap(x.a[0], seq([('s', q[1]) for q in x.a[1].a]))))
        elif x is EMPTY:
            pass
        else:
            out.append(('s', cmap(x, elem(x, BV0))))
    return seq(out)


@both(SEQS, 'join')
def s_join(c):
    v = c.val(0)
    ps = parts_of(v)
    if v is EMPTY:
        return EMPTY
    if v.op == 'seq' and all(k == 'e' for k, _ in ps):
        out = []
        for n, (_, x) in enumerate(ps):
            if n:
                out.append(c.val(1))
            out.append(x)
        return cat(*out)
    return mk('join', c.val(0), c.val(1))


@both(SEQS, 'repeat')
def s_repeat(c):
    return mk('repeat', c.val(0), c.val(1))


@both(SEQS, 'first')
def s_first(c):
    v = c.val(0)
    out = []
    for s, e in c.I.split_bool(c.st, eq(length(v), ZERO)):
        out.append((s, NONE if e else some(elem(v, ZERO))))
    return out


@both(SEQS, 'last')
def s_last(c):
    v = c.val(0)
    out = []
    for s, e in c.I.split_bool(c.st, eq(length(v), ZERO)):
        out.append((s, NONE if e else some(elem(v, sub(length(v), ONE)))))
    return out


@both(SEQS, 'split_first')
def s_split_first(c):
    v = c.val(0)
    L = length(v)
    return [(s, NONE if e else some(tup(elem(v, ZERO), slice_(v, ONE, L)))) for s, e in c.I.split_bool(c.st, eq(L, ZERO))]


@both(SEQS, 'split_last')
def s_split_last(c):
    v = c.val(0)
    L = length(v)
    return [(s, NONE if e else some(tup(elem(v, sub(L, ONE)), slice_(v, ZERO, sub(L, ONE)))))
            for s, e in c.I.split_bool(c.st, eq(L, ZERO))]


def carray(c, i=-1):
    """const-generic length argument N is not in the dump's type args: derive it from the result type"""
    return None


@both(SEQS, 'split_at')
def s_split_at(c):
    v, n = c.val(0), c.val(1)
    okk = c.I.prove(c.st, sub(n, length(v)))
    c.oblige('slice', okk, f'split_at {show(n)} <= len {show(length(v))}')
    if c.name.startswith(ST):
        c.oblige('strindex', boundary(c, v, n), f'char boundary at {show(n)}')
    if not c.st.facts.assume(le(n, length(v)), True):
        return []
    return tup(slice_(v, ZERO, n), slice_(v, n, length(v)))


@both(SEQS, 'split_at_checked')
def s_split_at_checked(c):
    v, n = c.val(0), c.val(1)
    return [(s, some(tup(slice_(v, ZERO, n), slice_(v, n, length(v)))) if b else NONE)
            for s, b in c.I.split_bool(c.st, le(n, length(v)))]


RNG = 'core::ops::range::'


def range_of(c, r, L):
    """(lo, hi) of a range value over a sequence of length L"""
    if r.op == 'agg':
        n = r.a[0].split('::')[-1]
        a = [c.I.deref(c.st, x) for x in r.a[2:]]
        if n == 'Range':
            return a[0], a[1]
        if n == 'RangeFrom':
            return a[0], L
        if n == 'RangeTo':
            return ZERO, a[0]
        if n == 'RangeFull':
            return ZERO, L
        if n == 'RangeInclusive':
            return a[0], add(a[1], ONE)
        if n == 'RangeToInclusive':
            return ZERO, add(a[0], ONE)
    return None


@fn('core::ops::range::RangeInclusive::new', 'core::range::RangeInclusive::new')
def range_incl(c):
    return agg(RNG + 'RangeInclusive', 0, (c.args[0], c.args[1], FALSE))


def boundary(c, v, p, depth=0):
    """is byte offset p of str v certainly a char boundary?"""
    f = c.st.facts
    if p is ZERO or p is length(v):
        return True
    if f.truth_of(eq(p, length(v))) is True:
        return True
    if p.op == 'find' and p.a[0] is v:
        return True
    if p.op == 'midx' and p.a[0].a[0] is v:
        return True
    if p.op == 'lv' and depth < 2:
        info = c.I.loops.get(p.a[0])
        if info and p in info['init']:
            steps = [m.get(p, p) for m in info['steps']]
            return all(x is p or boundary(c, v, x, depth + 1) for x in steps + [info['init'][p]])
    if p.op == 'lin':
        # find + len(const pattern)
        k, d = lin_of(p)
        for t, m in d.items():
            if m == 1 and t.op == 'find' and t.a[0] is v and sub(p, t) is length_pat(t.a[1]):
                return True
            if m == 1 and t.op == 'midx' and t.a[0].a[0] is v and sub(p, t) is match_len(t.a[0]):
                return True
    for pre in f.truth:
        if pre.op == 'starts' and f.truth[pre] and pre.a[0] is v and length_pat(pre.a[1]) is p:
            return True
    if v.op == 'bytes' and isint(p):
        try:
            v.a[0][:p.a[0]].decode('utf8')
            return True
        except Exception:
            return False
    return False


def length_pat(p):
    if p.op == 'int':
        return I(len(chr(p.a[0]).encode('utf8', 'surrogatepass')))
    return length(p)


@tr('core::ops::index::Index', 'index')
def index(c):
    v = c.val(0)
    ix = c.val(1)
    t = base_ty(c, c.callee['args'][0])
    if t['k'] == 'adt' and ('HashMap' in t['path'] or 'BTreeMap' in t['path']):
        c.oblige('index', False, f'map index {show(ix)}')
        return mk('call', 'mapidx', v, ix)
    L = length(v)
    rg = range_of(c, ix, L)
    if rg is None:
        if ix.op == 'agg':
            return None
        if ix.op not in ('int', 'lin'):
            c.st.facts.unsigned(ix)
        goal = add(sub(ix, L), ONE)
        c.oblige('index', c.I.prove(c.st, goal), f'index {show(ix)} < len {show(L)}')
        if not c.st.facts.assume(le0(goal), True):
            return []
        return elem(v, ix)
    lo, hi = rg
    okk = c.I.prove(c.st, sub(hi, L)) and c.I.prove(c.st, sub(lo, hi))
    c.oblige('slice', okk, f'{show(lo)}..{show(hi)} of len {show(L)}')
    if t['k'] == 'str' or (t['k'] == 'adt' and t['path'] == STR):
        c.oblige('strindex', boundary(c, v, lo) and boundary(c, v, hi), f'char boundary {show(lo)}..{show(hi)}')
    if not c.st.facts.assume(le(hi, L), True) or not c.st.facts.assume(le(lo, hi), True):
        return []
    HINT[0] = c.st.facts.prove_le
    return slice_(v, lo, hi)


@tr('core::ops::index::IndexMut', 'index_mut')
def index_mut(c):
    a = c.args[0]
    v = c.val(0)
    ix = c.val(1)
    L = length(v)
    if a.op != 'mref':
        return None
    rg = range_of(c, ix, L)
    if rg is None:
        goal = add(sub(ix, L), ONE)
        c.oblige('index', c.I.prove(c.st, goal), f'index {show(ix)} < len {show(L)}')
        if not c.st.facts.assume(le0(goal), True):
            return []
        return mk('mref', a.a[0], a.a[1] + (('i', ix),))
    lo, hi = rg
    okk = c.I.prove(c.st, sub(hi, L)) and c.I.prove(c.st, sub(lo, hi))
    c.oblige('slice', okk, f'{show(lo)}..{show(hi)} of len {show(L)}')
    if not c.st.facts.assume(le(hi, L), True) or not c.st.facts.assume(le(lo, hi), True):
        return []
    if lo is ZERO and hi is L:
        return a
    return mk('mref', a.a[0], a.a[1] + (('sl', lo, hi),))


@both(SEQS, 'get')
def s_get(c):
    v, ix = c.val(0), c.val(1)
    L = length(v)
    rg = range_of(c, ix, L)
    if rg is None:
        if ix.op == 'agg':
            return None
        if ix.op not in ('int', 'lin'):
            c.st.facts.unsigned(ix)
        return [(s, some(elem(v, ix)) if b else NONE) for s, b in c.I.split_bool(c.st, lt(ix, L))]
    lo, hi = rg
    cond = band(le(hi, L), le(lo, hi))
    if hi is L:
        cond = le(lo, L)
    if lo is ZERO:
        cond = le(hi, L)
    if c.name.startswith(ST):
        cond = band(cond, mk('boundary', v, lo, hi))
    return [(s, some(slice_(v, lo, hi)) if b else NONE) for s, b in c.I.split_bool(c.st, cond)]


@both(SEQS, 'get_mut')
def s_get_mut(c):
    v, ix, a = c.val(0), c.val(1), c.args[0]
    L = length(v)
    rg = range_of(c, ix, L)
    if a.op != 'mref':
        return None
    if rg is None:
        return [(s, some(mk('mref', a.a[0], a.a[1] + (('i', ix),))) if b else NONE)
                for s, b in c.I.split_bool(c.st, lt(ix, L))]
    lo, hi = rg
    return [(s, some(mk('mref', a.a[0], a.a[1] + (('sl', lo, hi),))) if b else NONE)
            for s, b in c.I.split_bool(c.st, band(le(hi, L), le(lo, hi)))]


@both((SL,), 'starts_with')
def s_starts(c):
    v, p = c.val(0), c.val(1)
    return band(le(length(p), length(v)), eq(slice_(v, ZERO, length(p)), p))


@both((SL,), 'ends_with')
def s_ends(c):
    v, p = c.val(0), c.val(1)
    return band(le(length(p), length(v)), eq(slice_(v, sub(length(v), length(p)), length(v)), p))


def any_of(src, pred):
    """exists element of src with pred (mentions BV0)"""
    L = length(src)
    if isint(L) and L.a[0] <= 16:
        r = FALSE
        for i in range(L.a[0]):
            r = bor(r, subst(pred, {BV0: I(i)}))
        return r
    return mk('any', src, pred)


@both((SL, VEC), 'contains')
def s_contains(c):
    v, x = c.val(0), c.val(1)
    return any_of(v, eq(elem(v, BV0), x))


# ------------------------------------------------------------------ strings
@both((ST,), 'contains')
def str_contains(c):
    return mk('scontains', c.val(0), c.val(1))


@both((ST,), 'starts_with')
def str_starts(c):
    return mk('starts', c.val(0), c.val(1))


@both((ST,), 'ends_with')
def str_ends(c):
    return mk('ends', c.val(0), c.val(1))


@both((ST,), 'trim', 'trim_start', 'trim_end', 'trim_left', 'trim_right', 'trim_ascii')
def str_trim(c):
    v, m = c.val(0), c.name.rsplit('::', 1)[-1]
    if v.op == 'bytes':
        ws = b' \t\n\r\x0b\x0c'
        if v.a[0].isascii():
            return B(v.a[0].lstrip(ws) if 'start' in m or 'left' in m else v.a[0].rstrip(ws) if 'end' in m or 'right' in m else v.a[0].strip(ws))
    return mk('trim', c.val(0), c.name.rsplit('::', 1)[-1])


@both((ST,), 'trim_matches', 'trim_start_matches', 'trim_end_matches')
def str_trimm(c):
    v, m, p = c.val(0), c.name.rsplit('::', 1)[-1], c.val(1)
    if v.op == 'bytes' and (p.op == 'bytes' and p.a[0] or isint(p)):
        x, q = v.a[0], p.a[0] if p.op == 'bytes' else chr(p.a[0]).encode()
        while m != 'trim_start_matches' and x.endswith(q):
            x = x[:-len(q)]
        while m != 'trim_end_matches' and x.startswith(q):
            x = x[len(q):]
        return B(x)
    return mk('trim', c.val(0), c.name.rsplit('::', 1)[-1], c.val(1))


@both((ST, AST), 'to_lowercase', 'to_uppercase', 'to_ascii_lowercase', 'to_ascii_uppercase', 'replace', 'escape_debug',
      'escape_default')
def str_case(c):
    return mk('strfn', c.name.rsplit('::', 1)[-1], *[c.I.deref(c.st, a) for a in c.args])


@both((ST,), 'eq_ignore_ascii_case')
def str_eqi(c):
    return mk('eqi', c.val(0), c.val(1))


@both((ST,), 'is_ascii')
def str_isascii(c):
    v = c.val(0)
    if v.op == 'bytes':
        return TRUE if v.a[0].isascii() else FALSE
    return mk('call', 'is_ascii', v)


@both((ST,), 'is_char_boundary')
def str_icb(c):
    return mk('boundary1', c.val(0), c.val(1))


@both((ST,), 'find')
def str_find(c):
    f = mk('find', c.val(0), c.val(1))
    c.st.facts.unsigned(f)
    return [(s, some(f) if b else NONE) for s, b in c.I.split_bool(c.st, mk('scontains', c.val(0), c.val(1)))]


@both((ST,), 'rfind')
def str_rfind(c):
    f = mk('rfind', c.val(0), c.val(1))
    c.st.facts.unsigned(f)
    return [(s, some(f) if b else NONE) for s, b in c.I.split_bool(c.st, mk('scontains', c.val(0), c.val(1)))]


@both((ST,), 'split_once')
def str_split_once(c):
    v, p = c.val(0), c.val(1)
    f = mk('find', v, p)
    c.st.facts.unsigned(f)
    return [(s, some(tup(slice_(v, ZERO, f), slice_(v, add(f, length_pat(p)), length(v)))) if b else NONE)
            for s, b in c.I.split_bool(c.st, mk('scontains', v, p))]


@both((ST,), 'strip_prefix')
def str_strip_prefix(c):
    v, p = c.val(0), c.val(1)
    return [(s, some(slice_(v, length_pat(p), length(v))) if b else NONE)
            for s, b in c.I.split_bool(c.st, mk('starts', v, p))]


@both((ST,), 'strip_suffix')
def str_strip_suffix(c):
    v, p = c.val(0), c.val(1)
    return [(s, some(slice_(v, ZERO, sub(length(v), length_pat(p)))) if b else NONE)
            for s, b in c.I.split_bool(c.st, mk('ends', v, p))]


def it0(src):
    return mk('it', src, ZERO)


FUNCS[ST + '::chars'] = lambda c: it0(mk('chars', c.val(0)))
FUNCS[ST + '::char_indices'] = lambda c: it0(mk('charidx', c.val(0)))
FUNCS[ST + '::bytes'] = lambda c: it0(c.val(0))
FUNCS[ST + '::lines'] = lambda c: it0(mk('lines', c.val(0)))
FUNCS[ST + '::split_whitespace'] = lambda c: it0(mk('splitws', c.val(0)))
FUNCS[ST + '::split_ascii_whitespace'] = lambda c: it0(mk('splitws', c.val(0), 'ascii'))


def s_match_indices(c):
    t = base_ty(c, c.argtys[1]) if c.argtys and c.argtys[1] is not None else {'k': '?'}
    return it0(mk('matchidx', c.val(0), c.val(1), 'str' if t['k'] == 'str' or t.get('s') == 'str' else 'set'))


FUNCS[ST + '::match_indices'] = s_match_indices


def match_len(src):
    """byte length of every match, when the pattern fixes it"""
    pat, kind = src.a[1], src.a[2]
    if pat.op == 'bytes':
        if kind == 'str':
            return length(pat)
        if all(x < 128 for x in pat.a[0]):
            return ONE
    if isint(pat) and pat.a[0] < 128:
        return ONE
    return None


def midx(src, p):
    """offset of the p-th match; the text length when there is none"""
    return mk('midx', src, p)



@both((ST,), 'split', 'split_terminator', 'split_inclusive', 'rsplit')
def str_split(c):
    t = mk('split', c.val(0), c.val(1)) if c.name.endswith('::split') else mk('split', c.val(0), c.val(1), c.name.rsplit('::', 1)[-1])
    if c.name.endswith('::split'):
        c.st.facts.le = c.st.facts.le + (sub(ONE, length(t)),)
    return it0(t)


@both((ST,), 'splitn', 'rsplitn')
def str_splitn(c):
    return it0(mk('split', c.val(0), c.val(2), c.name.rsplit('::', 1)[-1], c.val(1)))


@both((ST,), 'parse')
def str_parse(c):
    t = c.I.prog.types[c.callee['args'][-1]] if c.callee['args'] else {'s': '?', 'k': 'other'}
    for f in c.I.prog.trait_impls.get(('core::str::traits::FromStr', 'from_str'), []):
        if c.I.prog.tystr(f.impl_self) == t['s']:
            return c.I.call_fn(c.st, f, [c.val(0)])
    return mk('call', 'parse', mk('tyname', t['s']), c.val(0))


@fn(STR + '::from_utf8', 'core::str::converts::from_utf8', 'core::str::<impl str>::from_utf8')
def from_utf8(c):
    v = c.val(0)
    if v.op == 'bytes':
        try:
            v.a[0].decode('utf8')
            return ok(v)
        except Exception:
            pass
    return [(s, ok(v) if b else err(mk('call', 'from_utf8_err', v))) for s, b in c.I.split_bool(c.st, mk('utf8', v))]


# ------------------------------------------------------------------ iterators
def as_src(c, st, a):
    """the (remaining) element sequence behind an iterator / iterable value"""
    a = c.I.deref(st, a)
    if a.op == 'it':
        src, p = a.a
        if p is ZERO:
            return src
        return skip_of(c, st, src, p)
    if a.op == 'agg':
        n = a.a[0].split('::')[-1]
        if n == 'Range':
            return mk('range', a.a[2], a.a[3])
        if n == 'RangeInclusive':
            return mk('range', a.a[2], add(a.a[3], ONE))
        if n == 'Option':
            return seq([('e', a.a[2])]) if a.a[1] == 1 else EMPTY
        return None
    if a.op in ('emptymap', 'mapins', 'mapfrom'):
        return mk('entries', a)
    return a


def skip_of(c, st, src, p):
    if p is ZERO:
        return src
    if src.op in ('bytes', 'seq', 'slice', 'rdv', 'param', 'fld', 'be') or src in BYTESY:
        if c.I.prove(st, sub(p, length(src))):
            return slice_(src, p, length(src))
    return mk('skip', src, p)


@tr('core::iter::traits::collect::IntoIterator', 'into_iter')
def into_iter(c):
    a = c.args[0]
    v = c.val(0)
    if v.op == 'it':
        return v
    t = base_ty(c, c.callee['args'][0])
    if t['k'] == 'adt' and ('HashMap' in t['path'] or 'BTreeMap' in t['path']):
        return it0(mk('entries', v))
    if t['k'] == 'adt' and t['path'] == OPT:
        return [(s, it0(seq([('e', x)]) if g else EMPTY)) for s, g, x in Alt(c, opt=True)]
    if t['k'] == 'adt' and 'ops::range' in t['path'] or (t['k'] == 'adt' and t['path'].startswith('core::range')):
        s = as_src(c, c.st, v)
        return it0(s) if s is not None else None
    if a.op == 'mref' and tyk(c, c.callee['args'][0])['k'] == 'ref' and tyk(c, c.callee['args'][0])['mut'] and seqty(t):
        return it0(mk('mutelems', mk('mcell', a.a[0], a.a[1]), v))
    if t['k'] == 'adt' and t['path'] in c.I.prog.adts and not seqty(t) and v.op == 'agg':
        return v
    if t['k'] == 'adt' and not seqty(t):
        # an iterator type that is not modelled: identity
        return v
    return it0(v)


@both(SEQS, 'iter', 'into_iter')
def s_iter(c):
    return it0(c.val(0))


@both(SEQS, 'iter_mut')
def s_iter_mut(c):
    a = c.args[0]
    if a.op == 'mref':
        return it0(mk('mutelems', mk('mcell', a.a[0], a.a[1]), c.val(0)))
    return None


FUNCS[O + 'iter'] = lambda c: [(s, it0(seq([('e', x)]) if g else EMPTY)) for s, g, x in Alt(c)]
FUNCS[O + 'into_iter'] = FUNCS[O + 'iter']


@both(SEQS, 'chunks')
def s_chunks(c):
    n = c.val(1)
    c.oblige('chunks', isint(n) and n.a[0] > 0, f'chunk size {show(n)}')
    return it0(mk('chunks', c.val(0), n))


@both(SEQS, 'chunks_exact')
def s_chunks_exact(c):
    n = c.val(1)
    c.oblige('chunks', isint(n) and n.a[0] > 0, f'chunk size {show(n)}')
    return it0(mk('chunksx', c.val(0), n))


@both(SEQS, 'windows')
def s_windows(c):
    return it0(mk('windows', c.val(0), c.val(1)))


for m_ in ('std::collections::hash::map::HashMap', 'alloc::collections::btree::map::BTreeMap'):
    FUNCS[m_ + '::iter'] = lambda c: it0(mk('entries', c.val(0)))
    FUNCS[m_ + '::keys'] = lambda c: it0(mk('keys', c.val(0)))
    FUNCS[m_ + '::values'] = lambda c: it0(mk('values', c.val(0)))
    FUNCS[m_ + '::into_keys'] = lambda c: it0(mk('keys', c.val(0)))
    FUNCS[m_ + '::into_values'] = lambda c: it0(mk('values', c.val(0)))


def next_item(c, st, cell, path):
    """advance the iterator stored at a cell: [(st, item|None)]; None result = not modelled"""
    v = c.I.load(st, cell, path)
    if v.op == 'agg' and v.a[0].split('::')[-1] == 'Range':
        lo, hi = v.a[2], v.a[3]
        out = []
        for s, b in c.I.split_bool(st, lt(lo, hi)):
            if b:
                c.I.store(s, cell, path, agg(v.a[0], 0, (add(lo, ONE), hi)))
                out.append((s, lo))
            else:
                out.append((s, None))
        return out
    if v.op != 'it':
        return None
    src, p = v.a
    out = []
    for s, b in c.I.split_bool(st, lt(p, length(src))):
        if not b:
            out.append((s, None))
            continue
        c.I.store(s, cell, path, mk('it', src, add(p, ONE)))
        out += item_at(c, s, src, p)
    return out


def item_at(c, s, src, p):
    if src.op == 'mapf':
        out = []
        for s2, x in item_at(c, s, src.a[0], p):
            if x.op == 'agg' and x.a[0] == 'tuple' and False:
                pass
            out += c.I.apply(s2, src.a[1], [x], c.site, c.chain)
        return out
    if src.op == 'inspect':
        return item_at(c, s, src.a[0], p)
    if src.op == 'enum':
        return [(s2, tup(p, x)) for s2, x in item_at(c, s, src.a[0], p)]
    if src.op == 'matchidx':
        i, n = midx(src, p), match_len(src)
        if n is not None:
            e = add(i, n)
            v = src.a[0]
            s.facts.le = s.facts.le + (sub(e, length(v)), sub(e, midx(src, add(p, ONE))), sub(midx(src, add(p, ONE)), length(v)))
            return [(s, tup(i, slice_(v, i, e)))]
    if src.op == 'zip':
        out = []
        for s2, x in item_at(c, s, src.a[0], p):
            out += [(s3, tup(x, y)) for s3, y in item_at(c, s2, src.a[1], p)]
        return out
    if src.op == 'take':
        return item_at(c, s, src.a[0], p)
    if src.op == 'skip':
        return item_at(c, s, src.a[0], add(src.a[1], p))
    if src.op == 'mutelems':
        m = src.a[0]
        return [(s, mk('mref', m.a[0], m.a[1] + (('i', p),)))]
    if src.op in ('chunks', 'chunksx'):
        n = src.a[1]
        lo = mul(p, n)
        hi = mul(add(p, ONE), n)
        L = length(src.a[0])
        if src.op == 'chunksx':
            return [(s, slice_(src.a[0], lo, hi))]
        return [(s2, slice_(src.a[0], lo, hi if b else L)) for s2, b in c.I.split_bool(s, le(hi, L))]
    if src.op == 'windows':
        return [(s, slice_(src.a[0], p, add(p, src.a[1])))]
    if src.op == 'rev' and has_f(src.a[0]):
        return item_at(c, s, src.a[0], sub(sub(length(src.a[0]), ONE), p))
    e = elem(src, p)
    if src.op == 'range' or src.op == 'enum':
        pass
    if is_bytes(src):
        s.facts.unsigned(e, 8)
    return [(s, e)]


def has_f(src):
    return any(x.op == 'mapf' for x in subterms(src))


@tr(ITER, 'next')
def it_next(c):
    a = c.args[0]
    if a.op != 'mref':
        return None
    r = next_item(c, c.st, a.a[0], a.a[1])
    if r is None:
        return None
    return [(s, NONE if x is None else some(x)) for s, x in r]


@fn('core::iter::adapters::peekable::Peekable::peek')
def it_peek(c):
    v = c.val(0)
    if v.op != 'it':
        return None
    out = []
    for s, b in c.I.split_bool(c.st, lt(v.a[1], length(v.a[0]))):
        out += [(s2, some(x)) for s2, x in item_at(c, s, *v.a)] if b else [(s, NONE)]
    return out


@tr('core::iter::traits::double_ended::DoubleEndedIterator', 'next_back')
def it_next_back(c):
    return None


@tr(ITER, 'nth')
def it_nth(c):
    a, v, n = c.args[0], c.val(0), c.val(1)
    if v.op != 'it' or a.op != 'mref':
        return None
    q = add(v.a[1], n)
    out = []
    for s, b in c.I.split_bool(c.st, lt(q, length(v.a[0]))):
        if b:
            c.I.store(s, a.a[0], a.a[1], mk('it', v.a[0], add(q, ONE)))
            out += [(s2, some(x)) for s2, x in item_at(c, s, v.a[0], q)]
        else:
            c.I.store(s, a.a[0], a.a[1], mk('it', v.a[0], length(v.a[0])))
            out.append((s, NONE))
    return out


@tr(ITER, 'by_ref')
def it_by_ref(c):
    return c.args[0]


@tr(ITER, 'cloned', 'copied', 'peekable', 'fuse', 'inspect')
def it_same(c):
    v = c.val(0)
    if v.op == 'it':
        return v
    s = as_src(c, c.st, v)
    return it0(s) if s is not None else None


def src0(c):
    v = c.val(0)
    if v.op == 'call' or v.op == 'unk':
        return None
    return as_src(c, c.st, v)


def pure_body(c, f, src, extra=None):
    """the closure applied to the generic element of src, if it has one effect-free outcome"""
    I_ = c.I
    if I_.bvdepth or has_f(src) or src.op == 'mutelems':
        return None
    if BV0 in subterms(I_.deref(c.st, f)):
        return None
    if BV0 in subterms(src):
        # fine if its elements do not mention the bound variable once the position is known
        try:
            if any(BV0 in subterms(I_.deref(s1, x)) for s1, x in item_at(c, c.st.copy(), src, mk('bv', 99))) or BV0 in subterms(length(src)):
                return None
        except Exception:
            return None
    I_.bvdepth += 1
    try:
        s = c.st.copy()
        s.facts.unsigned(BV0)
        s.facts.le = s.facts.le + (add(sub(BV0, length(src)), ONE),)
        ev0 = s.ev
        nob = len(I_.obligations)
        its = item_at(c, s, src, BV0)
        outs = []
        base = s.copy()
        for s1, x in its:
            outs += I_.apply(s1, f, [x], c.site, c.chain)
    finally:
        I_.bvdepth -= 1
    if not outs or any(s2.ev is not ev0 for s2, _ in outs):
        del I_.obligations[nob:]
        return None
    for s2, r in outs:
        for k, v in c.st.cells.items():
            if s2.cells.get(k) is not v:
                del I_.obligations[nob:]
                return None
    vals = [(I_.delta(base, s2), I_.deref(s2, r)) for s2, r in outs]
    r = I_.merge(vals)
    if r is None:
        del I_.obligations[nob:]
    return r


@tr(ITER, 'map')
def it_map(c):
    src = src0(c)
    if src is None:
        return None
    b = pure_body(c, c.args[1], src)
    if b is not None:
        return it0(cmap(src, seq1(b)))
    return it0(mk('mapf', src, c.val(1)))


def seq1(b):
    """one-element sequence, never re-interpreted as raw bytes"""
    return seq([('e', b)])


@tr(ITER, 'enumerate')
def it_enum(c):
    src = src0(c)
    return None if src is None else it0(mk('enum', src))


@tr(ITER, 'rev')
def it_rev(c):
    src = src0(c)
    return None if src is None else it0(rev_of(src))


@tr(ITER, 'zip')
def it_zip(c):
    src = src0(c)
    b = as_src(c, c.st, c.args[1])
    if src is None or b is None:
        return None
    t = mk('zip', src, b)
    c.st.facts.le = c.st.facts.le + (sub(length(t), length(src)), sub(length(t), length(b)))
    return it0(t)


@tr(ITER, 'take')
def it_take(c):
    src = src0(c)
    n = c.val(1)
    if src is None:
        return None
    if c.I.prove(c.st, sub(n, length(src))):
        if not has_f(src) and src.op in ('bytes', 'seq', 'slice', 'param', 'fld', 'rdv', 'rep'):
            return it0(slice_(src, ZERO, n))
    out = []
    for s, b in c.I.split_bool(c.st, le(n, length(src))):
        if not b:
            out.append((s, it0(src)))
        else:
            t = mk('take', src, n)
            t._len = n
            out.append((s, it0(t)))
    return out


@tr(ITER, 'skip')
def it_skip(c):
    src = src0(c)
    n = c.val(1)
    if src is None:
        return None
    out = []
    for s, b in c.I.split_bool(c.st, le(n, length(src))):
        if not b:
            out.append((s, it0(EMPTY)))
        else:
            t = skip_of(c, s, src, n)
            if t.op == 'skip':
                t._len = sub(length(src), n)
            out.append((s, it0(t)))
    return out


@tr(ITER, 'step_by')
def it_step_by(c):
    src = src0(c)
    return None if src is None else it0(mk('stepby', src, c.val(1)))


@tr(ITER, 'chain')
def it_chain(c):
    src = src0(c)
    b = as_src(c, c.st, c.args[1])
    if src is None or b is None or has_f(src) or has_f(b):
        return None
    return it0(cat(src, b))


@fn('core::iter::sources::once::once')
def it_once(c):
    return it0(seq([('e', c.args[0])]))


@fn('core::iter::sources::empty::empty')
def it_empty(c):
    return it0(EMPTY)


@fn('core::iter::sources::repeat_n::repeat_n')
def it_repn(c):
    return it0(rep(c.args[0], c.val(1)))


@fn('core::iter::sources::repeat::repeat')
def it_repeat(c):
    return it0(mk('rep', c.args[0], mk('inf')))


@tr(ITER, 'filter', 'filter_map', 'flat_map', 'flatten', 'take_while', 'skip_while', 'map_while', 'scan')
def it_filter(c):
    src = src0(c)
    if src is None:
        return None
    m = c.callee['method']
    if m == 'flatten':
        return it0(concat_of(src))
    b = pure_body(c, c.args[1], src)
    if b is None:
        b = c.val(1)
    elif m in ('take_while', 'skip_while'):
        L = length(src)
        out = []
        for s, p in first_pos(c, src, bnot(b)):
            p = L if p is None else p
            HINT[0] = s.facts.prove_le
            out.append((s, it0(slice_(src, ZERO, p) if m == 'take_while' else slice_(src, p, L))))
        return out
    if m == 'flat_map' and b.op != 'agg':
        x = b.a[0] if b.op == 'it' and b.a[1] is ZERO else b
        return it0(cmap(src, x))
    return it0(mk(m.replace('_', ''), src, b))


@tr(ITER, 'count')
def it_count(c):
    v = c.val(0)
    if v.op == 'it':
        return sub(length(v.a[0]), v.a[1])
    return None


@tr(ITER, 'last')
def it_last(c):
    src = src0(c)
    if src is None:
        return None
    L = length(src)
    out = []
    for s, e in c.I.split_bool(c.st, eq(L, ZERO)):
        out += [(s, NONE)] if e else [(s2, some(x)) for s2, x in item_at(c, s, src, sub(L, ONE))]
    return out


@tr(ITER, 'any')
def it_any(c):
    return any_all(c, True)


@tr(ITER, 'all')
def it_all(c):
    return any_all(c, False)


def any_all(c, isany):
    src = src0(c)
    if src is None:
        return None
    b = pure_body(c, c.args[1], src)
    if b is None:
        L = length(src)
        if isint(L) and L.a[0] <= 8 and not has_f(src):
            cur, out = [c.st], []
            for i in range(L.a[0]):
                nxt = []
                for s in cur:
                    for s1, x in item_at(c, s, src, I(i)):
                        for s2, r in c.I.apply(s1, c.args[1], [x], c.site, c.chain):
                            for s3, k in c.I.split_bool(s2, c.I.deref(s2, r)):
                                if k == isany:
                                    out.append((s3, TRUE if isany else FALSE))
                                else:
                                    nxt.append(s3)
                cur = nxt
            return out + [(s, FALSE if isany else TRUE) for s in cur]
        return mk('call', 'any' if isany else 'all', src, c.val(1))
    return any_of(src, b) if isany else bnot(any_of(src, bnot(b)))


def first_pos(c, src, b):
    """states with the position of the first element satisfying b (None: there is none)"""
    out = []
    L = length(src)
    if isint(L) and L.a[0] <= 64:
        cur = c.st
        for i in range(L.a[0]):
            nxt = None
            for s, e in c.I.split_bool(cur, subst(b, {BV0: I(i)})):
                if e:
                    out.append((s, I(i)))
                else:
                    nxt = s
            if nxt is None:
                return out
            cur = nxt
        return out + [(cur, None)]
    for s, e in c.I.split_bool(c.st, any_of(src, b)):
        if not e:
            out.append((s, None))
            continue
        if b is TRUE:
            out.append((s, ZERO))
            continue
        p = mk('firstpos', src, b)
        s.facts.unsigned(p)
        if s.facts.assume(le(add(p, ONE), length(src)), True) and s.facts.assume(subst(b, {BV0: p}), True):
            for i in range(4):
                if s.facts.truth_of(subst(b, {BV0: I(i)})) is not False:
                    break
                s.facts.assume(le(I(i + 1), p), True)
            out.append((s, p))
    return out


@tr(ITER, 'position', 'find')
def it_position(c):
    v = c.val(0)
    src = src0(c)
    if src is None:
        return None
    b = pure_body(c, c.args[1], src)
    if b is None or has_f(src):
        return mk('call', 'iter_' + c.callee['method'], src, c.val(1) if b is None else b)
    out = []
    for s, p in first_pos(c, src, b):
        if p is None:
            c.store(0, it0(EMPTY), s)
            out.append((s, NONE))
        else:
            c.store(0, it0(slice_(src, add(p, ONE), length(src))), s)
            out.append((s, some(p if c.callee['method'] == 'position' else elem(src, p))))
    return out


@tr(ITER, 'rposition')
def it_rposition(c):
    """the last position with the property: within the source, and it has the property there"""
    src = src0(c)
    if src is None:
        return None
    b = pure_body(c, c.args[1], src)
    if b is None or has_f(src):
        return mk('call', 'iter_rposition', src, c.val(1) if b is None else b)
    out = []
    for s, e in c.I.split_bool(c.st, any_of(src, b)):
        if not e:
            out.append((s, NONE))
            continue
        p = sub(length(src), ONE) if b is TRUE else mk('lastpos', src, b)
        s.facts.unsigned(p)
        if s.facts.assume(le(add(p, ONE), length(src)), True) and s.facts.assume(subst(b, {BV0: p}), True):
            out.append((s, some(p)))
    return out


@tr(ITER, 'max', 'min', 'find_map', 'max_by_key', 'min_by_key', 'product', 'partition',
    'cmp', 'eq', 'rfind')
def it_misc(c):
    src = src0(c)
    if src is None:
        return None
    vals = [src]
    if len(c.args) > 1:
        b = pure_body(c, c.args[1], src)
        vals.append(b if b is not None else c.val(1))
    return mk('call', 'iter_' + c.callee['method'], *vals)


@tr(ITER, 'sum')
def it_sum(c):
    src = src0(c)
    if src is None or has_f(src):
        return None
    return sum_(src, elem(src, BV0))


def vloop(c, st, step):
    """a loop run by a library routine; step(s) -> [('back','V',s)] / [('done',s,val)]"""
    I_ = c.I
    backs = I_.probe(st, step, 'V')
    if not backs:
        return [(o[1], o[2]) for o in step(st) if o[0] == 'done']
    if I_.unrollable(st, backs):
        cur = [st.copy()]
        res = []
        nob = len(I_.obligations)
        for n in range(100):
            nxt = []
            for s in cur:
                for o in step(s):
                    if o[0] == 'back':
                        nxt.append(o[2])
                    else:
                        res.append((o[1], o[2]))
            if not nxt:
                return res
            if len(nxt) > 40:
                break
            cur = nxt
        del I_.obligations[nob:]
    name = (I_.stack[-1] if I_.stack else '?') + ':' + c.name
    info, sw = I_.widen(st, step, 'V', name, backs)
    info['line'] = c.site
    info['fn'] = I_.stack[-1] if I_.stack else '?'
    I_.loops[info['uid']] = info
    res = []
    fin = []
    for o in step(sw):
        if o[0] == 'back':
            fin.append(o[2])
        else:
            s = o[1]
            v = o[2]
            it = info.get('iter')
            if it and info.get('closed') and s.facts.truth_of(lt(it[0], length(it[1]))) is False:
                m = info['closed']
                for k, x in list(s.cells.items()):
                    if any(y in m for y in subterms(x) if y.op == 'lv'):
                        s.cells[k] = subst(x, m)
                v = subst(v, m)
                info['exits'] += 1
            res.append((s, v))
    info['backs'] = fin
    return res


def newcell(c, st, v):
    c.I.hid += 1
    cell = ('V', c.I.hid)
    st.cells[cell] = v
    return cell


def drop_cells(res, *cells):
    for s, _ in res:
        for k in cells:
            s.cells.pop(k, None)
    return res


def drain_mapf(c, st, src):
    """collect an effectful map into a sequence"""
    it = newcell(c, st, it0(src))
    acc = newcell(c, st, EMPTY)

    def step(s):
        out = []
        for s2, x in next_item(c, s, it, ()):
            if x is None:
                out.append(('done', s2, UNIT))
            else:
                s2.cells[acc] = push(s2.cells[acc], x)
                out.append(('back', 'V', s2))
        return out
    res = [(s, s.cells[acc]) for s, _ in vloop(c, st, step)]
    return drop_cells(res, it, acc)


def drain_try(c, st, src, opt):
    """collect::<Result<Vec<_>,E>> / Option<Vec<_>>"""
    it = newcell(c, st, it0(src))
    acc = newcell(c, st, EMPTY)

    def step(s):
        out = []
        for s2, x in next_item(c, s, it, ()):
            if x is None:
                out.append(('done', s2, TRUE))
                continue
            for s3, k in c.I.split_variant(s2, x, OPT if opt else RES):
                w = c.I.resolve_ite(s3, x)
                if k == (1 if opt else 0):
                    s3.cells[acc] = push(s3.cells[acc], fld(w, k, 0))
                    out.append(('back', 'V', s3))
                else:
                    out.append(('done', s3, NONE if opt else err(fld(w, 1, 0))))
        return out
    res = []
    for s, v in vloop(c, st, step):
        if v is TRUE:
            a = s.cells[acc]
            res.append((s, some(a) if opt else ok(a)))
        else:
            res.append((s, v))
    return drop_cells(res, it, acc)


@tr(ITER, 'collect')
def collect(c):
    src = src0(c)
    if src is None:
        return None
    a = c.callee['args']
    t = c.I.prog.types[a[-1]] if a else {'k': 'other', 's': '?'}
    if t['k'] == 'adt' and t['path'] in (RES, OPT):
        inner = c.I.prog.types[t['args'][0]]
        if inner['k'] == 'adt' and inner['path'] == VEC:
            return drain_try(c, c.st, src, t['path'] == OPT)
        return None
    if t['k'] == 'adt' and t['path'] in (VEC, 'alloc::boxed::Box', 'alloc::collections::vec_deque::VecDeque'):
        if has_f(src):
            return drain_mapf(c, c.st, src)
        return src
    if t['k'] == 'adt' and t['path'] == STR:
        if has_f(src):
            return [(s, concat_of(r)) for s, r in drain_mapf(c, c.st, src)]
        return concat_of(src)
    if t['k'] == 'adt' and ('HashMap' in t['path'] or 'BTreeMap' in t['path']):
        if has_f(src):
            return [(s, mk('mapfrom', mk('emptymap'), r, elem(r, BV0))) for s, r in drain_mapf(c, c.st, src)]
        return mk('mapfrom', mk('emptymap'), src, elem(src, BV0))
    return mk('collect', t['s'], src)


@tr(ITER, 'fold')
def fold(c):
    v = c.val(0)
    src = src0(c)
    if src is None:
        return None
    st = c.st
    it = newcell(c, st, it0(src))
    acc = newcell(c, st, c.args[1])
    f = c.args[2]

    def step(s):
        out = []
        for s2, x in next_item(c, s, it, ()):
            if x is None:
                out.append(('done', s2, UNIT))
            else:
                for s3, r in c.I.apply(s2, f, [s2.cells[acc], x], c.site, c.chain):
                    s3.cells[acc] = r
                    out.append(('back', 'V', s3))
        return out
    res = [(s, s.cells[acc]) for s, _ in vloop(c, st, step)]
    return drop_cells(res, it, acc)


@tr(ITER, 'sum')
def sum_(c):
    src = src0(c)
    if src is None:
        return None
    st = c.st
    it = newcell(c, st, it0(src))
    acc = newcell(c, st, ZERO)

    def step(s):
        out = []
        for s2, x in next_item(c, s, it, ()):
            if x is None:
                out.append(('done', s2, UNIT))
            else:
                s2.cells[acc] = add(s2.cells[acc], x)
                out.append(('back', 'V', s2))
        return out
    res = [(s, s.cells[acc]) for s, _ in vloop(c, st, step)]
    return drop_cells(res, it, acc)


@tr(ITER, 'for_each')
def for_each(c):
    src = src0(c)
    if src is None:
        return None
    st = c.st
    it = newcell(c, st, it0(src))
    f = c.args[1]

    def step(s):
        out = []
        for s2, x in next_item(c, s, it, ()):
            if x is None:
                out.append(('done', s2, UNIT))
            else:
                out += [('back', 'V', s3) for s3, r in c.I.apply(s2, f, [x], c.site, c.chain)]
        return out
    return drop_cells(vloop(c, st, step), it)


@tr(ITER, 'try_for_each')
def try_for_each(c):
    src = src0(c)
    if src is None:
        return None
    st = c.st
    it = newcell(c, st, it0(src))
    f = c.args[1]

    def step(s):
        out = []
        for s2, x in next_item(c, s, it, ()):
            if x is None:
                out.append(('done', s2, ok(UNIT)))
                continue
            for s3, r in c.I.apply(s2, f, [x], c.site, c.chain):
                for s4, k in c.I.split_variant(s3, r, RES):
                    if k == 0:
                        out.append(('back', 'V', s4))
                    else:
                        out.append(('done', s4, err(fld(c.I.resolve_ite(s4, r), 1, 0))))
        return out
    return drop_cells(vloop(c, st, step), it)


# ------------------------------------------------------------------ closures
@tr('core::ops::function::FnOnce', 'call_once')
@tr('core::ops::function::FnMut', 'call_mut')
@tr('core::ops::function::Fn', 'call')
def call_fn(c):
    t = c.val(1)
    args = list(t.a[2:]) if t.op == 'agg' and t.a[0] == 'tuple' else [t]
    return c.apply(c.args[0], args)


# ------------------------------------------------------------------ numbers
def numfn(method):
    def d(h):
        for n in NUMS:
            FUNCS[f'core::num::<impl {n}>::{method}'] = (lambda bits, signed: lambda c: h(c, bits, signed))(
                64 if n.endswith('size') else int(n[1:]), n[0] == 'i')
        return h
    return d


@numfn('to_be_bytes')
def to_be(c, bits, sg):
    return be(bits // 8, c.val(0))


@numfn('from_be_bytes')
def from_be(c, bits, sg):
    v = c.val(0)
    r = unbe(bits // 8, v)
    c.st.facts.unsigned(r, bits)
    return r


@numfn('to_le_bytes')
def to_le(c, bits, sg):
    return le_bytes(bits // 8, c.val(0))


@numfn('from_le_bytes')
def from_le(c, bits, sg):
    return mk('unle', bits // 8, c.val(0))


@numfn('to_ne_bytes')
def to_ne(c, bits, sg):
    return le_bytes(bits // 8, c.val(0))


def rng(bits, sg):
    return (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)


def inrange(v, bits, sg):
    lo, hi = rng(bits, sg)
    return band(le(v, I(hi)), le(I(lo), v))


def unsig(c, sg, bits):
    if not sg:
        for i in range(len(c.args)):
            v = c.val(i)
            if v.op not in ('int', 'lin'):
                c.st.facts.unsigned(v, bits)


def _chk(op):
    def h(c, bits, sg):
        unsig(c, sg, bits)
        v = op(c.val(0), c.val(1))
        return [(s, some(v) if b else NONE) for s, b in c.I.split_bool(c.st, inrange(v, bits, sg))]
    return h


numfn('checked_add')(_chk(add))
numfn('checked_sub')(_chk(sub))
numfn('checked_mul')(_chk(mul))


def _wrap(op, nm):
    def h(c, bits, sg):
        unsig(c, sg, bits)
        v = op(c.val(0), c.val(1))
        if c.st.facts.truth_of(inrange(v, bits, sg)) is True:
            return v
        if isint(v) and not sg:
            return I(v.a[0] % (1 << bits))
        return mk('wrap', nm, bits, c.val(0), c.val(1))
    return h


numfn('wrapping_add')(_wrap(add, 'add'))
numfn('wrapping_sub')(_wrap(sub, 'sub'))
numfn('wrapping_mul')(_wrap(mul, 'mul'))


def sat_signed(c, bits, v):
    lo, hi = rng(bits, True)
    out = []
    for s, k in c.I.split_bool(c.st, le(v, I(hi))):
        if not k:
            out.append((s, I(hi)))
            continue
        out += [(s2, v if k2 else I(lo)) for s2, k2 in c.I.split_bool(s, le(I(lo), v))]
    return out


@numfn('saturating_sub')
def sat_sub(c, bits, sg):
    if sg:
        return sat_signed(c, bits, sub(c.val(0), c.val(1)))
    unsig(c, sg, bits)
    a, b = c.val(0), c.val(1)
    return [(s, sub(a, b) if k else ZERO) for s, k in c.I.split_bool(c.st, le(b, a))]


@numfn('saturating_add')
def sat_add(c, bits, sg):
    if sg:
        return sat_signed(c, bits, add(c.val(0), c.val(1)))
    unsig(c, sg, bits)
    v = add(c.val(0), c.val(1))
    hi = I((1 << bits) - 1)
    return [(s, v if k else hi) for s, k in c.I.split_bool(c.st, le(v, hi))]


@numfn('saturating_mul')
def sat_mul(c, bits, sg):
    unsig(c, sg, bits)
    if sg:
        return None
    v = mul(c.val(0), c.val(1))
    hi = I((1 << bits) - 1)
    return [(s, v if k else hi) for s, k in c.I.split_bool(c.st, le(v, hi))]


@numfn('checked_rem')
def chk_rem(c, bits, sg):
    a, b = c.val(0), c.val(1)
    return [(s, NONE if z else some(c.I.bitop('Rem', a, b, {'bits': bits, 'k': 'uint'})))
            for s, z in c.I.split_bool(c.st, eq(b, ZERO))]


@numfn('next_power_of_two')
def npo2(c, bits, sg):
    v = c.val(0)
    c.oblige('overflow', isint(v) or c.I.prove(c.st, sub(v, I(1 << (bits - 1)))), f'next power of two of {show(v)}')
    return I(1 << (v.a[0] - 1).bit_length()) if isint(v) and v.a[0] > 0 else mk('numop', 'next_power_of_two', v)


for m_ in ('ilog2', 'ilog10', 'isqrt', 'swap_bytes', 'reverse_bits', 'count_zeros', 'leading_ones', 'trailing_ones', 'rotate_left', 'rotate_right'):
    def numop(c, bits, sg, m_=m_):
        if m_.startswith('ilog'):
            c.oblige('unwrap', c.I.prove(c.st, sub(ONE, c.val(0))), f'{m_} of {show(c.val(0))}')
        return mk('numop', m_, *[c.val(i) for i in range(len(c.args))])
    if f'core::num::<impl u32>::{m_}' not in FUNCS:
        numfn(m_)(numop)


@numfn('min_value')
def minv(c, bits, sg):
    return I(rng(bits, sg)[0])


@numfn('max_value')
def maxv(c, bits, sg):
    return I(rng(bits, sg)[1])


def binop_tr(trait, method, op):
    def h(c):
        t = base_ty(c, c.callee['args'][0])
        if t['k'] not in ('uint', 'int', 'bool'):
            return None
        a, b = c.val(0), c.val(1)
        if op in ('Add', 'Sub', 'Mul'):
            return c.I.arith(c.st, op, a, b, t)
        return c.I.arith(c.st, op, a, b, t)
    TRAITS[(trait, method)] = h


for m_, o_ in (('bitand', 'BitAnd'), ('bitor', 'BitOr'), ('bitxor', 'BitXor'), ('shl', 'Shl'), ('shr', 'Shr')):
    binop_tr('core::ops::bit::' + {'bitand': 'BitAnd', 'bitor': 'BitOr', 'bitxor': 'BitXor', 'shl': 'Shl', 'shr': 'Shr'}[m_], m_, o_)
for m_, o_ in (('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mul'), ('div', 'Div'), ('rem', 'Rem')):
    binop_tr('core::ops::arith::' + o_, m_, o_)

_add_int = TRAITS[('core::ops::arith::Add', 'add')]


@tr('core::ops::arith::Add', 'add')
def t_add(c):
    t = base_ty(c, c.callee['args'][0])
    if t['k'] == 'adt' and t['path'] == STR:
        return cat(c.val(0), c.val(1))
    return _add_int(c)


@tr('core::ops::arith::AddAssign', 'add_assign')
def t_add_assign(c):
    t = base_ty(c, c.callee['args'][0])
    if t['k'] == 'adt' and t['path'] == STR:
        c.store(0, cat(c.val(0), c.val(1)))
        return UNIT
    if t['k'] in ('uint', 'int'):
        c.store(0, add(c.val(0), c.val(1)))
        return UNIT
    return None


@tr('core::ops::bit::Not', 'not')
def t_not(c):
    t = base_ty(c, c.callee['args'][0])
    return bnot(c.val(0)) if t['k'] == 'bool' else mk('bitnot', c.val(0))


SUBU8 = 'num_bigint::biguint::subtraction::<impl core::ops::arith::Sub<u8> for num_bigint::biguint::BigUint>::sub'


# ------------------------------------------------------------------ formatting
def parse_template(b):
    """-> list of bytes literal | ('arg', index, flags)"""
    out = []
    i = 0
    nxt = 0
    while i < len(b):
        x = b[i]
        i += 1
        if x == 0:
            break
        if x < 0x80:
            out.append(b[i:i + x])
            i += x
        elif x == 0x80:
            n = b[i] | (b[i + 1] << 8)
            i += 2
            out.append(b[i:i + n])
            i += n
        else:
            spec = []
            if x & 1:
                spec.append(('flags', int.from_bytes(b[i:i + 4], 'little')))
                i += 4
            if x & 2:
                spec.append(('width', int.from_bytes(b[i:i + 2], 'little')))
                i += 2
            if x & 4:
                spec.append(('prec', int.from_bytes(b[i:i + 2], 'little')))
                i += 2
            idx = nxt
            if x & 8:
                idx = b[i] | (b[i + 1] << 8)
                i += 2
            nxt = idx + 1
            out.append(('arg', idx, tuple(spec)))
    return out


@fn('core::fmt::Arguments::new')
def fmt_new(c):
    t, a = c.val(0), c.val(1)
    if t.op != 'bytes':
        return mk('fmt', t, a)
    parts = []
    for p in parse_template(t.a[0]):
        if isinstance(p, bytes):
            parts.append(('s', B(p)))
        else:
            x = elem(a, I(p[1]))
            if p[2]:
                x = mk('fmtspec', p[2], x)
            parts.append(('s', x))
    return seq(parts)


@fn('core::fmt::Arguments::from_str', 'core::fmt::Arguments::from_str_nonconst', 'core::fmt::Arguments::new_const')
def fmt_str(c):
    return c.val(0)


def fmt_of(c, v, ti, trait):
    """text of a value under Display (list of (st, text))"""
    P = c.I.prog
    t = P.types[P.strip_refs(ti)] if ti is not None else {'k': 'other', 's': '?'}
    if trait == 'Display':
        if t['k'] in ('str',) or (t['k'] == 'adt' and t['path'] in (STR, 'alloc::borrow::Cow', 'core::fmt::Arguments')):
            return [(c.st, v)]
        if t['k'] == 'char':
            return [(c.st, push_char(EMPTY, v))]
        if t['k'] in ('uint', 'int') and isint(v):
            return [(c.st, B(str(v.a[0]).encode()))]
        if t['k'] == 'adt':
            for f in P.trait_impls.get(('core::fmt::Display', 'fmt'), []):
                ft = P.types[P.strip_refs(f.impl_self)]
                if ft['k'] == 'adt' and ft['path'] == t['path'] and f.path not in c.I.opaque and f.key not in c.I.overrides:
                    cell = newcell(c, c.st, EMPTY)
                    out = []
                    for s, r in c.I.call_fn(c.st, f, [v, mk('mref', cell, ())]):
                        x = s.cells.pop(cell)
                        out.append((s, x))
                    return out
        return [(c.st, mk('disp', v))]
    return [(c.st, mk('dbg' if trait == 'Debug' else 'fmtd', v))]


@fn('core::fmt::rt::Argument::new_display')
def arg_display(c):
    return fmt_of(c, c.val(0), c.callee['args'][-1] if c.callee['args'] else None, 'Display')


@fn('core::fmt::rt::Argument::new_debug', 'core::fmt::rt::Argument::new_debug_noop')
def arg_debug(c):
    return mk('dbg', c.val(0))


for n_ in ('lower_hex', 'upper_hex', 'octal', 'binary', 'pointer', 'lower_exp', 'upper_exp'):
    FUNCS['core::fmt::rt::Argument::new_' + n_] = (lambda n: lambda c: mk('fmtd', n, c.val(0)))(n_)


@tr('alloc::string::ToString', 'to_string')
def to_string(c):
    return fmt_of(c, c.val(0), c.callee['args'][0], 'Display')


@tr('core::fmt::Display', 'fmt')
def disp_fmt(c):
    out = []
    for s, x in fmt_of(c, c.val(0), c.callee['args'][0], 'Display'):
        c.I.store(s, c.args[1].a[0], c.args[1].a[1], cat(c.I.deref(s, c.args[1]), x)) if c.args[1].op == 'mref' else None
        out.append((s, ok(UNIT)))
    return out


@tr('core::fmt::Debug', 'fmt')
def dbg_fmt(c):
    if c.args[1].op == 'mref':
        c.store(1, cat(c.val(1), mk('dbg', c.val(0))))
    return ok(UNIT)


@fn('alloc::fmt::format', 'alloc::fmt::format::format_inner')
def fmt_format(c):
    return c.val(0)


@fn('core::fmt::Formatter::write_fmt', 'core::fmt::Formatter::write_str', 'core::fmt::Formatter::pad')
@tr('core::fmt::Write', 'write_str', 'write_fmt')
def fm_write(c):
    if c.args[0].op == 'mref':
        c.store(0, cat(c.val(0), c.val(1)))
    return ok(UNIT)


@tr('core::fmt::Write', 'write_char')
@fn('core::fmt::Formatter::write_char')
def fm_write_char(c):
    if c.args[0].op == 'mref':
        c.store(0, push_char(c.val(0), c.val(1)))
    return ok(UNIT)


@fn('core::fmt::Formatter::alternate')
def fm_alt(c):
    return mk('fmtalt')


# ------------------------------------------------------------------ maps
HM = 'std::collections::hash::map::HashMap::'


@fn(HM + 'insert', 'alloc::collections::btree::map::BTreeMap::insert')
def hm_insert(c):
    m = c.val(0)
    c.store(0, mk('mapins', m, c.val(1), c.val(2)))
    return mk('call', 'map_old', m, c.val(1))


@fn(HM + 'contains_key', 'alloc::collections::btree::map::BTreeMap::contains_key')
def hm_has(c):
    return mk('haskey', c.val(0), c.val(1))


@fn(HM + 'clear', 'alloc::collections::btree::map::BTreeMap::clear')
def hm_clear(c):
    c.store(0, mk('emptymap'))
    return UNIT


@fn(HM + 'retain', 'alloc::collections::btree::map::BTreeMap::retain')
def hm_retain(c):
    c.store(0, mk('mapretain', c.val(0), c.val(1)))
    return UNIT


@fn(HM + 'remove', 'alloc::collections::btree::map::BTreeMap::remove')
def hm_remove(c):
    m = c.val(0)
    c.store(0, mk('mapdel', m, c.val(1)))
    return mk('call', 'map_get', m, c.val(1))


@fn(HM + 'get', 'alloc::collections::btree::map::BTreeMap::get')
def hm_get(c):
    return mk('call', 'map_get', c.val(0), c.val(1))


# ------------------------------------------------------------------ boxes (vec! expansion)
@fn('alloc::boxed::Box::new_uninit')
def box_uninit(c):
    c.I.hid += 1
    cell = ('H', c.I.hid)
    c.st.cells[cell] = mk('uninit')
    return mk('mref', cell, ())


@fn('alloc::boxed::box_assume_init_into_vec_unsafe')
def box_into_vec(c):
    a = c.args[0]
    v = c.I.deref(c.st, a)
    if a.op == 'mref' and a.a[0][0] == 'H':
        c.st.cells.pop(a.a[0], None)
    # MaybeUninit { value: ManuallyDrop(MaybeDangling(x)) }
    for _ in range(4):
        if v.op == 'upd':
            v = v.a[2]
        elif v.op == 'agg' and v.a[0] != 'tuple' and len(v.a) == 3 and 'mem::' in v.a[0]:
            v = v.a[2]
        else:
            break
    return v


# ------------------------------------------------------------------ cursors
CUR = 'core::io::cursor::Cursor'


@fn(CUR + '::new', 'std::io::cursor::Cursor::new')
def cur_new(c):
    return agg('cursor', 0, (c.val(0), ZERO))


@fn(CUR + '::position')
def cur_pos(c):
    v = c.val(0)
    return v.a[3] if v.op == 'agg' and v.a[0] == 'cursor' else None


@fn(CUR + '::set_position')
def cur_setpos(c):
    v = c.val(0)
    if v.op == 'agg' and v.a[0] == 'cursor':
        c.store(0, agg('cursor', 0, (v.a[2], c.val(1))))
        return UNIT
    return None


@fn(CUR + '::into_inner', CUR + '::get_ref')
def cur_inner(c):
    v = c.val(0)
    return v.a[2] if v.op == 'agg' and v.a[0] == 'cursor' else None


@tr('alloc::io::read::Read', 'read_exact')
@tr('std::io::Read', 'read_exact')
@tr('core::io::read::Read', 'read_exact')
def read_exact(c):
    v = c.val(0)
    b = c.args[1]
    if not (v.op == 'agg' and v.a[0] == 'cursor') or b.op != 'mref':
        return None
    inner, p = v.a[2], v.a[3]
    n = length(c.I.deref(c.st, b))
    e = mk('call', 'read_exact', inner, p, n)
    out = []
    for s, g in c.I.split_bool(c.st, le(add(p, n), length(inner))):
        if g:
            c.I.store(s, b.a[0], b.a[1], slice_(inner, p, add(p, n)))
            c.I.store(s, c.args[0].a[0], c.args[0].a[1], agg('cursor', 0, (inner, add(p, n))))
            out.append((s, ok(UNIT)))
        else:
            c.I.store(s, b.a[0], b.a[1], mk('mutsl', n, 'read_exact', inner))
            out.append((s, err(fld(e, 1, 0))))
    return out


@tr('alloc::io::read::Read', 'read')
@tr('std::io::Read', 'read')
@tr('core::io::read::Read', 'read')
def read_some(c):
    """reading from a cursor: all that was asked for, or the rest of the data and how much that is"""
    v = c.val(0)
    b = c.args[1]
    if not (v.op == 'agg' and v.a[0] == 'cursor') or b.op != 'mref':
        return None
    inner, p = v.a[2], v.a[3]
    old = c.I.deref(c.st, b)
    n = length(old)
    out = []
    for s, g in c.I.split_bool(c.st, le(add(p, n), length(inner))):
        if g:
            c.I.store(s, b.a[0], b.a[1], slice_(inner, p, add(p, n)))
            c.I.store(s, c.args[0].a[0], c.args[0].a[1], agg('cursor', 0, (inner, add(p, n))))
            out.append((s, ok(n)))
            continue
        for s2, h in c.I.split_bool(s, le(p, length(inner))):
            k = sub(length(inner), p) if h else ZERO
            c.I.store(s2, b.a[0], b.a[1], cat(slice_(inner, p, length(inner)), slice_(old, k, n)) if h else old)
            if h:
                c.I.store(s2, c.args[0].a[0], c.args[0].a[1], agg('cursor', 0, (inner, length(inner))))
            out.append((s2, ok(k)))
    return out


@tr('alloc::io::read::Read', 'read_to_end')
@tr('std::io::Read', 'read_to_end')
def read_to_end(c):
    v = c.val(0)
    b = c.args[1]
    if not (v.op == 'agg' and v.a[0] == 'cursor') or b.op != 'mref':
        return None
    inner, p = v.a[2], v.a[3]
    if not c.I.prove(c.st, sub(p, length(inner))):
        return None
    c.store(1, cat(c.val(1), slice_(inner, p, length(inner))))
    c.store(0, agg('cursor', 0, (inner, length(inner))))
    return ok(sub(length(inner), p))


# ------------------------------------------------------------------ base64
def b64_config(c, i):
    k = c.I.deref(c.st, c.args[i])
    return str(k.a[0]).rsplit('::', 1)[-1] if k.op == 'const' and str(k.a[0]).startswith('base64::') else None


@fn('base64::encode::encode_config')
def b64_encode_config(c):
    k = b64_config(c, 1)
    e = mk('call', 'base64::encode::encode', c.val(0))
    if k == 'STANDARD':
        return e
    if k == 'STANDARD_NO_PAD':
        return [(s, slice_(e, ZERO, mk('find', e, I(61))) if g else e) for s, g in c.I.split_bool(c.st, mk('scontains', e, I(61)))]
    return mk('b64x', k, c.val(0)) if k else None


@fn('base64::decode::decode_config')     # version 0.13 does not look at the padding option when decoding
def b64_decode_config(c):
    k = b64_config(c, 1)
    if k is None:
        return None
    return mk('call', 'base64::decode::decode', c.val(0)) if k in ('STANDARD', 'STANDARD_NO_PAD') else mk('call', 'b64x::decode', c.val(0), B(k.encode()))


# ------------------------------------------------------------------ crypto
@fn('ring::digest::digest')
def digest(c):
    return mk('digest', c.val(0), c.val(1))


@fn('ring::digest::Context::new')
def dctx_new(c):
    return mk('agg', 'dctx', 0, c.val(0), EMPTY)


@fn('ring::digest::Context::update')
def dctx_update(c):
    v = c.val(0)
    if v.op == 'agg' and v.a[0] == 'dctx':
        c.store(0, mk('agg', 'dctx', 0, v.a[2], cat(v.a[3], c.val(1))))
        return UNIT
    return None


@fn('ring::digest::Context::finish')
def dctx_finish(c):
    v = c.val(0)
    if v.op == 'agg' and v.a[0] == 'dctx':
        return mk('digest', v.a[2], v.a[3])
    return None


@fn('ring::signature::UnparsedPublicKey::new')
def upk_new(c):
    return mk('agg', 'upk', 0, c.val(0), c.val(1))


@fn('ring::signature::UnparsedPublicKey::verify')
def upk_verify(c):
    u = c.val(0)
    if u.op == 'agg' and u.a[0] == 'upk':
        a = (u.a[2], u.a[3], c.val(1), c.val(2))
    else:
        a = (u, mk('unk', 'key'), c.val(1), c.val(2))
    r = mk('call', 'verify', *a)
    c.st.event(('verify', a, r, c.site))
    return r


@fn('ring::rsa::verification::<impl ring::rsa::public_key_components::PublicKeyComponents<B>>::verify')
def rsa_verify(c):
    pk = c.val(0)
    k = tup(fld(pk, None, 0), fld(pk, None, 1))
    a = (c.val(1), k, c.val(2), c.val(3))
    r = mk('call', 'verify', *a)
    c.st.event(('verify', a, r, c.site))
    return r


@fn('generic_array::GenericArray::from_slice')
def ga_from_slice(c):
    v = c.val(0)
    c.oblige('garray', None, f'GenericArray::from_slice on len {show(length(v))} as {c.I.prog.tystr(c.dty) if c.dty is not None else "?"}')
    c.st.event(('garray', length(v), c.I.prog.tystr(c.dty) if c.dty is not None else None, c.site))
    return v


@fn('chrono::naive::time::NaiveTime::from_hms_opt')
def hms_opt(c):
    a = [c.val(i) for i in range(3)]
    t = mk('call', 'NaiveTime::from_hms', *a)
    if all(isint(x) for x in a):
        return some(t) if a[0].a[0] < 24 and a[1].a[0] < 60 and a[2].a[0] < 60 else NONE
    return None


@fn('chrono::offset::LocalResult::unwrap', 'chrono::offset::LocalResult::<T>::unwrap')
def lr_unwrap(c):
    c.oblige('unwrap', False, f'LocalResult::unwrap on {show(c.val(0))}')
    return mk('call', 'LocalResult::unwrap', c.val(0))


BIGU = 'num_bigint::biguint::BigUint'


def bigarg(c):
    return base_ty(c, c.callee['args'][0]).get('s', '') == BIGU if c.callee['args'] else False


@fn(f'{BIGU}::from_bytes_be')
def big_be(c):
    """unbounded naturals are ordinary integer terms"""
    v = c.val(0)
    if v.op == 'bytes':
        return I(int.from_bytes(v.a[0], 'big'))
    return mk('beint', v)


@fn(f'{BIGU}::from_slice', f'{BIGU}::new')
def big_slice(c):
    v = c.val(0)
    L = length(v)
    if L is ONE:
        return elem(v, ZERO)
    return ZERO if L is ZERO else mk('bigslice', v)


@sfx('num_bigint::biguint::convert::<impl core::convert::From<u', 'from')
def big_from(c):
    return c.val(0)


@fn(f'{BIGU}::to_bytes_be')
def big_to(c):
    v = c.val(0)
    return mk('call', f'{BIGU}::to_bytes_be', v)


@fn(f'{BIGU}::bits')
def big_bits(c):
    return mk('bigbits', c.val(0))


@sfx('num_bigint::biguint::subtraction', 'sub', 'sub_assign')
def bigsub(c):
    v, n = c.val(0), c.val(1)
    okk = c.st.facts.truth_of(le(n, v)) is True
    c.oblige('bigsub', okk, f'{show(v)} - {show(n)} (BigUint underflow)')
    r = sub(v, n)
    if c.name.endswith('_assign'):
        c.store(0, r)
        return UNIT
    return r


@sfx('num_bigint::biguint::division', 'rem', 'div')
def bigrem(c):
    v, m = c.val(0), c.val(1)
    c.oblige('modpow', big_nonzero(c, m), f'divisor {show(m)} != 0')
    return mk('bigdivrem', c.name.rsplit('::', 1)[-1], v, m)


@fn(f'{BIGU}::modpow')
def modpow(c):
    v, e, m = c.val(0), c.val(1), c.val(2)
    c.oblige('modpow', big_nonzero(c, m), f'modulus {show(m)} != 0')
    if e is ONE:
        return mk('bigdivrem', 'rem', v, m)
    return mk('modpow', v, e, m)


def big_nonzero(c, m):
    f = c.st.facts
    return f.truth_of(le(ONE, m)) is True or f.truth_of(eq(m, ZERO)) is False


# ------------------------------------------------------------------ zeroize
@tr('zeroize::Zeroize', 'zeroize')
def zeroize(c):
    v = c.val(0)
    c.st.event(('zeroize', c.args[0], v, c.site))
    c.store(0, mk('zeroed'))
    return UNIT


# ------------------------------------------------------------------ panics
def panic(c):
    c.oblige('panic', False, 'panic: ' + (show(c.val(0)) if c.args else ''))
    return []


for n_ in ('core::panicking::panic_fmt', 'core::panicking::panic', 'core::panicking::panic_display',
           'core::panicking::panic_explicit', 'core::panicking::unreachable_display', 'core::panicking::assert_failed',
           'core::panicking::assert_matches_failed', 'core::panicking::panic_nounwind', 'std::rt::begin_panic',
           'core::panicking::panic_str_2015', 'std::process::exit', 'std::process::abort', 'core::option::expect_failed',
           'core::option::unwrap_failed', 'core::result::unwrap_failed', 'core::panicking::panic_const::panic_const_async_fn_resumed',
           'core::intrinsics::abort'):
    FUNCS[n_] = panic


# ------------------------------------------------------------------ derived impls of crate types
def derived(c, target):
    t, m = target.impl_trait, target.method
    if t == 'core::cmp::PartialEq':
        if m == 'eq':
            return eq(c.val(0), c.val(1))
        if m == 'ne':
            return bnot(eq(c.val(0), c.val(1)))
    if t == 'core::clone::Clone' and m == 'clone':
        return c.val(0)
    if t == 'core::fmt::Debug' and m == 'fmt':
        return dbg_fmt(c)
    if t in ('core::cmp::PartialOrd', 'core::cmp::Ord', 'core::hash::Hash', 'core::cmp::Eq'):
        return mk('call', target.key, *[c.I.deref(c.st, a) for a in c.args])
    return None


# ---------------------------------------------------------------- x509 accessors (several spellings of one thing)
@fn('der_parser::oid::Oid::to_id_string', 'asn1_rs::asn1_types::oid::Oid::to_id_string', 'asn1_rs::Oid::to_id_string')
def oid_text(c):
    return mk('disp', c.val(0))


@fn('x509_parser::parse_x509_certificate', 'x509_parser::certificate::X509Certificate::from_der', 'x509_parser::parse_x509_der',
    "<x509_parser::certificate::X509Certificate<'a> as asn1_rs::traits::FromDer<'a, x509_parser::error::X509Error>>::from_der")
def x509_cert(c):
    return c.I.opaque_call(c, 'x509_parser::parse_x509_certificate')


def _tbs(name):
    def h(c):
        v = c.val(0)
        if 'X509Certificate' in c.name:
            i = field_ix(c, 'x509_parser::certificate::X509Certificate', 'tbs_certificate')
            if i is None:
                return None
            v = fld(v, 0, i)
        i = field_ix(c, 'x509_parser::certificate::TbsCertificate', name)
        return None if i is None else fld(v, 0, i)
    return h


for _n, _f in (('public_key', 'subject_pki'), ('extensions', 'extensions'), ('subject', 'subject'), ('issuer', 'issuer')):
    for _a in ('X509Certificate', 'TbsCertificate'):
        fn(f'x509_parser::certificate::{_a}::{_n}')(_tbs(_f))


# ---------------------------------------------------------------- less common ways of changing a sequence
@fn(VEC + '::splice')
def v_splice(c):
    v = c.val(0)
    rg = range_of(c, c.val(1), length(v))
    src = as_src(c, c.st, c.args[2])
    if rg is None or src is None or has_f(src):
        return None
    lo, hi = rg
    c.oblige('slice', c.I.prove(c.st, sub(hi, length(v))) and c.I.prove(c.st, sub(lo, hi)), f'splice {show(lo)}..{show(hi)} of len {show(length(v))}')
    c.store(0, cat(slice_(v, ZERO, lo), src, slice_(v, hi, length(v))))
    return mk('it', slice_(v, lo, hi), ZERO)


@fn(VEC + '::retain')
def v_retain(c):
    v = c.val(0)
    b = pure_body(c, c.args[1], v)
    if b is None:
        return None
    c.store(0, mk('filter', v, b))
    return UNIT


@both((VEC,), 'dedup', 'dedup_by_key', 'dedup_by')
def v_dedup(c):
    m = c.name.rsplit('::', 1)[-1]
    c.store(0, mk('dedup', c.val(0), *([] if m == 'dedup' else [m])))
    return UNIT


@both(SEQS, 'sort_by', 'sort_by_key', 'sort_unstable_by', 'sort_unstable_by_key', 'sort_by_cached_key')
def s_sortby(c):
    b = pure_body(c, c.args[1], c.val(0)) if 'key' in c.name else None
    if b is None:
        return None
    c.store(0, mk('sorted', c.val(0), b))
    return UNIT


@both(SEQS, 'rotate_left', 'rotate_right')
def s_rotate(c):
    v, n = c.val(0), c.val(1)
    L = length(v)
    c.oblige('slice', c.I.prove(c.st, sub(n, L)), f'rotate by {show(n)} of len {show(L)}')
    k = n if c.name.endswith('left') else sub(L, n)
    c.store(0, cat(slice_(v, k, L), slice_(v, ZERO, k)))
    return UNIT


@fn(VEC + '::extend_from_within')
def v_efw(c):
    v = c.val(0)
    rg = range_of(c, c.val(1), length(v))
    if rg is None:
        return None
    lo, hi = rg
    c.oblige('slice', c.I.prove(c.st, sub(hi, length(v))) and c.I.prove(c.st, sub(lo, hi)), f'{show(lo)}..{show(hi)} of len {show(length(v))}')
    c.store(0, cat(v, slice_(v, lo, hi)))
    return UNIT


@fn(STR + '::insert_str')
def s_insert_str(c):
    v, i, x = c.val(0), c.val(1), c.val(2)
    c.oblige('strindex', boundary(c, v, i), f'char boundary {show(i)}')
    c.store(0, cat(slice_(v, ZERO, i), x, slice_(v, i, length(v))))
    return UNIT


@both((ST,), 'rsplit_once')
def str_rsplit_once(c):
    v, p = c.val(0), c.val(1)
    f = mk('rfind', v, p)
    c.st.facts.unsigned(f)
    return [(s, some(tup(slice_(v, ZERO, f), slice_(v, add(f, length_pat(p)), length(v)))) if b else NONE)
            for s, b in c.I.split_bool(c.st, mk('scontains', v, p))]


@numfn('div_ceil')
def n_divceil(c, bits, sg):
    a, b = c.val(0), c.val(1)
    if sg or not isint(b) or b.a[0] < 1:
        return None
    unsig(c, sg, bits)
    return c.I.bitop('Div', add(a, I(b.a[0] - 1)), b, {'bits': bits})


@numfn('next_multiple_of')
def n_nextmul(c, bits, sg):
    a, b = c.val(0), c.val(1)
    if sg or not isint(b) or b.a[0] < 1:
        return None
    unsig(c, sg, bits)
    return mul(b, c.I.bitop('Div', add(a, I(b.a[0] - 1)), b, {'bits': bits}))


@numfn('is_multiple_of')
def n_ismul(c, bits, sg):
    a, b = c.val(0), c.val(1)
    if sg or not isint(b) or b.a[0] < 1:
        return None
    return eq(c.I.bitop('Rem', a, b, {'bits': bits}), ZERO)


@numfn('rem_euclid')
def n_reme(c, bits, sg):
    a, b = c.val(0), c.val(1)
    if sg or not isint(b) or b.a[0] < 1:
        return None
    return c.I.bitop('Rem', a, b, {'bits': bits})


@numfn('abs_diff')
def n_absdiff(c, bits, sg):
    a, b = c.val(0), c.val(1)
    unsig(c, sg, bits)
    return [(s, sub(b, a) if k else sub(a, b)) for s, k in c.I.split_bool(c.st, le(a, b))]


@tr('core::cmp::Ord', 'clamp')
def o_clamp(c):
    if not intarg(c):
        return None
    v, lo, hi = c.val(0), c.val(1), c.val(2)
    c.oblige('clamp', c.I.prove(c.st, sub(lo, hi)), f'{show(lo)} <= {show(hi)}')
    out = []
    for s, k in c.I.split_bool(c.st, lt(v, lo)):
        out += [(s, lo)] if k else [(s2, hi if q else v) for s2, q in c.I.split_bool(s, lt(hi, v))]
    return out


for _m in ('rotate_left', 'rotate_right', 'swap_bytes', 'reverse_bits', 'leading_zeros', 'trailing_zeros', 'count_ones', 'to_le', 'to_be'):
    numfn(_m)((lambda m: lambda c, bits, sg: mk('numfn', m, bits, *[c.val(i) for i in range(len(c.args))]))(_m))
