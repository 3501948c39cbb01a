"""Key-type and curve tables."""
from ..framework import *

KT = 'ssh::keytype::KeyType'
CV = 'ssh::keytype::Curve'


def S(s):
    return B(s.encode())


def ktable():
    t = {}

    def add_(name, plain, kind, cert, sk):
        t[name] = dict(name=name, plain=plain, kind=kind, is_cert=cert, is_sk=sk)
    for n in ('ssh-rsa', 'rsa-sha2-256', 'rsa-sha2-512'):
        add_(n, 'ssh-rsa', 'Rsa', False, False)
    add_('ssh-rsa-cert-v01@openssh.com', 'ssh-rsa', 'RsaCert', True, False)
    for c in ('256', '384', '521'):
        add_(f'ecdsa-sha2-nistp{c}', f'ecdsa-sha2-nistp{c}', 'Ecdsa', False, False)
        add_(f'ecdsa-sha2-nistp{c}-cert-v01@openssh.com', f'ecdsa-sha2-nistp{c}', 'EcdsaCert', True, False)
    add_('ssh-ed25519', 'ssh-ed25519', 'Ed25519', False, False)
    add_('ssh-ed25519-cert-v01@openssh.com', 'ssh-ed25519', 'Ed25519Cert', True, False)
    for p, k in (('sk-ssh-ed25519', 'Ed25519'), ('sk-ecdsa-sha2-nistp256', 'Ecdsa')):
        add_(f'{p}@openssh.com', f'{p}@openssh.com', k, False, True)
        add_(f'{p}-cert-v01@openssh.com', f'{p}@openssh.com', k, True, True)
    return t


TABLE = ktable()
CERTNAME = {'ssh-rsa': 'ssh-rsa-cert-v01@openssh.com', 'ssh-ed25519': 'ssh-ed25519-cert-v01@openssh.com',
            'sk-ssh-ed25519@openssh.com': 'sk-ssh-ed25519-cert-v01@openssh.com',
            'sk-ecdsa-sha2-nistp256@openssh.com': 'sk-ecdsa-sha2-nistp256-cert-v01@openssh.com'}
for _c in ('256', '384', '521'):
    CERTNAME[f'ecdsa-sha2-nistp{_c}'] = f'ecdsa-sha2-nistp{_c}-cert-v01@openssh.com'


def const_eq(o, t):
    """the constant a path has compared t equal to"""
    for k, v in o.facts.truth.items():
        if v is True and k.op == 'eq':
            for x, y in ((k.a[0], k.a[1]), (k.a[1], k.a[0])):
                if x is t and y.op == 'bytes':
                    return y.a[0]
        if v is True and k.op == 'eqc' and k.a[0] is t:
            c = k.a[1]
            return c.a[0] if isinstance(c, T) else c
    return None


def kt_val(prog, name):
    """the KeyType aggregate the table must yield for a name (short_name left out)"""
    return TABLE[name]


def table_of(R, cfg, key):
    """{constant: Ok value} of a lookup function, [] of problems"""
    f = R.fn(cfg, key)
    if f is None:
        R.unsure(f'{key} not present')
        return None
    run = R.explore(cfg, f, ckey='plain')
    if run is None:
        return None
    t = {}
    p = P(f, 1)
    for o in run.outs:
        if o.ret.op != 'agg':
            R.unsure(f'{key}: unclassified return {cut(o.ret)}')
            return None
        c = const_eq(o, p)
        if o.ret.a[1] == 0:
            if c is None:
                if run.clean and not imprecise(o.ret):
                    R.bad(f'{f.key}:open', f.key, f.span, f'an unrecognised name is accepted: {cut(o.ret)}')
                else:
                    R.unsure(f'{f.key}: cannot tell which name a success path belongs to')
                    return None
            else:
                t[c] = (o.ret.a[2], o)
        elif c is not None:
            t.setdefault(c, (None, o))
    return f, run, t


@rule('table.keytype')
def keytype(R, cfg):
    r = table_of(R, cfg, f'{KT}::from_name')
    if not r:
        return
    f, run, t = r
    prog = R.progs[cfg]
    kinds = {v['name']: i for i, v in enumerate(prog.adts['ssh::keytype::KeyTypeKind']['variants'])}
    ix = {n: prog.field_index(KT, n) for n in ('name', 'plain', 'kind', 'is_cert', 'is_sk')}
    for name, e in TABLE.items():
        g = t.get(name.encode())
        if g is None or g[0] is None:
            if run.clean:
                R.bad(f'{name}:missing', f.key, f.span, f'key type name {name} is not recognised')
            continue
        v = g[0]
        if v.op != 'agg':
            R.unsure(f'{name}: opaque result')
            continue
        for fl in ('name', 'plain'):
            R.same(run, f'{name}:{fl}', fld(v, 0, ix[fl]), S(e[fl]), f'{fl} of key type {name}', g[1])
        for fl in ('is_cert', 'is_sk'):
            R.same(run, f'{name}:{fl}', fld(v, 0, ix[fl]), TRUE if e[fl] else FALSE, f'{fl} of key type {name}', g[1])
        k = fld(v, 0, ix['kind'])
        if k.op == 'agg':
            R.expect(k.a[1] == kinds[e['kind']], f'{name}:kind', f.key, f.span, f'kind of key type {name} is variant {k.a[1]}, expected {e["kind"]}')
        else:
            R.unsure(f'{name}: kind {cut(k)}')
    for c in t:
        if c.decode('latin1') not in TABLE and t[c][0] is not None:
            v = t[c][0]
            # a further name may be added as long as it is described consistently
            if v.op == 'agg':
                R.same(run, f'{c!r}:name', fld(v, 0, ix['name']), B(c), f'name of key type {c!r}', t[c][1])
    g = R.fn(cfg, f'{KT}::as_cert_name')
    h = R.fn(cfg, f'{KT}::as_pubkey_name')
    for name, e in TABLE.items():
        x = t.get(name.encode())
        if not x or x[0] is None or x[0].op != 'agg':
            continue
        for fn_, want, lab in ((g, CERTNAME[e['plain']], 'certificate name'), (h, e['plain'], 'public key name')):
            if fn_ is None:
                R.unsure(f'{lab}: function not present')
                continue
            run2 = R.explore(cfg, fn_, args=[x[0]])
            if run2:
                for o in run2.outs:
                    R.same(run2, f'{name}:{lab}', o.ret, S(want), f'{lab} of {name}', o)


@rule('table.curve')
def curve(R, cfg):
    r = table_of(R, cfg, f'{CV}::from_identifier')
    if not r:
        return
    f, run, t = r
    prog = R.progs[cfg]
    kinds = {v['name']: i for i, v in enumerate(prog.adts['ssh::keytype::CurveKind']['variants'])}
    for n in ('256', '384', '521'):
        name = f'nistp{n}'
        g = t.get(name.encode())
        if g is None or g[0] is None:
            if run.clean:
                R.bad(f'{name}:missing', f.key, f.span, f'curve {name} is not recognised')
            continue
        v = g[0]
        R.same(run, f'{name}:identifier', fld(v, 0, prog.field_index(CV, 'identifier')), S(name), f'identifier of curve {name}', g[1])
        k = fld(v, 0, prog.field_index(CV, 'kind'))
        if k.op == 'agg':
            R.expect(k.a[1] == kinds[f'Nistp{n}'], f'{name}:kind', f.key, f.span, f'curve {name} is given the wrong kind')
        else:
            R.unsure(f'{name}: kind {cut(k)}')
