"""No reachable panic: every index, slice, unwrap, arithmetic-overflow and explicit-panic site met on any path from the
entry points is an obligation that the path facts must discharge."""
import re
from .common import *

VAGUE_RE = re.compile(r'lv:|mutby\(|mutsl\(|unk\(|uninit|poison|mutated|mutelems|mcell|call\(dyn')
CALLED = ('ssh::reader::Reader::', )


def summaries(R, cfg, key):
    A = R.anch[cfg]
    ov = {}
    if not key.startswith('ssh::reader'):
        ov.update(A.reader())
    if not key.startswith('ssh::keytype'):
        ov.update(A.keytype())
        ov.update(A.curve())
    if key != 'ssh::pubkey::PublicKey::from_reader':
        ov.update(A.pubkey_reader())
    return ov


def report(R, run, entry, kinds=None):
    """obligations of one exploration -> findings"""
    if run is None:
        return
    if R.cur.startswith('alloc.'):
        return resources(R, run, entry)
    prog = run.it.prog
    seen = {}
    for ob in list(run.it.obligations) + [x for x in run.it.first if not VAGUE_RE.search(x.what)]:
        if ob.kind == 'allocation':
            continue
        k = (ob.fn, ob.kind, ob.span)
        good, what = seen.get(k, (True, ob))
        if ob.ok is False:
            v = bool(VAGUE_RE.search(ob.what))
            if good is True or (good is None and not v):
                seen[k] = (None if v else False, ob)
        elif k not in seen:
            seen[k] = (True, ob)
    if any(g is None for g, _ in seen.values()):
        # not decided over the widened loops: look for a path through the first rounds on which it fails for certain
        for ob in run.follow():
            k = (ob.fn, ob.kind, ob.span)
            if not VAGUE_RE.search(ob.what) and seen.get(k, (None,))[0] is None:
                seen[k] = (False, ob)
    for (fn, kind, span), (g, ob) in seen.items():
        f = prog.fns.get(fn)
        name = f.key if f is not None else fn
        if g is True:
            R.good(f'{entry}: {kind} in {name}')
        elif g is None or not run.clean:
            R.unsure(f'{entry}: {kind} in {name}: {ob.what[:160]}')
        else:
            R.bad(f'{kind} in {name}', name, span, f'reachable panic from {entry}: {kind} not guarded: {cut(ob.what)}')


def resources(R, run, entry):
    """allocation sizes and loops of one exploration"""
    prog = run.it.prog
    R.good(f'{entry}: explored')
    for ob in list(run.it.obligations) + list(run.it.first):
        if ob.kind != 'allocation':
            continue
        f = prog.fns.get(ob.fn)
        name = f.key if f is not None else ob.fn
        if ob.ok:
            R.good(f'{entry}: allocation in {name}')
        elif VAGUE_RE.search(ob.what) or not re.search(r'unbe\(|param|\$', ob.what):
            R.unsure(f'{entry}: allocation in {name}: {ob.what[:160]}')
        else:
            R.bad(f'allocation in {name}', name, ob.span, f'reachable from {entry}: memory is allocated for a length that neither the input nor a constant bounds: {cut(ob.what)}')
    for uid, i in run.it.loops.items():
        f = prog.fns.get(i['fn'])
        name = f.key if f is not None else i['fn']
        for n, (m, cond) in enumerate(zip(i['steps'], i['conds'])):
            ks = list(cond) + [k for k in i['sfacts'][n].var if k not in i['sw'].facts.var]
            sub_ = {x for k in ks for x in subterms(k)}
            S = {x for x in sub_ if x.op == 'lv' and x in i['init']}
            moved = [x for x in S if m.get(x, x) is not x]
            if moved and not all(stays(i['sfacts'][n], x, m[x]) for x in moved):
                F = i['sfacts'][n]
                if any(ranked(F, x, m[x]) for x in moved):
                    R.good(f'{entry}: loop in {name} makes progress')
                else:
                    R.unsure(f'{entry}: loop in {name}: progress not bounded: ' + '; '.join(f'{cut(x, 60)} -> {cut(m[x], 120)}' for x in moved[:3]))
            elif not run.clean or any(x.op in ('uid', 'unk', 'poison', 'uninit', 'mutated', 'mutby', 'mutsl', 'mcell') for x in sub_):
                R.unsure(f'{entry}: loop in {name}')
            else:
                R.bad(f'loop in {name}', name, i['line'], f'reachable from {entry}: a round of this loop changes nothing that its own conditions depend on, so it repeats for ever: '
                      + ', '.join(('' if v is True else 'not ' if v is False else '') + cut(k, 100) for k, v in list(cond.items())[:4]))


def ranked(F, old, new):
    """a counter that a condition of the round bounds grows, or a sequence shrinks"""
    if new.op == 'upd':
        b = new.a[0]
        return b is old and ranked(F, fld(old, *new.a[1]), new.a[2])
    if new is EMPTY:
        return F.prove_le(sub(ONE, length(old)), 4)
    if new.op == 'slice' and new.a[0] is old:
        return F.truth_of(le(ONE, new.a[1])) is True or F.truth_of(lt(new.a[2], length(old))) is True
    if new.op not in ('lin', 'aft', 'lv', 'int'):
        return False
    d = sub(new, old)
    if F.prove_le(sub(ONE, d), 4):
        return any(lin_of(l)[1].get(old, 0) > 0 for l in F.le)
    if F.prove_le(add(ONE, d), 4):
        return any(lin_of(l)[1].get(old, 0) < 0 for l in F.le)
    return False


def stays(F, old, new):
    """new can equal old: a difference of terms that may all be zero"""
    if not (old.op == 'lv' and new.op in ('lin', 'aft')):
        return False
    c, d = lin_of(sub(new, old))
    if c != 0 or any(k < 0 or t.op not in ('unbe', 'elem', 'len') for t, k in d.items()):
        return False
    return F.truth_of(le(ONE, sub(new, old))) is None


def entries(R, cfg, pat, pub=True):
    rx = re.compile(pat)
    p = R.progs[cfg]
    out = []
    for f in sorted(p.fns.values(), key=lambda f: f.key):
        if '{' in f.key or f.derived or f.body.argc == 0:
            continue
        if (f.pub or not pub) and rx.search(f.key):
            out.append(f)
    return out


SSH = (r'^ssh::(cert|pubkey|privkey|signature|allowed_signer|reader|keytype)::[^:]*::(from_\w+|read_\w+|verify\w*|parse\w*|get_offset|set_offset)$'
       r'|^ssh::\w+::(verify\w*|parse\w*|read_\w+)$|^utils::|^<ssh::.* as core::(convert::TryFrom|str::traits::FromStr).*>::')
ATT = (r'^fido::(parsing|verification)::|^fido::generate::U2FAttestation::verify$|^x509::|^yubikey::verification::'
       r'|^<fido::.* as core::convert::TryFrom.*>::')

NEED = {
    'ssh': ['ssh::cert::Certificate::from_bytes', 'ssh::cert::Certificate::from_string', 'ssh::pubkey::PublicKey::from_bytes',
            'ssh::pubkey::PublicKey::from_string', 'ssh::privkey::PrivateKey::from_string', 'ssh::privkey::PrivateKey::from_bytes',
            'ssh::signature::SshSignature::from_armored_string', 'ssh::allowed_signer::AllowedSigner::from_string',
            'ssh::reader::Reader::read_bytes'],
}


def ident(prog, f):
    return f.key


@rule('panic.ssh')
def panic_ssh(R, cfg):
    A = R.anch[cfg]
    p = R.progs[cfg]
    for k in NEED['ssh']:
        R.expect(p.find(k) is not None, f'entry point {k}', k, None, 'public parsing entry point not found')
    # private parsers of their own: one exploration each, opaque when met from the public entry points
    subs = [f for f in p.fns.values() if '{' not in f.key and not f.derived and not f.pub and f.body.argc
            and f.key.startswith(('ssh::allowed_signer::', 'ssh::signature::verify', 'ssh::cert::read_', 'ssh::signature::SshSignature::from_reader'))]
    for f in subs:
        run = R.explore(cfg, f, overrides=summaries(R, cfg, f.key), ckey='panic', max_steps=150000)
        report(R, run, f.key)
    for f in entries(R, cfg, SSH):
        ov = summaries(R, cfg, f.key)
        for g in subs:
            if g.key.startswith('ssh::allowed_signer::') and 'trim' not in g.key:
                ov[g.key] = opaque(g)
        if f.key.startswith('ssh::allowed_signer'):
            for k in ('ssh::pubkey::PublicKey::from_string', 'ssh::allowed_signer::AllowedSigner::from_string'):
                if k != f.key and p.find(k) is not None:
                    ov[k] = opaque(p.find(k))
        if f.key.startswith('ssh::cert'):
            ov.update(A.pure('ssh::signature::verify_signature'))
        run = R.explore(cfg, f, overrides=ov, ckey='panic', max_steps=150000)
        report(R, run, f.key)


def opaque(g):
    def h(c):
        c.st.k += 1
        vals = [c.I.deref(c.st, a) for a in c.args]
        t = mk('call', g.key, *vals, mk('uid', c.st.k, g.key))
        c.I.havoc(c.st, g.key, c.args, vals, tys=c.argtys)
        return t
    return h


@rule('panic.attest')
def panic_attest(R, cfg):
    p = R.progs[cfg]
    if any(k.startswith('x509::') for k in p.bykey):
        R.expect(p.find('x509::der_encoding_to_ssh_public_key') is not None, 'entry point x509::der_encoding_to_ssh_public_key', 'x509', None, 'public parsing entry point not found')
    for f in entries(R, cfg, ATT, pub=False):
        run = R.explore(cfg, f, overrides=summaries(R, cfg, f.key), ckey='panic', max_steps=150000)
        report(R, run, f.key)


@rule('alloc.ssh')
def alloc_ssh(R, cfg):
    panic_ssh(R, cfg)


@rule('alloc.attest')
def alloc_attest(R, cfg):
    panic_attest(R, cfg)


@rule('panic.sign')
def panic_sign(R, cfg):
    """signing with any private key that decoding can produce"""
    p = R.progs[cfg]
    A = R.anch[cfg]
    dec = p.find('ssh::privkey::PrivateKey::from_bytes')
    sg = [f for f in p.fns.values() if f.impl_trait and f.impl_trait.endswith('SSHCertificateSigner') and f.method == 'sign' and 'PrivateKey' in f.key]
    if dec is None or not sg:
        return R.bad('entry points', 'PrivateKey', None, 'PrivateKey::from_bytes or its signer implementation not found')
    run = R.explore(cfg, dec, overrides=summaries(R, cfg, dec.key), ckey='panic', max_steps=150000)
    if run is None:
        return
    n = 0
    for o in run.oks():
        n += 1
        st = o.st.copy()
        st.ev = None
        k = o.ret.a[2]
        buf = P(sg[0], 2)
        r = R.explore(cfg, sg[0], overrides={**A.writer(False), **hw(p)}, args=[k, buf], st=st, max_steps=150000)
        report(R, r, f'{sg[0].key} on a decoded key')
        # conversions the crypto libraries call back on the key
        kind = getf(p, k, 'ssh::privkey::PrivateKey', 'kind')
        if kind.op == 'agg' and len(kind.a) > 2:
            for f in p.fns.values():
                if f.impl_trait and f.impl_trait.endswith('ToASN1') and kind.a[2].op == 'agg' and f.key.startswith(f'<{kind.a[2].a[0]} as '):
                    st = o.st.copy()
                    st.ev = None
                    args = [kind.a[2]] + [P(f, i) for i in range(2, f.body.argc + 1)]
                    report(R, R.explore(cfg, f, args=args, st=st, max_steps=150000), f'{f.key} on a decoded key')
    R.expect(n > 0, 'decoded keys exist', dec.key, dec.span, 'no successful decoding path found')
    for f in p.fns.values():
        if f.key.endswith('::sign_with_private_key') and f.key.startswith('fido::signing'):
            report(R, R.explore(cfg, f, overrides={'utils::format_signature_for_ssh': opaque(p.find('utils::format_signature_for_ssh'))}, ckey='panic', max_steps=150000), f.key)


def hw(p):
    return {f.key: opaque(f) for f in p.fns.values() if f.key.startswith('fido::signing') and '{' not in f.key}
