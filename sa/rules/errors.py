"""C35: errors name their own cause"""
from .common import *
from .cert import parse_run
from .privkey import container_run
from .sig import vs_run, facts

ERR = 'error::Error'
TYPES = [ERR, 'fido::Error', 'yubikey::piv::Error', 'ssh::allowed_signer::AllowedSignerParsingError']


def _parts(t):
    if t.op == 'seq':
        return list(t.a)
    return [('s', t)] if t is not EMPTY else []


def _alnum(b):
    return 48 <= b <= 57 or 65 <= b <= 90 or 97 <= b <= 122


@rule('error.text')
def text(R, cfg):
    prog, A = R.progs[cfg], R.anch[cfg]
    for ty in TYPES:
        if ty not in prog.adts:
            continue
        f = display_of(prog, ty)
        if f is None:
            R.bad('missing', ty, None, f'{ty} cannot be printed')
            continue
        run = R.explore(cfg, f)
        if run is None:
            continue
        me = P(f, 1)
        vs = prog.adts[ty]['variants']
        sk = {}
        for o in run.outs:
            v = o.facts.variant(me)
            t = displayed(o, f)
            if v is None or t is None:
                R.unsure(f'{ty}: text not located')
                continue
            if is_err(o):
                continue       # the sink failed
            name = vs[v]['name']
            ps = _parts(t)
            if imprecise(t) or not run.clean:
                R.unsure(f'{ty}::{name}: imprecise text')
                continue
            R.expect(bool(ps), f'{ty}:{name}:empty', f.key, f.span, f'{name} prints nothing')
            inner = False
            for i in range(len(vs[v]['fields'])):
                x = fld(me, v, i)
                shown = any(y is x for y in subterms(t))
                decided = o.facts.variant(x) is not None or any(y.op == 'fld' and x in subterms(y) and y is not x for y in o.facts.var)
                inner = inner or decided
                R.expect(shown or decided, f'{ty}:{name}:payload', f.key, f.span, f'the printed form of {name} leaves out what it carries: {cut(t)}')
            # a carried message is not run together with other text
            for j, p in enumerate(ps):
                if p[0] != 's' or p[1].op == 'bytes':
                    continue
                pre, post = ps[j - 1] if j else None, ps[j + 1] if j + 1 < len(ps) else None
                glue = pre and pre[0] == 's' and pre[1].op == 'bytes' and pre[1].a[0] and _alnum(pre[1].a[0][-1]) or post and post[0] == 's' and post[1].op == 'bytes' and post[1].a[0] and _alnum(post[1].a[0][0])
                R.expect(not glue, f'{ty}:{name}:glued', f.key, f.span, f'the message carried by {name} is printed with stray text: {cut(t)}')
            if not inner or ty != ERR:
                sk.setdefault(tuple(p[1].a[0] if p[0] == 's' and p[1].op == 'bytes' else None for p in ps), set()).add((v, name))
        for k, who in sk.items():
            if any(k_ for k_ in k):
                R.expect(len(who) == 1, f'{ty}:distinct', f.key, f.span, f'errors of different kinds print the same: {sorted(n for _, n in who)}')


@rule('error.from')
def conv(R, cfg):
    """an error taken over from a lower layer keeps it"""
    prog = R.progs[cfg]
    KEEP = {'Io': 'io::error::Error', 'Decode': 'base64::decode::DecodeError', 'Utf8Error': 'FromUtf8Error'}
    vs = variants(prog, ERR)
    for g in prog.fns.values():
        if g.impl_trait is None or not g.impl_trait.startswith('core::convert::From') or g.method != 'from':
            continue
        to = prog.tystr(g.impl_self)
        src = prog.tystr(g.body.tys[1])
        if to == ERR:
            run = R.explore(cfg, g)
            if run is None:
                continue
            for o in run.outs:
                if o.ret.op != 'agg':
                    R.unsure(f'{src}: not decided')
                    continue
                for n, s in KEEP.items():
                    if src.endswith(s):
                        R.same(run, f'from:{n}', o.ret, agg(ERR, vs[n], (P(g, 1),)), f'error made of {src}', o)
                if src.endswith('Unspecified'):
                    R.expect(o.ret.a[1] == vs['InvalidSignature'] or not run.clean, 'from:signature', g.key, g.span, 'a failed cryptographic check is not reported as an invalid signature')
        elif to == 'yubikey::piv::Error':
            run = R.explore(cfg, g)
            if run is None:
                continue
            for o in run.outs:
                R.expect(not run.clean or imprecise(o.ret) or any(x is P(g, 1) for x in subterms(o.ret)), 'from:token', g.key, g.span, f'the error reported by the token is dropped: {cut(o.ret)}')


def evar(o):
    """variant of the error returned on the path, or None"""
    if o.ret.op == 'agg' and o.ret.a[1] == 1 and len(o.ret.a) > 2:
        e = o.ret.a[2]
        return e.a[1] if e.op == 'agg' else o.facts.variant(e)
    return None


@rule('error.kind')
def kind(R, cfg):
    prog, A = R.progs[cfg], R.anch[cfg]
    ev = variants(prog, ERR)
    KT = 'ssh::keytype::KeyType'
    # names that are not known
    for key, want in ((f'{KT}::from_name', 'UnknownKeyType'), ('ssh::keytype::Curve::from_identifier', 'UnknownCurve')):
        f = prog.find(key)
        run = f and R.explore(cfg, f, ckey='plain')
        if run:
            for o in run.outs:
                if is_err(o):
                    R.same(run, want, o.ret.a[2], agg(ERR, ev[want], (P(f, 1),)), 'error for an unknown name', o)
    # certificates
    run, rp, ro = parse_run(R, cfg)
    if run is not None and A.pubkey_reader() and f'{KT}::from_name' in A.keytype():
        f = run.fn
        d = P(f, 1)
        kt = mk('kt', body(d, ZERO))
        isc = getf(prog, kt, KT, 'is_cert')
        o2 = aft_(d, aft_(d, ZERO))
        o4 = add(mk('afterpk', getf(prog, kt, KT, 'plain'), d, o2), I(8))
        ctype = at(d, o4, 4)
        for o in run.outs:
            v = evar(o)
            if v is None:
                continue
            F = o.facts
            if v == ev['NotCertificate']:
                R.expect(F.truth_of(isc) is False or not run.clean, 'not-certificate', f.key, f.span, 'a certificate is reported as not being one: ' + facts(o))
            elif F.truth_of(isc) is False:
                R.expect(reader_fail(o, d) or utf8_fail(o) or not run.clean, 'not-certificate', f.key, f.span, 'a key that is no certificate is not reported as such: ' + facts(o))
            c = [F.truth_of(eq(ctype, I(n))) for n in (1, 2)]
            if v == ev['InvalidCertType']:
                R.expect(c == [False, False] or not run.clean, 'cert-type', f.key, f.span, 'a regular certificate type is reported as invalid: ' + facts(o))
                R.same(run, 'cert-type-value', o.ret.a[2].a[2] if o.ret.a[2].op == 'agg' else o.ret.a[2], ctype, 'certificate type reported', o)
    # private keys
    c = container_run(R, cfg)
    if c is not None:
        run, d, z, pw = c
        f = run.fn
        for o in run.outs:
            v = evar(o)
            F = o.facts
            if v == ev['EncryptedPrivateKey']:
                plain = sum(1 for t, q in F.truth.items() if q and t.op == 'eq' and t.a[1].op == 'bytes' and t.a[1].a[0] == b'none')
                yes = {t.a[1].a[0] for t, q in F.truth.items() if q and t.op == 'eq' and t.a[1].op == 'bytes'}
                enc = any('bcrypt' in e[1] for q in run.outs for e in q.events() if e[0] == 'call')
                R.expect(not enc or {b'aes256-ctr', b'bcrypt'} <= yes or not run.clean, 'encrypted-how', f.key, f.span, 'a key encrypted in an unsupported way is reported as merely encrypted: ' + facts(o))
                R.expect((F.variant(pw) in (0, None) and plain < 2) or not run.clean, 'encrypted', f.key, f.span, 'a key is reported as encrypted although it is not, or although a passphrase was given: ' + facts(o))
            if v == ev['EncryptedPrivateKeyNotSupported']:
                yes = {t.a[1].a[0] for t, q in F.truth.items() if q and t.op == 'eq' and t.a[1].op == 'bytes'}
                plain = sum(1 for t, q in F.truth.items() if q and t.op == 'eq' and t.a[1].op == 'bytes' and t.a[1].a[0] == b'none')
                enc = any('bcrypt' in e[1] for q in run.outs for e in q.events() if e[0] == 'call')
                R.expect(not run.clean or not (plain == 2 or enc and b'aes256-ctr' in yes and b'bcrypt' in yes), 'supported', f.key, f.span, 'a supported kind of encryption is reported as unsupported: ' + facts(o))
    # a signature that does not verify
    run = vs_run(R, cfg)
    f = run and run.fn
    if run:
        for o in run.outs:
            if any(t.op == 'call' and t.a[0] == 'verify' and q == 1 for t, q in o.facts.var.items()):
                v = evar(o)
                if v is not None:
                    R.expect(v == ev['InvalidSignature'] or not run.clean, 'bad-signature', f.key, f.span, 'a signature that does not verify is reported as another error')
    # a signer that cannot sign
    for key in (f'{CERT}::sign',):
        f = prog.find(key)
        if f is None:
            continue
        run = R.explore(cfg, f, A.pure(f'{CERT}::tbs_certificate', f'{CERT}::add_signature'))
        if run is None:
            continue
        for o in run.outs:
            no = [t for t, q in o.facts.var.items() if t.op == 'call' and t.a[0].endswith('::sign') and q == 0]
            if no and is_err(o):
                v = evar(o)
                if v is not None:
                    R.expect(v == ev['SigningError'] or not run.clean, 'signing', f.key, f.span, 'a signer that gave no signature is reported as another error')
