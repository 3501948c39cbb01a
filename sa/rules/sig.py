"""Signature verification and the SSHSIG container."""
from .common import *
from .tables import const_eq

PKK = 'ssh::pubkey::PublicKeyKind'
ALG = {'rsa-sha2-256': 'RSA_PKCS1_2048_8192_SHA256', 'rsa-sha2-512': 'RSA_PKCS1_2048_8192_SHA512',
       'ssh-rsa': 'RSA_PKCS1_2048_8192_SHA1_FOR_LEGACY_USE_ONLY',
       'ecdsa-sha2-nistp256': 'ECDSA_P256_SHA256_FIXED', 'sk-ecdsa-sha2-nistp256@openssh.com': 'ECDSA_P256_SHA256_FIXED',
       'ecdsa-sha2-nistp384': 'ECDSA_P384_SHA384_FIXED', 'ssh-ed25519': 'ED25519', 'sk-ssh-ed25519@openssh.com': 'ED25519'}
FAMILY = {'Rsa': ('rsa-sha2-256', 'rsa-sha2-512', 'ssh-rsa'),
          'Ecdsa': ('ecdsa-sha2-nistp256', 'sk-ecdsa-sha2-nistp256@openssh.com', 'ecdsa-sha2-nistp384'),
          'Ed25519': ('ssh-ed25519', 'sk-ssh-ed25519@openssh.com')}
VS = f'{SIG}::verify_signature'


def algname(t):
    """last path segment of the static an algorithm term denotes"""
    if t.op == 'static':
        return t.a[0].split('::')[-1]
    return None


def vs_run(R, cfg):
    A, prog = R.anch[cfg], R.progs[cfg]
    f = R.fn(cfg, VS)
    if f is None or f.body.argc != 3 or 'PublicKey' not in prog.tystr(f.body.tys[3]):
        R.unsure('signature verification routine has another shape')
        return None
    run = R.explore(cfg, f, {**A.reader(), **A.keytype()}, ckey='vs')
    return run


def layout_of(sb):
    o1 = aft_(sb, ZERO)
    o2 = aft_(sb, o1)
    return o1, o2


def ecdsa_rs(sb):
    o1, o2 = layout_of(sb)
    p = add(o1, I(4))
    r_raw = body(sb, p)
    p2 = aft_(sb, p)
    s_raw = body(sb, p2)
    return mk('mpval', r_raw), mk('mpval', s_raw), p2, aft_(sb, p2)


@rule('sig.verify')
def verify(R, cfg):
    run = vs_run(R, cfg)
    if run is None:
        return
    prog = R.progs[cfg]
    f = run.fn
    sb, msg, pk = P(f, 1), P(f, 2), P(f, 3)
    L = length(sb)
    o1, o2 = layout_of(sb)
    name = body(sb, ZERO)
    kind = getf(prog, pk, PK, 'kind')
    kv = {i: n for n, i in variants(prog, PKK).items()}
    seen = set()
    for o in cases(run.outs, [(kind, len(kv))]):
        if o.ret.op != 'agg':
            R.unsure(f'verify_signature: unclassified return {cut(o.ret)}')
            continue
        k = kv.get(o.facts.variant(kind))
        label = const_eq(o, name)
        label = label.decode() if label is not None else None
        if o.ret.a[1] == 0:
            vers = [t for t, v in o.facts.var.items() if t.op == 'call' and t.a[0] == 'verify' and v == 0]
            if not vers:
                if run.clean and not imprecise(o.ret):
                    R.bad('unverified', f.key, f.span, f'success is reported without a successful cryptographic verification (key {k}, label {label})')
                else:
                    R.unsure('verify_signature: no verification located')
                continue
            if k is None:
                R.unsure('verify_signature: key kind not decided on a success path')
                continue
            if label is None or label not in FAMILY[k]:
                if run.clean:
                    R.bad(f'label:{k}', f.key, f.span, f'a signature labelled {label or "with an unchecked name"} is accepted for a key of kind {k}')
                continue
            seen.add(label)
            t = vers[-1]
            alg, key, m, s = t.a[1:5]
            a = algname(alg)
            if a is None:
                R.unsure(f'algorithm {cut(alg)}')
            else:
                R.expect(a == ALG[label], f'alg:{label}', f.key, f.span, f'label {label} is verified with {a}, expected {ALG[label]}')
            kx = {v: i for i, v in kv.items()}[k]
            rec = fld(kind, kx, 0)
            adt = {'Rsa': 'RsaPublicKey', 'Ecdsa': 'EcdsaPublicKey', 'Ed25519': 'Ed25519PublicKey'}[k]
            adt = 'ssh::pubkey::' + adt
            if k == 'Rsa':
                R.same(run, f'key:{label}', key, tup(getf(prog, rec, adt, 'n'), getf(prog, rec, adt, 'e')), 'RSA components verified against', o)
            else:
                R.same(run, f'key:{label}', key, getf(prog, rec, adt, 'key'), 'key verified against', o)
            # the signature value
            if k == 'Ecdsa':
                n = 48 if label.endswith('384') else 32
                r, s_, p2, e2 = ecdsa_rs(sb)
                want = cat(rep(ZERO, sub(I(n), length(r))), r, rep(ZERO, sub(I(n), length(s_))), s_)
                R.same(run, f'value:{label}', s, want, 'fixed-size r||s', o)
            else:
                R.same(run, f'value:{label}', s, body(sb, o1), 'signature value', o)
            # the message
            if k == 'Rsa':
                R.same(run, f'message:{label}', m, msg, 'message verified', o)
            else:
                app = getf(prog, rec, adt, 'sk_application')
                av = o.facts.variant(app)
                if av == 0:
                    R.same(run, f'message:{label}', m, msg, 'message verified', o)
                elif av == 1:
                    sha = [x for x in subterms(m) if x.op == 'digest']
                    want = sk_msg(prog, app, sb, o2, msg)
                    R.same(run, f'sk-message:{label}', m, want, 'message verified for a security-key signature', o)
                else:
                    if m is msg and run.clean:
                        R.bad(f'sk-ignored:{label}', f.key, f.span, f'a security key signature ({label}) is verified over the bare message')
                    else:
                        R.unsure(f'sk_application not decided for {label}')
        else:
            conds = [le(o1, L), mk('utf8', name), mk('ktknown', name)]
            neg_ = [le(L, ZERO)]
            j = any(o.facts.truth_of(c) is False for c in conds) or any(t.op == 'call' and v == 1 for t, v in o.facts.var.items())
            j = j or any(t.op == 'eq' and v is False and kindish(prog, pk, name, t) for t, v in o.facts.truth.items())
            j = j or o.facts.truth_of(le(o2, L)) is False
            if not j and k:
                j = all(o.facts.truth_of(eq(name, B(x.encode()))) is False for x in FAMILY[k])
                j = j or o.facts.truth_of(le(add(o2, I(5)), L)) is False or o.facts.truth_of(le(add(o2, ONE), L)) is False
                if not j and k == 'Ecdsa':
                    n = 48 if (label or '').endswith('384') else 32
                    r, s_, p2, e2 = ecdsa_rs(sb)
                    j = any(tv(o, c) is False for c in (le(p2, o2), le(e2, o2), le(length(r), I(n)), le(length(s_), I(n)))) \
                        or any(t.op == 'mpneg' and v is True for t, v in o.facts.truth.items())
            R.expect(j or not run.clean, 'reject', f.key, f.span, f'a genuine signature is rejected (key {k}, label {label}): ' + cut(', '.join((show(x) if v else 'not ' + show(x)) for x, v in list(o.facts.truth.items())[-3:])))
    if run.clean:
        for l in ALG:
            R.expect(l in seen, f'supported:{l}', f.key, f.span, f'no path accepts a signature labelled {l}')


def sk_msg(prog, app, sb, o2, msg):
    sha = mk('static', 'ring::digest::SHA256')
    a = fld(app, 1, 0)
    return cat(mk('digest', sha, a), slice_(sb, o2, add(o2, I(5))), mk('digest', sha, msg))


def kindish(prog, pk, name, t):
    KT = 'ssh::keytype::KeyType'
    a = getf(prog, getf(prog, pk, PK, 'key_type'), KT, 'kind')
    b = getf(prog, mk('kt', name), KT, 'kind')
    return t is eq(a, b)


# ------------------------------------------------------------------ SSHSIG
SS = f'{SIG}::SshSignature'
VSS = f'{SIG}::VerifiedSshSignature'
MAGIC = B(b'SSHSIG')


def tsf(R, cfg):
    """the routine producing the signed blob, located by signature (&SshSignature, &[u8]) -> Vec<u8>"""
    c = by_sig(R.progs[cfg], SIG, [lambda t: t.endswith('SshSignature') and t.startswith('&'), lambda t: t == '&[u8]'], lambda t: t == 'alloc::vec::Vec<u8>')
    return c[0] if len(c) == 1 else None


def hash_name(prog, h, o):
    v = o.facts.variant(h)
    n = {i: k for k, i in variants(prog, f'{SIG}::HashAlgorithm').items()}.get(v)
    return n


def signed_blob(prog, ss, msg, hn):
    alg = {'Sha256': 'SHA256', 'Sha512': 'SHA512'}[hn]
    return cat(MAGIC, lp(getf(prog, ss, SS, 'namespace')), lp(EMPTY), lp(B(hn.lower().encode())),
               lp(mk('digest', mk('static', f'ring::digest::{alg}'), msg)))


@rule('sshsig.blob')
def blob(R, cfg):
    prog = R.progs[cfg]
    f = tsf(R, cfg)
    if f is None:
        return R.unsure('signed-blob routine not located')
    run = R.explore(cfg, f)
    if run is None:
        return
    ss, msg = P(f, 1), P(f, 2)
    seen = set()
    for o in cases(run.outs, [(getf(prog, ss, SS, 'hash_algorithm'), 2)]):
        hn = hash_name(prog, getf(prog, ss, SS, 'hash_algorithm'), o)
        if hn is None:
            R.unsure('signed blob: hash not decided')
            continue
        seen.add(hn)
        R.same(run, f'blob:{hn}', o.ret, signed_blob(prog, ss, msg, hn), 'signed blob', o)


@rule('sshsig.binding')
def binding(R, cfg):
    prog, A = R.progs[cfg], R.anch[cfg]
    f = R.fn(cfg, f'{VSS}::from_ssh_signature')
    b = tsf(R, cfg)
    if f is None:
        return R.bad('missing', VSS, None, 'from_ssh_signature is gone')
    run = R.explore(cfg, f, A.pure(VS, *([b.key] if b else [])))
    if run is None:
        return
    msg, ss, ns, pin = P(f, 1), P(f, 2), P(f, 3), P(f, 4)
    g = lambda n: getf(prog, ss, SS, n)
    n = 0
    for o in run.outs:
        if o.ret.op != 'agg':
            R.unsure('from_ssh_signature: unclassified return')
            continue
        F = o.facts
        if o.ret.a[1] == 0:
            n += 1
            v = [t for t, q in F.var.items() if t.op == 'call' and t.a[0] == VS and q == 0]
            if b is not None:
                wants = [mk('call', b.key, ss, msg)]
            else:
                hn = hash_name(prog, g('hash_algorithm'), o)
                wants = [signed_blob(prog, ss, msg, hn)] if hn else []
            if not v:
                R.expect(not run.clean, 'unverified', f.key, f.span, 'a signature is reported as verified without a successful verification')
                continue
            okk = any(t.a[1] is g('signature') and t.a[2] in wants and t.a[3] is g('pubkey') for t in v)
            if not okk:
                t = v[0]
                R.mismatch(run, 'verify-args', tup(t.a[1], t.a[2], t.a[3]), tup(g('signature'), wants[0] if wants else UNIT, g('pubkey')), o, 'signature, message or key passed to verification')
            else:
                R.good('verified over the signed blob')
            R.expect(F.truth_of(eq(ns, g('namespace'))) is True or not run.clean, 'namespace', f.key, f.span, 'a signature is accepted although its namespace was not found equal to the expected one: ' + facts(o))
            pv = F.variant(pin)
            if pv == 1:
                e = F.truth_of(eq(fld(pin, 1, 0), g('pubkey')))
                e2 = pinned_by_fields(prog, o, fld(pin, 1, 0), g('pubkey'))
                R.expect(e is True or e2 or not run.clean, 'pinned-key', f.key, f.span, 'a signature is accepted although the pinned key was not found equal to the signing key: ' + facts(o))
            elif pv is None:
                R.expect(not run.clean, 'pinned-key', f.key, f.span, 'a success path never looks at the pinned key')
            r = o.ret.a[2]
            R.same(run, 'result-signature', getf(prog, r, VSS, 'signature'), ss, 'returned signature', o)
            R.same(run, 'result-message', getf(prog, r, VSS, 'message'), msg, 'returned message', o)
        else:
            j = any(t.op == 'call' and t.a[0] == VS and q == 1 for t, q in F.var.items()) or F.truth_of(eq(ns, g('namespace'))) is False \
                or F.variant(pin) == 1
            R.expect(j or not run.clean, 'reject', f.key, f.span, 'a valid signature is rejected: ' + facts(o))
    if n == 0 and run.clean:
        R.bad('never', f.key, f.span, 'no path accepts')


def pinned_by_fields(prog, o, a, b):
    """equality of key type and key material"""
    return o.facts.truth_of(eq(getf(prog, a, PK, 'kind'), getf(prog, b, PK, 'kind'))) is True and \
        o.facts.truth_of(eq(getf(prog, a, PK, 'key_type'), getf(prog, b, PK, 'key_type'))) is True


def facts(o):
    return cut(', '.join((show(k) if v else 'not ' + show(k)) for k, v in list(o.facts.truth.items())[-4:]), 300)


@rule('sshsig.create')
def create(R, cfg):
    """new_with_private_key signs the blob of its own message/namespace/hash and verifies before returning"""
    prog, A = R.progs[cfg], R.anch[cfg]
    b = tsf(R, cfg)
    f = R.fn(cfg, f'{VSS}::new_with_private_key')
    FS = f'{VSS}::from_ssh_signature'
    if f is None or b is None or R.fn(cfg, FS) is None:
        return R.unsure('new_with_private_key or its helpers not located')
    signs = [g.key for g in prog.fns.values() if g.method == 'sign' and g.impl_trait and 'SSHCertificateSigner' in g.impl_trait and 'PrivateKey' in prog.tystr(g.impl_self)]
    run = R.explore(cfg, f, A.pure(b.key, FS, *signs))
    if run is None:
        return
    msg, ns, pkey, h = (P(f, i) for i in (1, 2, 3, 4))
    PRK = 'ssh::privkey::PrivateKey'
    pub = getf(prog, pkey, PRK, 'pubkey')
    for o in run.outs:
        cs = [e for e in o.events() if e[0] == 'call' and e[1] == FS]
        if is_err(o) and not cs:
            j = any(t.op == 'call' and t.a[0] in signs and v == 0 for t, v in o.facts.var.items())
            R.expect(j or not run.clean, 'create:reject', f.key, f.span, 'signing fails without cause: ' + facts(o))
            continue
        if not cs:
            R.expect(not run.clean, 'create:unverified', f.key, f.span, 'a signature is returned without having been verified')
            continue
        m, ss, n, pin = cs[-1][2][:4]
        R.same(run, 'create:message', m, msg, 'message verified', o)
        R.same(run, 'create:namespace', n, ns, 'namespace verified', o)
        R.same(run, 'create:ns-field', getf(prog, ss, SS, 'namespace'), ns, 'namespace stored', o)
        R.same(run, 'create:pubkey', getf(prog, ss, SS, 'pubkey'), pub, 'public key stored', o)
        ha = getf(prog, ss, SS, 'hash_algorithm')
        hv = o.facts.variant(h)
        vs = variants(prog, f'{SIG}::HashAlgorithm')
        if hv == 1:
            R.same(run, 'create:hash', ha, fld(h, 1, 0), 'hash algorithm', o)
        elif hv == 0:
            R.same(run, 'create:default-hash', ha, agg(f'{SIG}::HashAlgorithm', vs['Sha512'], ()), 'default hash algorithm', o)
        sg = getf(prog, ss, SS, 'signature')
        if sg.op == 'fld' and sg.a[0].op == 'call' and sg.a[0].a[0] in signs:
            R.same(run, 'create:signer', sg.a[0].a[1], pkey, 'signing key', o)
            t = sg.a[0].a[2]
            if t.op == 'call' and t.a[0] == b.key:
                s0 = t.a[1]
                R.same(run, 'create:signed-message', t.a[2], msg, 'message signed', o)
                R.same(run, 'create:signed-ns', getf(prog, s0, SS, 'namespace'), ns, 'namespace signed', o)
                R.same(run, 'create:signed-hash', getf(prog, s0, SS, 'hash_algorithm'), ha, 'hash signed', o)
            else:
                R.mismatch(run, 'create:tbs', t, mk('call', b.key, ss, msg), o, 'bytes signed')
        else:
            R.mismatch(run, 'create:signature', sg, ss, o, 'stored signature is not the signer output')


@rule('sshsig.parse')
def parse(R, cfg):
    prog, A = R.progs[cfg], R.anch[cfg]
    f = R.fn(cfg, f'{SS}::from_reader')
    FB = f'{PK}::from_bytes'
    if f is None:
        return R.unsure('SshSignature::from_reader not located')
    run = R.explore(cfg, f, {**A.reader(), **A.pure(FB)})
    if run is None or A.ri is None:
        return
    d, z = fld(P(f, 1), 0, A.ri), fld(P(f, 1), 0, A.ro)
    L = length(d)
    o1 = add(z, I(6))
    o2 = add(o1, I(4))
    o3 = aft_(d, o2)
    o4 = aft_(d, o3)
    o5 = aft_(d, o4)
    o6 = aft_(d, o5)
    o7 = aft_(d, o6)
    ver = at(d, o1, 4)
    ns = body(d, o3)
    hn = body(d, o5)
    pk = mk('call', FB, body(d, o2))
    hv = {i: n for n, i in variants(prog, f'{SIG}::HashAlgorithm').items()}
    magic = eq(slice_(d, z, o1), MAGIC)
    nslen = at(d, o3, 4)
    seen = set()
    for o in run.outs:
        F = o.facts
        if o.ret.op != 'agg':
            R.unsure('from_reader: unclassified return')
            continue
        if o.ret.a[1] == 0:
            r = o.ret.a[2]
            R.expect(F.truth_of(magic) is True or not run.clean, 'magic', f.key, f.span, 'input without the SSHSIG preamble is accepted: ' + facts(o))
            R.expect(F.truth_of(eq(ver, ONE)) is True or not run.clean, 'version', f.key, f.span, 'a version other than 1 is accepted: ' + facts(o))
            R.expect(F.truth_of(eq(nslen, ZERO)) is False or F.truth_of(eq(length(ns), ZERO)) is False or not run.clean, 'namespace-empty', f.key, f.span, 'an empty namespace is accepted: ' + facts(o))
            R.same(run, 'pubkey', getf(prog, r, SS, 'pubkey'), fld(pk, 0, 0), 'public key', o)
            R.same(run, 'namespace', getf(prog, r, SS, 'namespace'), ns, 'namespace', o)
            R.same(run, 'signature', getf(prog, r, SS, 'signature'), body(d, o6), 'signature', o)
            h = getf(prog, r, SS, 'hash_algorithm')
            c = const_eq(o, hn)
            if h.op == 'agg':
                w = hv[h.a[1]].lower().encode()
                seen.add(w)
                R.expect(c == w or not run.clean, 'hash', f.key, f.span, f'hash algorithm {w.decode()} is selected for the name {c!r}')
            else:
                R.unsure('hash algorithm ' + cut(h))
        else:
            conds = [le(o1, L), le(o2, L), le(o3, L), le(o4, L), le(o5, L), le(o6, L), le(o7, L), magic, eq(ver, ONE), mk('utf8', ns), mk('utf8', body(d, o4)), mk('utf8', hn)]
            j = any(tv(o, c) is False for c in conds) or F.truth_of(eq(nslen, ZERO)) is True or F.truth_of(eq(length(ns), ZERO)) is True \
                or F.variant(pk) == 1 or all(F.truth_of(eq(hn, B(x))) is False for x in (b'sha256', b'sha512')) or F.truth_of(le(L, z)) is True
            R.expect(j or not run.clean, 'reject', f.key, f.span, 'a well-formed signature is rejected: ' + facts(o))
    if run.clean:
        R.expect(seen >= {b'sha256', b'sha512'}, 'hashes', f.key, f.span, 'not every hash algorithm is accepted')


@rule('sshsig.write')
def write(R, cfg):
    """Display emits the armoured container the parser reads"""
    prog, A = R.progs[cfg], R.anch[cfg]
    fs = [g for g in prog.fns.values() if g.impl_trait == 'core::fmt::Display' and g.method == 'fmt' and prog.tystr(g.impl_self).endswith('::SshSignature')]
    if len(fs) != 1:
        return R.unsure('Display for SshSignature not located')
    f = fs[0]
    run = R.explore(cfg, f, {**A.writer(), f'ssh::writer::Writer::write_pub_key': lambda c: A.wr_append(c, mk('pubkey', c.val(1)))})
    if run is None:
        return
    ss = P(f, 1)
    g = lambda n: getf(prog, ss, SS, n)
    for o in cases(run.outs, [(g('hash_algorithm'), 2)]):
        hn = hash_name(prog, g('hash_algorithm'), o)
        if hn is None:
            R.unsure('Display: hash not decided')
            continue
        want = cat(MAGIC, be(4, ONE), mk('pubkey', g('pubkey')), lp(g('namespace')), lp(EMPTY), lp(B(hn.lower().encode())), lp(g('signature')))
        # find the base64 input on the path
        enc = [e for e in o.events() if e[0] == 'call' and e[1].startswith('base64::') and 'encode' in e[1]]
        ins = [e[2][0] for e in enc] or [x.a[1] for e in o.st.cells.values() for x in subterms(e) if x.op == 'call' and x.a[0].startswith('base64::') and 'encode' in x.a[0]]
        if not ins:
            R.unsure('Display: base64 input not located')
            continue
        for x in ins[:1]:
            R.same(run, f'container:{hn}', x, want, 'SSHSIG container', o)
        t = displayed(o, f)
        if t is None or imprecise(t) or not run.clean:
            R.unsure('Display: text not followed')
            continue
        ps = parts_of(t)
        a, z = ps[0][1], ps[-1][1]
        if len(ps) < 2 or a.op != 'bytes' or z.op != 'bytes':
            R.unsure('Display: text ' + cut(t))
            continue
        R.expect(a.a[0] == b'-----BEGIN SSH SIGNATURE-----\n', 'header', f.key, f.span, f'the text starts with {a.a[0][:60]!r}')
        R.expect(z.a[0].rstrip(b'\n') == b'\n-----END SSH SIGNATURE-----', 'footer', f.key, f.span, f'the text ends with {z.a[0][-60:]!r}')
        b64 = next((x for x in subterms(t) if x.op == 'call' and str(x.a[0]).startswith('base64::')), None)
        R.expect(b64 is not None and not loses(cat(*(x for _, x in ps[1:-1])) if len(ps) != 3 else ps[1][1], b64), 'body', f.key, f.span, f'the text between the markers is not all of the base64 text: {cut(t)}')
        for x in subterms(t):
            if x.op == 'join' and x.a[0].op in ('cmap', 'mapf') and x.a[-1].op == 'bytes':
                R.expect(x.a[-1].a[0] in (b'\n', b'\r\n'), 'separator', f.key, f.span, f'the lines are joined with {x.a[-1].a[0]!r}')


@rule('sshsig.armor')
def armor(R, cfg):
    A = R.anch[cfg]
    f = R.fn(cfg, f'{SS}::from_armored_string')
    FR = f'{SS}::from_reader'
    if f is None:
        return R.bad('missing', SS, None, 'from_armored_string is gone')
    run = R.explore(cfg, f, A.pure(FR))
    if run is None:
        return
    ls = mk('lines', P(f, 1))
    beg, end = B(b'-----BEGIN SSH SIGNATURE-----'), B(b'-----END SSH SIGNATURE-----')

    def at_end(F):
        return any(k.op == 'eq' and v is True and end in k.a and any(x.op == 'elem' and x.a[0] is ls for x in k.a) for k, v in F.truth.items())

    def flagged(run, F):
        """a flag of the loop, false before it, that only a round reading the END line raises"""
        for k, v in F.truth.items():
            if k.op != 'lv' or v is not True:
                continue
            info = next((i for i in run.it.loops.values() if k in i['init']), None)
            if info and info['init'][k] is FALSE and all(m.get(k, k) is k or m[k] is FALSE or m[k] is TRUE and at_end(G) for m, G in zip(info['steps'], info['sfacts'])):
                return True
        return False
    for o in run.outs:
        F = o.facts
        if o.ret.op != 'agg':
            R.unsure('from_armored_string: unclassified return')
            continue
        if o.ret.a[1] == 0:
            if not any(x.op == 'lines' for k in F.truth for x in subterms(k)):
                R.unsure('from_armored_string: not line based')
                continue
            R.expect(F.truth_of(eq(elem(ls, ZERO), beg)) is True or not run.clean, 'begin', f.key, f.span, 'input without the BEGIN line is accepted: ' + facts(o))
            R.expect(at_end(F) or flagged(run, F) or not run.clean,
                     'end', f.key, f.span, 'input without the END line is accepted: ' + facts(o))
            src = [t.a[1] for t, v in F.var.items() if t.op == 'call' and t.a[0].startswith('base64::') and v == 0]
            for s in src[:1]:
                info = next((i for i in run.it.loops.values() if s in i['init']), None)
                if info is None:
                    R.unsure('from_armored_string: body ' + cut(s))
                    continue
                for m, G in zip(info['steps'], info['sfacts']):
                    ns = m.get(s, s)
                    if ns is s and at_end(G):
                        R.good('the END line is not decoded')
                        continue
                    ps = parts_of(ns)
                    good = len(ps) == 2 and ps[0] == ('s', s) and ps[1][1].op == 'elem' and ps[1][1].a[0] is ls
                    if good or any(x.op in ('trim',) for x in subterms(ns)):
                        R.good('every line between the markers is decoded')
                    else:
                        R.expect(not run.clean, 'body', f.key, f.span, f'a line between the markers is not decoded as it stands: {cut(ns)}')
