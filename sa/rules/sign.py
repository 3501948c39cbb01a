"""Producing signatures: software keys, FIDO tokens, PIV tokens, and the SSH signature blob they are wrapped in."""
from .common import *
from .sig import facts, algname
from .privkey import PRIV, PVK, PKK, KT, NONE

FMT = 'utils::format_signature_for_ssh'
SIGNER = '<ssh::privkey::PrivateKey as ssh::SSHCertificateSigner>::sign'
RSA = {'RSA_PKCS1_SHA512': b'rsa-sha2-512', 'RSA_PKCS1_SHA256': b'rsa-sha2-256'}


def unwrap_fmt(o):
    """(public key, signature bytes, rest) of a returned format_signature_for_ssh value, or None"""
    r = o.ret
    if r.op == 'call' and r.a[0] == FMT:
        return r.a[1], r.a[2], []
    if r.op == 'agg' and r.a[1] == 1:
        ps = parts_of(r.a[2]) if is_bytes(r.a[2]) or r.a[2].op in ('seq', 'fld') else [('s', r.a[2])]
        x = ps[0][1]
        if x.op == 'fld' and x.a[0].op == 'call' and x.a[0].a[0] == FMT:
            return x.a[0].a[1], x.a[0].a[2], ps[1:]
    return None


@rule('sign.format')
def fmt(R, cfg):
    """the blob names the algorithm of the public key and carries the signature (ECDSA: DER r, s as two mpints)"""
    prog = R.progs[cfg]
    f = R.fn(cfg, FMT)
    if f is None:
        return R.bad('missing', FMT, None, 'format_signature_for_ssh is gone')
    run = R.explore(cfg, f)
    if run is None:
        return
    pk, s = P(f, 1), P(f, 2)
    kind = getf(prog, pk, PK, 'kind')
    kv = {i: n for n, i in variants(prog, PKK).items()}
    name = getf(prog, getf(prog, pk, PK, 'key_type'), KT, 'name')
    r, sv, conds = der_rs(s)
    want = {'Ecdsa': cat(lp(name), lp(cat(lp(r), lp(sv)))), 'Ed25519': cat(lp(name), lp(s)), 'Rsa': cat(lp(B(b'rsa-sha2-512')), lp(s))}
    seen = set()
    for o in cases(run.outs, [(kind, len(kv))]):
        k = kv.get(o.facts.variant(kind))
        if k is None or o.ret.op != 'agg':
            R.unsure('format: key kind or result not decided')
            continue
        if o.ret.a[1] == 1:
            seen.add(k)
            R.same(run, f'blob:{k}', norm_der(o, o.ret.a[2], s), norm_der(o, want[k], s), f'signature blob for {k} keys', o)
            if k == 'Ecdsa':
                for key, c in conds:
                    t = tv(o, c)
                    if key.startswith('tag'):
                        R.expect(t is True or not run.clean, key, f.key, f.span, f'a value that is not a DER ECDSA signature is accepted ({key})')
        else:
            j = k == 'Ecdsa' and der_invalid(o, s, conds)
            R.expect(j or not run.clean, f'reject:{k}', f.key, f.span, f'a correct {k} signature is refused: ' + facts(o))
    if run.clean:
        for k in want:
            R.expect(k in seen, f'supported:{k}', f.key, f.span, f'no signature of a {k} key can be formatted')


def der_rs(s):
    rl = elem(s, I(3))
    r = slice_(s, I(4), add(I(4), rl))
    p = add(I(4), rl)
    sl = elem(s, add(p, ONE))
    q = add(p, I(2))
    sv = slice_(s, q, add(q, sl))
    conds = [('tag sequence', eq(elem(s, ZERO), I(0x30))), ('tag r', eq(elem(s, I(2)), I(2))), ('tag s', eq(elem(s, p), I(2))),
             ('length s', eq(sub(length(s), q), sl)), ('length', le(I(4), length(s))), ('length r', le(add(q, ONE), length(s))), ('length r', le(add(p, ONE), length(s))),
             ('length r', le(p, length(s))), ('length seq', eq(elem(s, ONE), sub(length(s), I(2)))), ('length', le(I(8), length(s))), ('length', le(q, length(s)))]
    return r, sv, conds


def norm_der(o, t, s):
    """write every equal description of the length of s the same way"""
    rl = elem(s, I(3))
    sl = elem(s, add(add(I(4), rl), ONE))
    if o.facts.truth_of(eq(sub(length(s), add(rl, I(6))), sl)) is True:
        return subst(t, {length(s): add(add(rl, sl), I(6))})
    return t


def der_invalid(o, s, conds):
    return any(tv(o, c) is False for _, c in conds)


@rule('sign.software')
def software(R, cfg):
    """every signature is made over the given bytes with the stored secret and wrapped for the stored public key"""
    prog, A = R.progs[cfg], R.anch[cfg]
    f = R.fn(cfg, SIGNER)
    if f is None:
        return R.unsure('PrivateKey signer not located')
    fido = [g.key for g in prog.fns.values() if g.key.endswith('::sign_with_private_key')]
    run = R.explore(cfg, f, A.pure(FMT, *fido))
    if run is None:
        return
    s, msg = P(f, 1), P(f, 2)
    kind, pk = getf(prog, s, PRIV, 'kind'), getf(prog, s, PRIV, 'pubkey')
    pkind = getf(prog, pk, PK, 'kind')
    kv = {i: n for n, i in variants(prog, PVK).items()}
    pv = variants(prog, PKK)
    cv = {i: n for n, i in variants(prog, 'ssh::keytype::CurveKind').items()}
    seen = set()
    for o in cases(run.outs, [(kind, len(kv))]):
        v = o.facts.variant(kind)
        k = kv.get(v)
        if k is None:
            R.unsure('sign: key kind not decided')
            continue
        rec = fld(kind, v, 0)
        adt = f'ssh::privkey::{k}PrivateKey'
        if o.ret.op == 'agg' and o.ret.a[1] == 0:
            if k.endswith('Sk') and fido:
                R.expect(failed(o) or _none(o) or not run.clean, f'none:{k}', f.key, f.span, f'a {k} key never reaches its token')
                continue
            j = failed(o) or any(t.op == 'call' and q == 0 and t.a[0] in [FMT] + fido for t, q in o.facts.var.items())
            j = j or o.facts.variant(pkind) not in (None, pv[k.replace('Sk', '')]) or k.endswith('Sk') or (k == 'Rsa' and cfg not in RSA)
            if k == 'Ecdsa':
                ck = getf(prog, getf(prog, rec, adt, 'curve'), 'ssh::keytype::Curve', 'kind')
                key = getf(prog, rec, adt, 'key')
                j = j or cv.get(o.facts.variant(ck)) == 'Nistp521' or o.facts.truth_of(eq(length(key), ZERO)) is True or any(q is True and t.op == 'le0' or t.op == 'le0' for t, q in o.facts.truth.items())
                j = j or o.facts.variant(pkind) is None and not any(t.op == 'call' for t in o.facts.var)
            if k == 'Ed25519':
                key = getf(prog, rec, adt, 'key')
                j = j or tv(o, le(I(32), length(key))) is False or o.facts.truth_of(eq(length(key), I(64))) is False
                j = j or o.facts.variant(pkind) is None and not any(t.op == 'call' for t in o.facts.var)
            R.expect(j or not run.clean, f'none:{k}', f.key, f.span, f'signing with a usable {k} key fails: ' + facts(o))
            continue
        if o.ret.op == 'call' and o.ret.a[0] in fido:
            seen.add(k)
            R.expect(k.endswith('Sk') or not run.clean, f'token:{k}', f.key, f.span, f'a {k} key is signed for by a token')
            R.same(run, f'token-key:{k}', o.ret.a[1], s, 'key handed to the token', o)
            R.same(run, f'token-message:{k}', o.ret.a[2], msg, 'bytes handed to the token', o)
            continue
        u = unwrap_fmt(o)
        if u is None:
            R.unsure(f'sign: result not located for {k}: {cut(o.ret)}')
            continue
        p, sg, rest = u
        if imprecise(sg):
            R.unsure(f'sign: signature imprecise {cut(sg)}')
            continue
        seen.add(k)
        R.same(run, f'public:{k}', p, pk, 'public key the signature is labelled with', o)
        R.expect(not rest or not run.clean, f'trailing:{k}', f.key, f.span, 'bytes are appended to the signature blob')
        if k == 'Ed25519':
            c = [x for x in subterms(sg) if x.op == 'call' and x.a[0].endswith('Ed25519KeyPair::sign')]
            if not c or sg is not c[0]:
                R.unsure('sign: ed25519 ' + cut(sg))
                continue
            R.same(run, 'message:Ed25519', c[0].a[2], msg, 'bytes signed', o)
            kp = [x for x in subterms(c[0].a[1]) if x.op == 'call' and 'from_seed' in x.a[0]]
            if kp:
                R.same(run, 'secret:Ed25519', kp[0].a[1], slice_(getf(prog, rec, adt, 'key'), ZERO, I(32)), 'seed', o)
                if 'and_public_key' in kp[0].a[0]:
                    R.same(run, 'pair:Ed25519', kp[0].a[2], getf(prog, fld(pkind, pv['Ed25519'], 0), 'ssh::pubkey::Ed25519PublicKey', 'key'), 'public key the seed is checked against', o)
                else:
                    R.bad('pair:Ed25519', f.key, f.span, 'the seed is not checked against the public key the signature is labelled with')
        elif k == 'Ecdsa':
            x = sg.a[0] if sg.op == 'fld' else sg
            if x.op != 'call' or not x.a[0].endswith('EcdsaKeyPair::sign'):
                R.unsure('sign: ecdsa ' + cut(sg))
                continue
            R.same(run, 'message:Ecdsa', x.a[3], msg, 'bytes signed', o)
            kp = [y for y in subterms(x.a[1]) if y.op == 'call' and y.a[0].endswith('from_private_key_and_public_key')]
            if not kp:
                R.unsure('sign: ecdsa key pair')
                continue
            kp = kp[0]
            ck = cv.get(o.facts.variant(getf(prog, getf(prog, rec, adt, 'curve'), 'ssh::keytype::Curve', 'kind')))
            a = algname(kp.a[1])
            R.expect((ck, a) in (('Nistp256', 'ECDSA_P256_SHA256_ASN1_SIGNING'), ('Nistp384', 'ECDSA_P384_SHA384_ASN1_SIGNING')) or a is None or ck is None, f'curve:{ck}', f.key, f.span,
                     f'a key on curve {ck} signs with {a}')
            key = getf(prog, rec, adt, 'key')
            w = 48 if ck == 'Nistp384' else 32
            st = key
            if o.facts.truth_of(eq(elem(key, ZERO), ZERO)) is True:
                st = slice_(key, ONE, length(key))
            full = cat(rep(ZERO, sub(I(w), length(st))), st)
            if kp.a[2] is st and tv(o, le(I(w), length(st))) is True:
                full = st
            R.same(run, 'secret:Ecdsa', kp.a[2], full, 'private scalar', o)
            R.same(run, 'pair:Ecdsa', kp.a[3], getf(prog, fld(pkind, pv['Ecdsa'], 0), 'ssh::pubkey::EcdsaPublicKey', 'key'), 'public key the scalar is checked against', o)
        elif k == 'Rsa':
            x = [y for y in subterms(sg) if y.op == 'outbuf' and 'sign' in str(y.a[1])]
            c = [t for t, q in o.facts.var.items() if t.op == 'call' and t.a[0].endswith('KeyPair::sign') and q == 0]
            if not x or not c or sg is not x[0]:
                R.unsure('sign: rsa ' + cut(sg))
                continue
            c = c[-1]
            R.expect(algname(c.a[2]) == 'RSA_PKCS1_SHA512' or algname(c.a[2]) is None, 'hash:Rsa', f.key, f.span, f'RSA signatures are made with {algname(c.a[2])} but labelled rsa-sha2-512')
            R.same(run, 'message:Rsa', c.a[4], msg, 'bytes signed', o)
            R.expect(rec in subterms(c.a[1]) or not run.clean, 'secret:Rsa', f.key, f.span, 'the RSA key used is not the stored one')
    if run.clean:
        need = {'Ecdsa', 'Ed25519'} | ({'Rsa'} if cfg in RSA else set()) | ({'EcdsaSk', 'Ed25519Sk'} if fido else set())
        for k in need:
            R.expect(k in seen, f'supported:{k}', f.key, f.span, f'no path signs with a {k} key')


@rule('sign.rsader')
def rsader(R, cfg):
    """the PKCS#1 structure handed to the RSA signer holds the key's own components in PKCS#1 order"""
    prog = R.progs[cfg]
    RK = 'ssh::privkey::RsaPrivateKey'
    fs = [f for f in prog.fns.values() if f.impl_trait and f.impl_trait.endswith('ToASN1') and f.method == 'to_asn1_class' and f.key.startswith(f'<{RK} as')]
    if not fs:
        return
    f = fs[0]
    run = R.explore(cfg, f)
    if run is None:
        return
    s = P(f, 1)
    for o in run.oks():
        v = o.ret.a[2]
        if v.op != 'seq' or len(v.a) != 1 or v.a[0][0] != 'e' or v.a[0][1].op != 'agg' or len(v.a[0][1].a) != 4:
            R.unsure('der: structure not located')
            continue
        items = v.a[0][1].a[3]
        got = [x[1] for x in items.a] if items.op == 'seq' and all(x[0] == 'e' for x in items.a) else None
        if got is None:
            R.unsure('der: sequence not located')
            continue
        R.expect(len(got) == 9 or not run.clean, 'der:count', f.key, f.span, f'{len(got)} integers instead of the nine of PKCS#1')
        if len(got) != 9:
            continue
        for i, n in enumerate(('n', 'e', 'd', 'p', 'q', 'exp', 'exq', 'coefficient')):
            want = getf(prog, s, RK, n)
            if n in ('exp', 'exq'):
                want = fld(want, 1, 0)
            b = got[i + 1]
            b = b.a[-1] if b.op == 'agg' else b
            if b.op == 'call' and b.a[0].endswith('from_bytes_be'):
                R.same(run, f'der:{n}', b.a[-1], want, f'component {i + 1} of the PKCS#1 structure', o)
            else:
                R.unsure(f'der: integer {n} not located')


def _none(o):
    return any(t.op == 'call' and q == 0 for t, q in o.facts.var.items())


@rule('sign.fido')
def fido(R, cfg):
    """token signatures: right application, message hash, credential; blob || flags || counter"""
    prog, A = R.progs[cfg], R.anch[cfg]
    fs = [g for g in prog.fns.values() if g.key.startswith('fido::') and g.key.endswith('::sign_with_private_key')]
    for f in fs:
        run = R.explore(cfg, f, A.pure(FMT))
        if run is None:
            continue
        s, msg = P(f, 1), P(f, 2)
        kind, pk = getf(prog, s, PRIV, 'kind'), getf(prog, s, PRIV, 'pubkey')
        pkind = getf(prog, pk, PK, 'kind')
        kv = {i: n for n, i in variants(prog, PVK).items()}
        pn = {i: n for n, i in variants(prog, PKK).items()}
        mozilla = 'mozilla' in f.key
        n = 0
        for o in run.outs:
            if o.ret.op != 'agg' or o.ret.a[1] != 1:
                continue
            u = unwrap_fmt(o)
            if u is None:
                R.unsure(f'{f.key}: result not located: {cut(o.ret)}')
                continue
            n += 1
            v = o.facts.variant(kind)
            k = kv.get(v)
            if k not in ('EcdsaSk', 'Ed25519Sk'):
                R.expect(not run.clean or k is None, 'kind', f.key, f.span, f'a token signs for a {k} key')
                continue
            rec = fld(kind, v, 0)
            V = lambda x: getf(prog, rec, f'ssh::privkey::{k}PrivateKey', x)
            p, sg, rest = u
            R.same(run, 'public', p, pk, 'public key the signature is labelled with', o)
            pvn = o.facts.variant(pkind)
            if pvn is None:
                R.unsure('application not decided')
                continue
            app = fld(getf(prog, fld(pkind, pvn, 0), f'ssh::pubkey::{pn[pvn]}PublicKey', 'sk_application'), 1, 0)
            calls = [t for t in o.facts.var if t.op == 'call'] + [x.a[0] for x in o.facts.truth if x.op == 'is' and x.a[0].op == 'call']
            if mozilla:
                sa = [x for c in calls for x in subterms(c) if x.op == 'agg' and str(x.a[0]).endswith('::SignArgs')]
                if not sa:
                    R.unsure('signing arguments not located')
                    continue
                adt = next(a for a in prog.adts if a.endswith('::SignArgs'))
                G = lambda x: getf(prog, sa[-1], adt, x)
                R.same(run, 'message', G('client_data_hash'), mk('digest', mk('static', 'ring::digest::SHA256'), msg), 'client data hash', o)
                R.same(run, 'application', G('relying_party_id'), app, 'relying party', o)
                R.expect(V('handle') in subterms(G('allow_list')) or not run.clean, 'credential', f.key, f.span, f'the credential offered is not the key handle: {cut(G("allow_list"))}')
                fb = [x for x in prog.adts if x.endswith('attestation::AuthenticatorData')]
                ga = [x for x in prog.adts if x.endswith('get_assertion::Assertion')]
                if fb and ga and sg.op == 'fld':
                    asrt = sg.a[0]
                    R.same(run, 'value', sg, getf(prog, asrt, ga[0], 'signature'), 'signature value', o)
                    ad = getf(prog, asrt, ga[0], 'auth_data')
                    fl, ct = getf(prog, ad, fb[0], 'flags'), getf(prog, ad, fb[0], 'counter')
                    tail(R, run, o, f, rest, fl, ct)
            else:
                nw = [x for c in calls for x in subterms(c) if x.op == 'call' and x.a[0].endswith('GetAssertionArgsBuilder::new')]
                cr = [x for c in calls for x in subterms(c) if x.op == 'call' and x.a[0].endswith('GetAssertionArgsBuilder::credential_id')]
                if not nw:
                    R.unsure('assertion arguments not located')
                    continue
                R.same(run, 'application', nw[0].a[1], app, 'relying party', o)
                R.same(run, 'message', nw[0].a[2], msg, 'challenge', o)
                if cr:
                    R.same(run, 'credential', cr[0].a[2], V('handle'), 'credential', o)
                else:
                    R.expect(not run.clean, 'credential', f.key, f.span, 'the key handle is not given to the token')
                if sg.op == 'fld':
                    adt = [a for a in prog.adts if a.endswith('::Assertion') and 'ctap' in a]
                    if len(adt) == 1:
                        asrt = sg.a[0]
                        R.same(run, 'value', sg, getf(prog, asrt, adt[0], 'signature'), 'signature value', o)
                        tail(R, run, o, f, rest, getf(prog, asrt, adt[0], 'flags'), getf(prog, asrt, adt[0], 'sign_count'))
                    else:
                        R.unsure('assertion type not located')
        if n == 0 and run.clean:
            R.bad('never', f.key, f.span, 'signing with a token never succeeds')


def isarith(a):
    """arithmetic on the flags byte that changes it (a mask of all eight bits does not)"""
    if a.op == 'bitand' and a.a[1].op == 'int' and a.a[1].a[0] & 0xff == 0xff:
        return False
    return a.op in ('bitand', 'bitor', 'xor', 'shl', 'shr', 'div', 'rem', 'lin')


def tail(R, run, o, f, rest, fl, ct):
    if len(rest) < 2:
        return R.expect(not run.clean, 'flags-counter', f.key, f.span, 'flags and counter are missing after the signature')
    a = rest[0][1]
    okf = rest[0][0] == 'e' and (a is fl or fl in subterms(a))
    if okf and a is not fl and isarith(a) and run.clean:
        return R.bad('flags', f.key, f.span, f'the byte after the signature is not the authenticator flags but {cut(a)}')
    R.expect(okf or not run.clean or bool(imprecise(a)), 'flags', f.key, f.span, f'the byte after the signature is not the authenticator flags: {cut(a)}')
    c = seq(rest[1:])
    R.same(run, 'counter', c, be(4, ct), 'signature counter', o)


@rule('sign.piv')
def piv(R, cfg):
    """PIV signatures: digest and algorithm of the key in the slot, label of the key in the slot"""
    prog, A = R.progs[cfg], R.anch[cfg]
    find = lambda m: next((g for g in prog.fns.values() if g.key.startswith('yubikey::') and g.key.endswith(f'Yubikey>::{m}')), None)
    sd, sg, gt, fp = find('sign_data'), find('ssh_cert_signer'), find('get_ssh_key_type'), find('ssh_cert_fetch_pubkey')
    if sd is None and sg is None:
        return
    if sd is not None:
        run = R.explore(cfg, sd)
        if run is not None:
            an = {i: n for n, i in variants(prog, 'yubikey::piv::AlgorithmId').items()}
            pi = {i: n for n, i in variants(prog, 'yubikey::certificate::PublicKeyInfo').items()}
            seen = set()
            for o in run.outs:
                if o.ret.op != 'agg' or o.ret.a[1] != 0:
                    continue
                c = [t for t, q in o.facts.var.items() if t.op == 'call' and t.a[0] == 'yubikey::piv::sign_data' and q == 0]
                if not c:
                    R.unsure('sign_data: token call not located')
                    continue
                c = c[-1]
                a = an.get(o.facts.variant(P(sd, 3)))
                slot = [pi.get(q) for t, q in o.facts.var.items() if t.op == 'call' and t.a[0].endswith('subject_pki')]
                slot = slot[0] if slot else None
                h = {'EccP256': 'SHA256', 'EccP384': 'SHA384', 'Rsa2048': 'SHA256', 'Rsa1024': 'SHA256'}.get(a)
                seen.add(a)
                if a is not None and slot is not None:
                    R.expect((a, slot) in (('EccP256', 'EcP256'), ('EccP384', 'EcP384'), ('Rsa2048', 'Rsa'), ('Rsa1024', 'Rsa')) or not run.clean, 'slot', sd.key, sd.span, f'an {slot} key in the slot signs as {a}')
                if h:
                    R.same(run, f'digest:{a}', c.a[2], mk('digest', mk('static', f'ring::digest::{h}'), P(sd, 2)), f'digest signed for {a}', o)
                R.same(run, 'algorithm', c.a[3], P(sd, 3), 'algorithm', o)
                R.same(run, 'slot-id', c.a[4], P(sd, 4), 'slot', o)
            if run.clean:
                for a in ('EccP256', 'EccP384'):
                    R.expect(a in seen, f'supported:{a}', sd.key, sd.span, f'{a} keys cannot sign')
    if None not in (sd, sg, gt, fp):
        run = R.explore(cfg, sg, A.pure(FMT, sd.key, gt.key, fp.key))
        if run is not None:
            yk, buf, slot = (P(sg, i) for i in (1, 2, 3))
            for o in run.outs:
                if o.ret.op != 'agg' or o.ret.a[1] != 0:
                    continue
                x = o.ret.a[2]
                if x.op != 'fld' or x.a[0].op != 'call' or x.a[0].a[0] != FMT:
                    R.unsure(f'ssh_cert_signer: result {cut(x)}')
                    continue
                pk, sig = x.a[0].a[1:3]
                R.same(run, 'signer:public', pk, fld(mk('call', fp.key, yk, slot), 0, 0), 'public key the signature is labelled with', o)
                c = sig.a[0] if sig.op == 'fld' else sig
                if c.op == 'call' and c.a[0] == sd.key:
                    R.same(run, 'signer:message', c.a[2], buf, 'bytes signed', o)
                    R.same(run, 'signer:slot', c.a[4], slot, 'slot', o)
        run = R.explore(cfg, gt, A.pure(fp.key))
        if run is not None:
            an = {i: n for n, i in variants(prog, 'yubikey::piv::AlgorithmId').items()}
            cv = {i: n for n, i in variants(prog, 'ssh::keytype::CurveKind').items()}
            for o in run.outs:
                if o.ret.op == 'agg' and o.ret.a[1] == 0:
                    v = o.ret.a[2]
                    a = an.get(v.a[1]) if v.op == 'agg' else None
                    c = [cv.get(q) for t, q in o.facts.var.items() if t.op == 'fld' and q is not None and 'EcdsaPublicKey' not in show(t) and t is not None][-1:]
                    R.expect((a, c[0] if c else None) in (('EccP256', 'Nistp256'), ('EccP384', 'Nistp384')) or not run.clean or a is None, 'key-type', gt.key, gt.span, f'a key on {c} is reported as {a}')
