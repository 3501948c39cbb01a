"""Public keys: wire format, text format, fingerprints, certificate text format."""
from .common import *
from .tables import TABLE, const_eq, S

KT = 'ssh::keytype::KeyType'
PKK = 'ssh::pubkey::PublicKeyKind'
REC = {'Rsa': 'ssh::pubkey::RsaPublicKey', 'Ecdsa': 'ssh::pubkey::EcdsaPublicKey', 'Ed25519': 'ssh::pubkey::Ed25519PublicKey'}
BASE = {'Rsa': 'Rsa', 'RsaCert': 'Rsa', 'Ecdsa': 'Ecdsa', 'EcdsaCert': 'Ecdsa', 'Ed25519': 'Ed25519', 'Ed25519Cert': 'Ed25519'}
FR = f'{PK}::from_reader'


@rule('pubkey.read')
def read(R, cfg):
    prog, A = R.progs[cfg], R.anch[cfg]
    f = R.fn(cfg, FR)
    if f is None or f.body.argc != 2:
        return R.unsure('PublicKey::from_reader has another shape')
    run = R.explore(cfg, f, {**A.reader(), **A.curve()}, ckey='pkread')
    if run is None or A.ri is None:
        return
    n, rd = P(f, 1), P(f, 2)
    d, z = fld(rd, 0, A.ri), fld(rd, 0, A.ro)
    L = length(d)
    o1 = aft_(d, z)
    o2 = aft_(d, o1)
    o3 = aft_(d, o2)
    kv = {i: k for k, i in variants(prog, PKK).items()}
    seen = set()
    for o in run.outs:
        if o.ret.op != 'agg':
            R.unsure('from_reader: unclassified return')
            continue
        F = o.facts
        c = const_eq(o, n)
        row = TABLE.get(c.decode()) if c is not None else None
        if o.ret.a[1] == 0:
            r = o.ret.a[2]
            if row is None:
                R.expect(not run.clean, 'type', f.key, f.span, f'a key of unrecognised type is accepted ({c!r})')
                continue
            seen.add(c.decode())
            k = BASE[row['kind']]
            R.same(run, f'{c.decode()}:type', getf(prog, getf(prog, r, PK, 'key_type'), KT, 'name'), S(c.decode()), 'key type of the parsed key', o)
            kd = getf(prog, r, PK, 'kind')
            if kd.op != 'agg':
                R.unsure(f'from_reader: kind {cut(kd)}')
                continue
            if not R.expect(kv.get(kd.a[1]) == k, f'{c.decode()}:kind', f.key, f.span, f'key type {c.decode()} is parsed as {kv.get(kd.a[1])}'):
                continue
            rec = kd.a[2]
            g = lambda x: getf(prog, rec, REC[k], x)
            sk = row['is_sk']
            if k == 'Rsa':
                R.same(run, 'rsa:e', g('e'), mk('mpval', body(d, z)), 'RSA public exponent', o)
                R.same(run, 'rsa:n', g('n'), mk('mpval', body(d, o1)), 'RSA modulus', o)
                end, appo = o2, None
            elif k == 'Ecdsa':
                R.same(run, 'ecdsa:curve', g('curve'), mk('crv', body(d, z)), 'curve', o)
                R.same(run, 'ecdsa:key', g('key'), body(d, o1), 'ECDSA point', o)
                end, appo = (o3 if sk else o2), o2
            else:
                R.same(run, 'ed25519:key', g('key'), body(d, z), 'Ed25519 key', o)
                end, appo = (o2 if sk else o1), o1
            if appo is not None:
                R.same(run, f'{c.decode()}:application', g('sk_application'), some(body(d, appo)) if sk else agg('core::option::Option', 0, ()), 'security key application', o)
            e = fld(o.st.cells[('P', 2)], 0, A.ro)
            R.same(run, f'{c.decode()}:extent', e, end, 'reader position after the key', o)
        else:
            j = row is None and c is None or any(tv(o, x) is False for x in (le(o1, L), le(o2, L), le(o3, L))) or utf8_fail(o) \
                or any(t.op == 'mpneg' and v is True or t.op == 'crvknown' and v is False for t, v in F.truth.items()) or tv(o, le(L, z)) is True
            R.expect(j or not run.clean, 'reject', f.key, f.span, f'a well-formed key of type {c!r} is rejected: {ftxt(o)}')
    if run.clean:
        for x in TABLE:
            R.expect(x in seen, f'{x}:supported', f.key, f.span, f'no path accepts keys of type {x}')


def ftxt(o):
    return cut(', '.join((show(k) if v else 'not ' + show(k)) for k, v in list(o.facts.truth.items())[-4:]), 300)


def kinds(prog, key, outs):
    return cases(outs, [(getf(prog, key, PK, 'kind'), len(variants(prog, PKK)))])


def data_spec(prog, key, o):
    """wire form of the key fields on a path where the kind is decided, or None"""
    kd = getf(prog, key, PK, 'kind')
    kv = {i: k for k, i in variants(prog, PKK).items()}
    k = kv.get(o.facts.variant(kd))
    if k is None:
        return None
    rec = fld(kd, variants(prog, PKK)[k], 0)
    g = lambda x: getf(prog, rec, REC[k], x)
    if k == 'Rsa':
        return cat(mk('mpint', g('e')), mk('mpint', g('n')))
    sk = o.facts.truth_of(getf(prog, getf(prog, key, PK, 'key_type'), KT, 'is_sk'))
    app = g('sk_application')
    if sk is None:
        # the other admissible discriminator
        v = o.facts.variant(app)
        if v is None:
            return None
        sk = v == 1
    tail = lp(fld(app, 1, 0)) if sk else EMPTY
    if k == 'Ecdsa':
        return cat(lp(getf(prog, g('curve'), 'ssh::keytype::Curve', 'identifier')), lp(g('key')), tail)
    return cat(lp(g('key')), tail)


@rule('pubkey.encode')
def encode(R, cfg):
    prog, A = R.progs[cfg], R.anch[cfg]
    WR = 'ssh::writer::Writer'
    f = R.fn(cfg, f'{PK}::encode')
    run = f and R.explore(cfg, f, A.writer())
    if run:
        key = P(f, 1)
        kt = getf(prog, key, PK, 'key_type')
        for o in kinds(prog, key, run.outs):
            w = data_spec(prog, key, o)
            if w is None:
                R.unsure('encode: key kind not decided')
                continue
            R.same(run, 'encode', o.ret, cat(lp(getf(prog, kt, KT, 'plain')), w), 'encoded public key', o)
    f = R.fn(cfg, f'{WR}::write_pub_key_data')
    run = f and R.explore(cfg, f, A.writer())
    if run:
        for o in kinds(prog, P(f, 2), run.outs):
            w = data_spec(prog, P(f, 2), o)
            if w is None:
                R.unsure('write_pub_key_data: key kind not decided')
                continue
            R.same(run, 'write_pub_key_data', fld(o.st.cells[('P', 1)], 0, 0), cat(fld(P(f, 1), 0, 0), w), 'key fields written', o)
    f = R.fn(cfg, f'{WR}::write_pub_key')
    run = f and R.explore(cfg, f, {**A.writer(), **A.pubkey_data()})
    if run:
        key = P(f, 2)
        kt = getf(prog, key, PK, 'key_type')
        ws = [cat(fld(P(f, 1), 0, 0), lp(cat(lp(getf(prog, kt, KT, x)), mk('pkdata', key)))) for x in ('name', 'plain')]
        for o in run.outs:
            got = fld(o.st.cells[('P', 1)], 0, 0)
            if got in ws:
                R.good('write_pub_key')
            else:
                R.mismatch(run, 'write_pub_key', got, ws[0], o, 'embedded public key')


@rule('pubkey.from_bytes')
def from_bytes(R, cfg):
    A = R.anch[cfg]
    f = R.fn(cfg, f'{PK}::from_bytes')
    if f is None:
        return R.bad('missing', PK, None, 'PublicKey::from_bytes is gone')
    run = R.explore(cfg, f, {**A.reader(), **A.pubkey_reader()})
    if run is None or not A.pubkey_reader():
        return R.unsure('public key reader has moved')
    d = P(f, 1)
    n = body(d, ZERO)
    w = mk('call', 'PublicKey::from_reader', n, d, aft_(d, ZERO))
    for o in run.outs:
        if is_ok(o):
            R.same(run, 'key', o.ret.a[2], fld(w, 0, 0), 'parsed key', o)
        elif is_err(o):
            j = o.facts.variant(w) == 1 or tv(o, le(aft_(d, ZERO), length(d))) is False or utf8_fail(o)
            R.expect(j or not run.clean, 'reject', f.key, f.span, 'a well-formed key is rejected: ' + ftxt(o))
        else:
            R.unsure('from_bytes: unclassified return ' + cut(o.ret))


B64D = 'base64::decode::decode'
B64E = 'base64::encode::encode'


@rule('pubkey.text')
def text(R, cfg):
    """`type base64 [comment]`: the outer type must equal the type inside; only the first three words are used"""
    prog, A = R.progs[cfg], R.anch[cfg]
    f = R.fn(cfg, f'{PK}::from_string')
    if f is None:
        return R.bad('missing', PK, None, 'PublicKey::from_string is gone')
    run = R.explore(cfg, f, {**A.reader(), **A.keytype(), **A.pubkey_reader()})
    if run is None or not A.pubkey_reader():
        return R.unsure('public key reader has moved')
    ws = mk('splitws', P(f, 1))
    w0, w1, w2 = (elem(ws, I(i)) for i in range(3))
    dec = mk('call', B64D, w1)
    d = fld(dec, 0, 0)
    inner = body(d, ZERO)
    for o in run.outs:
        F = o.facts
        if o.ret.op != 'agg':
            R.unsure('from_string: unclassified return')
            continue
        if o.ret.a[1] == 0:
            r = o.ret.a[2]
            kt = getf(prog, r, PK, 'key_type')
            same = F.truth_of(eq(w0, inner))
            R.expect(same is True or not run.clean, 'outer-type', f.key, f.span, 'a key is accepted although its declared type was not found equal to the type inside the blob: ' + ftxt(o))
            okk = kt in (mk('kt', w0), mk('kt', inner)) or kt.op == 'fld'
            fr = [mk('call', 'PublicKey::from_reader', x, d, aft_(d, ZERO)) for x in (w0, inner)]
            kd = getf(prog, r, PK, 'kind')
            if kd not in [getf(prog, fld(x, 0, 0), PK, 'kind') for x in fr]:
                R.mismatch(run, 'kind', kd, getf(prog, fld(fr[0], 0, 0), PK, 'kind'), o, 'key material')
            else:
                R.good('kind')
            if kt not in [mk('kt', w0), mk('kt', inner)] + [getf(prog, fld(x, 0, 0), PK, 'key_type') for x in fr]:
                R.mismatch(run, 'key_type', kt, mk('kt', w0), o, 'key type')
            else:
                R.good('key_type')
            cm = getf(prog, r, PK, 'comment')
            has = F.truth_of(le(I(3), length(ws)))
            if has is not None:
                R.same(run, 'comment', cm, some(w2) if has else agg('core::option::Option', 0, ()), 'comment', o)
        else:
            j = F.truth_of(le(I(2), length(ws))) is False or F.truth_of(le(ONE, length(ws))) is False \
                or any(t.op == 'ktknown' and v is False for t, v in F.truth.items()) or F.variant(dec) == 1 \
                or tv(o, le(aft_(d, ZERO), length(d))) is False or utf8_fail(o) or F.truth_of(eq(w0, inner)) is False \
                or any(t.op == 'call' and v == 1 for t, v in F.var.items())
            R.expect(j or not run.clean, 'reject', f.key, f.span, 'a well-formed line is rejected: ' + ftxt(o))


@rule('pubkey.print')
def pprint(R, cfg):
    """Display / write print `type base64(encode) [comment]`"""
    prog, A = R.progs[cfg], R.anch[cfg]
    ENC = f'{PK}::encode'
    ov = {**A.writer(), **A.pure(ENC)}
    f = R.fn(cfg, f'{PK}::write')
    fs = [(f, 'write')] if f else []
    fs += [(g, 'display') for g in prog.fns.values() if g.impl_trait == 'core::fmt::Display' and g.method == 'fmt' and prog.tystr(g.impl_self).endswith('pubkey::PublicKey')]
    for f, lab in fs:
        run = R.explore(cfg, f, ov)
        if run is None:
            continue
        k = P(f, 1)
        name = getf(prog, getf(prog, k, PK, 'key_type'), KT, 'name')
        b = mk('call', B64E, mk('call', ENC, k))
        cm = getf(prog, k, PK, 'comment')
        for o in run.outs:
            shown = displayed(o, f) if lab == 'display' else None
            txts = [shown] if shown is not None else [x for e in o.events() for x in e[2] if e[0] in ('call', 'fmt') and 'write' in str(e[1]) and isinstance(x, T) and x.op in ('seq', 'bytes', 'slice')]
            v = o.facts.variant(cm)
            if not txts or v is None:
                R.unsure(f'{lab}: output not located')
                continue
            got = cat(*txts) if len(txts) > 1 else txts[0]
            base = cat(name, B(b' '), b)
            wants = [cat(base, B(b' '), fld(cm, 1, 0)), cat(base, B(b' '), fld(cm, 1, 0), B(b'\n'))] if v == 1 else [base, cat(base, B(b'\n')), cat(base, B(b' '))]
            if got in wants:
                R.good(f'{lab}:{v}')
            else:
                R.mismatch(run, f'{lab}:{v}', got, wants[0], o, 'printed public key')


@rule('pubkey.fingerprint')
def fingerprint(R, cfg):
    prog, A = R.progs[cfg], R.anch[cfg]
    ENC = f'{PK}::encode'
    ks = {i: n for n, i in variants(prog, 'ssh::pubkey::FingerprintKind').items()}
    FP = 'ssh::pubkey::Fingerprint'
    for m in ('fingerprint', 'fingerprint_with'):
        f = R.fn(cfg, f'{PK}::{m}')
        if f is None:
            R.bad(f'{m}:missing', PK, None, f'{m} is gone')
            continue
        run = R.explore(cfg, f, {**A.writer(), **A.pure(ENC)})
        if run is None:
            continue
        for o in run.outs:
            kind = getf(prog, o.ret, FP, 'kind')
            h = getf(prog, o.ret, FP, 'hash')
            kn = ks.get(kind.a[1] if kind.op == 'agg' else o.facts.variant(kind))
            if m == 'fingerprint':
                if kn:
                    R.expect(kn == 'Sha256', f'{m}:default', f.key, f.span, f'default fingerprint uses {kn}')
            else:
                R.same(run, f'{m}:kind', kind, P(f, 2), 'reported hash', o)
            if kn is None:
                R.unsure(f'{m}: hash not decided')
                continue
            ds = [x for x in subterms(h) if x.op == 'digest']
            want = mk('digest', mk('static', 'ring::digest::' + kn.upper()), mk('call', ENC, P(f, 1)))
            if not ds:
                R.unsure(f'{m}: digest not located in {cut(h)}')
                continue
            R.same(run, f'{m}:digest:{kn}', ds[0], want, 'fingerprint digest', o)
            e = mk('call', B64E, want)
            forms = [slice_(e, ZERO, mk('find', e, I(61)))]
            if o.facts.truth_of(mk('scontains', e, I(61))) is False:
                forms.append(e)
            if h in forms or any(x.op in ('trim',) for x in subterms(h)):
                R.good(f'{m}:encoding:{kn}')
            elif h is e:
                R.expect(not run.clean, f'{m}:padding', f.key, f.span, 'base64 padding may be left in the fingerprint')
            elif h.op == 'slice' and h.a[0] is e and h.a[1] is ZERO and h.a[2].op == 'int' and run.clean:
                # the length of the text is known for each hash: 43, 64 and 86 characters before the padding
                n = {'Sha256': 43, 'Sha384': 64, 'Sha512': 86}[kn]
                at = mk('find', e, I(61))
                if h.a[2].a[0] == n:
                    R.good(f'{m}:encoding:{kn}')
                elif o.facts.truth_of(mk('scontains', e, I(61))) is (kn == 'Sha384') or o.facts.copy().prove_le(sub(I(n + 1), at)):
                    R.good(f'{m}:impossible:{kn}')
                else:
                    R.bad(f'{m}:length', f.key, f.span, f'a {kn} fingerprint is {h.a[2].a[0]} characters long instead of {n}')
            elif run.clean and any(x.op == 'b64x' for x in subterms(h)):
                R.bad(f'{m}:alphabet', f.key, f.span, f'the fingerprint is not in the standard base64 alphabet: {cut(h)}')
            else:
                R.unsure(f'{m}: encoding {cut(h)}')


@rule('pubkey.bits')
def bits(R, cfg):
    prog = R.progs[cfg]
    f = R.fn(cfg, f'{PK}::bits')
    if f is None:
        return R.unsure('bits not present')
    run = R.explore(cfg, f)
    if run is None:
        return
    k = P(f, 1)
    kd = getf(prog, k, PK, 'kind')
    kv = {i: n for n, i in variants(prog, PKK).items()}
    cv = {i: n for n, i in variants(prog, 'ssh::keytype::CurveKind').items()}
    ec = fld(kd, variants(prog, PKK)['Ecdsa'], 0)
    cur = getf(prog, getf(prog, ec, REC['Ecdsa'], 'curve'), 'ssh::keytype::Curve', 'kind')
    for o in [p for o in kinds(prog, k, run.outs) for p in (cases([o], [(cur, len(cv))]) if kv.get(o.facts.variant(kd)) == 'Ecdsa' else [o])]:
        n = kv.get(o.facts.variant(kd))
        if n == 'Rsa':
            rec = fld(kd, variants(prog, PKK)[n], 0)
            R.same(run, 'rsa', o.ret, mul(I(8), length(getf(prog, rec, REC[n], 'n'))), 'RSA key size', o)
        elif n == 'Ed25519':
            R.same(run, 'ed25519', o.ret, I(256), 'Ed25519 key size', o)
        elif n == 'Ecdsa':
            rec = fld(kd, variants(prog, PKK)[n], 0)
            c = cv.get(o.facts.variant(getf(prog, getf(prog, rec, REC[n], 'curve'), 'ssh::keytype::Curve', 'kind')))
            if c:
                R.same(run, c, o.ret, I(int(c[-3:])), f'key size on {c}', o)
            else:
                R.unsure('bits: curve not decided')


@rule('cert.text')
def cert_text(R, cfg):
    prog, A = R.progs[cfg], R.anch[cfg]
    f = R.fn(cfg, f'{CERT}::from_string')
    if f is None:
        return R.bad('missing', CERT, None, 'Certificate::from_string is gone')
    FB = f'{CERT}::from_bytes'
    run = R.explore(cfg, f, {**A.keytype(), **A.pure(FB)})
    if run is None:
        return
    ws = mk('splitws', P(f, 1))
    w0, w1, w2 = (elem(ws, I(i)) for i in range(3))
    dec = mk('call', B64D, w1)
    c = mk('call', FB, fld(dec, 0, 0))
    kx = fx(prog, KT, 'kind')
    for o in run.outs:
        F = o.facts
        if o.ret.op != 'agg':
            R.unsure('from_string: unclassified return')
            continue
        if o.ret.a[1] == 0:
            r = o.ret.a[2]
            for fl in prog.adts[CERT]['variants'][0]['fields']:
                if fl[0] == 'comment':
                    has = F.truth_of(le(I(3), length(ws)))
                    if has is not None:
                        R.same(run, 'comment', getf(prog, r, CERT, 'comment'), some(w2) if has else agg('core::option::Option', 0, ()), 'comment', o)
                else:
                    R.same(run, fl[0], getf(prog, r, CERT, fl[0]), getf(prog, fld(c, 0, 0), CERT, fl[0]), f'field {fl[0]} of a certificate read from text', o)
            R.expect(F.variant(c) == 0 or not run.clean, 'checked', f.key, f.span, 'a certificate is returned although decoding it did not succeed')
            ckt = getf(prog, fld(c, 0, 0), CERT, 'key_type')
            e = [F.truth_of(eq(fld(ckt, 0, i), fld(mk('kt', w0), 0, i))) for i in (kx, fx(prog, KT, 'name'))] + [F.truth_of(eq(ckt, mk('kt', w0)))]
            R.expect(True in e or not run.clean, 'outer-type', f.key, f.span, 'a certificate is accepted although its declared type was not found equal to its own: ' + ftxt(o))
        else:
            ckt = getf(prog, fld(c, 0, 0), CERT, 'key_type')
            j = F.truth_of(le(I(2), length(ws))) is False or F.truth_of(le(ONE, length(ws))) is False \
                or any(t.op == 'ktknown' and v is False for t, v in F.truth.items()) or F.variant(dec) == 1 or F.variant(c) == 1 \
                or any(F.truth_of(eq(fld(ckt, 0, i), fld(mk('kt', w0), 0, i))) is False for i in (kx, fx(prog, KT, 'name')))
            R.expect(j or not run.clean, 'reject', f.key, f.span, 'a well-formed line is rejected: ' + ftxt(o))
