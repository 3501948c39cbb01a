"""Certificate parsing, issuance and list fields."""
from .common import *

VS = f'{SIG}::verify_signature'


def list_fns(prog):
    rp = by_sig(prog, 'ssh::cert', [lambda t: t == '&[u8]'], lambda t: 'Result<alloc::vec::Vec<alloc::string::String>' in t)
    ro = by_sig(prog, 'ssh::cert', [lambda t: t == '&[u8]'], lambda t: 'HashMap<alloc::string::String, alloc::string::String' in t and 'Result' in t)
    return (rp[0] if len(rp) == 1 else None), (ro[0] if len(ro) == 1 else None)


def vs_payload(R, cfg):
    """verify_signature hands back the signature it was given: established from its own success paths"""
    from .sig import vs_run
    PAYLOAD.pop(VS, None)
    run = vs_run(R, cfg)
    if run is not None:
        oks = [o for o in run.outs if o.ret.op == 'agg' and o.ret.a[1] == 0]
        if oks and all(len(o.ret.a) > 2 and o.ret.a[2] is P(run.fn, 1) for o in oks):
            PAYLOAD[VS] = 0


def parse_run(R, cfg):
    prog, A = R.progs[cfg], R.anch[cfg]
    vs_payload(R, cfg)
    rp, ro = list_fns(prog)
    ov = {**A.reader(), **A.keytype(), **A.pubkey_reader(),
          **A.pure(VS, f'{PK}::from_bytes', *[f.key for f in (rp, ro) if f])}
    return R.explore(cfg, f'{CERT}::from_bytes', ov, ckey='cert', max_steps=200000), rp, ro


@rule('cert.signature')
def signature(R, cfg):
    """every accepting path verified the embedded signature by the embedded CA key over the preceding bytes"""
    prog = R.progs[cfg]
    vs = R.fn(cfg, VS)
    if vs is None or vs.body.argc != 3 or 'PublicKey' not in prog.tystr(vs.body.tys[3]):
        return R.unsure('signature verification routine has another shape')
    run, rp, ro = parse_run(R, cfg)
    if run is None:
        return
    f = run.fn
    d = P(f, 1)
    n = 0
    for o in run.outs:
        if o.ret.op != 'agg':
            R.unsure(f'from_bytes: unclassified return {cut(o.ret)}')
            continue
        if o.ret.a[1] != 0:
            continue
        n += 1
        c = o.ret.a[2]
        sig, key, ser = (getf(prog, c, CERT, x) for x in ('signature', 'signature_key', 'serialized'))
        ver = [t for t, v in o.facts.var.items() if t.op == 'call' and t.a[0] == vs.key and v == 0]
        if not ver:
            if run.clean and not imprecise(o.ret):
                R.bad('unverified', f.key, f.span, 'a certificate is returned on a path with no successful signature verification: ' + txt(o))
            else:
                R.unsure('from_bytes: verification not located')
            continue
        good = None
        for t in ver:
            s, m, k = t.a[1], t.a[2], t.a[3]
            if s is sig and k is key:
                good = t
        if good is None:
            t = ver[0]
            R.mismatch(run, 'signature-args', tup(t.a[1], t.a[3]), tup(sig, key), o, 'the verified signature/key are not the ones returned in the certificate')
            continue
        R.good('verified before accepting')
        m = good.a[2]
        # the signed bytes: a prefix of the input that ends exactly where the signature field starts
        okm = sig.op == 'slice' and sig.a[0] is d
        if not okm:
            R.mismatch(run, 'signature-field', sig, body(d, mk('unk', 'x')), o, 'signature is not a field of the input')
            continue
        off = sub(sig.a[1], I(4))
        R.same(run, 'signature-extent', sig, body(d, off), 'signature field', o)
        R.same(run, 'signed-bytes', m, slice_(d, ZERO, off), 'bytes covered by the verified signature', o)
        kk = key
        if kk.op == 'fld' and kk.a[0].op == 'call' and kk.a[0].a[0].endswith('PublicKey::from_bytes'):
            kb = kk.a[0].a[1]
            if kb.op == 'slice' and kb.a[0] is d:
                R.same(run, 'ca-key-position', kb.a[2], off, 'the CA key is the field right before the signature', o)
                R.same(run, 'ca-key-extent', kb, body(d, sub(kb.a[1], I(4))), 'CA key field', o)
            else:
                R.mismatch(run, 'ca-key', kb, d, o, 'the CA key does not come from the certificate')
        else:
            R.unsure('from_bytes: CA key provenance ' + cut(kk))
        R.same(run, 'serialized', ser, d, 'stored serialisation', o)
    if run.clean and n == 0:
        R.bad('never', f.key, f.span, 'no path accepts a certificate')


def txt(o):
    return cut(', '.join((show(k) if v else 'not ' + show(k)) for k, v in list(o.facts.truth.items())[-4:]), 400)


@rule('cert.layout')
def layout(R, cfg):
    prog, A = R.progs[cfg], R.anch[cfg]
    run, rp, ro = parse_run(R, cfg)
    if run is None:
        return
    f = run.fn
    d = P(f, 1)
    L = length(d)
    name = body(d, ZERO)
    KT = 'ssh::keytype::KeyType'
    kt = mk('kt', name)
    anchored = 'ssh::keytype::KeyType::from_name' in A.keytype() and A.pubkey_reader()
    if not anchored:
        return R.unsure('key type lookup or public key reader has moved')
    o1 = aft_(d, ZERO)
    o2 = aft_(d, o1)
    plain = getf(prog, kt, KT, 'plain')
    pk = mk('call', 'PublicKey::from_reader', plain, d, o2)
    o3 = mk('afterpk', plain, d, o2)
    o4 = add(o3, I(8))
    o5 = add(o4, I(4))
    o6 = aft_(d, o5)
    o7 = aft_(d, o6)
    o8 = add(o7, I(8))
    o9 = add(o8, I(8))
    o10 = aft_(d, o9)
    o11 = aft_(d, o10)
    o12 = aft_(d, o11)
    o13 = aft_(d, o12)
    ctype = at(d, o4, 4)
    want = {
        'key_type': kt, 'nonce': body(d, o1), 'key': fld(pk, 0, 0), 'serial': at(d, o3, 8), 'key_id': body(d, o5),
        'valid_after': at(d, o7, 8), 'valid_before': at(d, o8, 8), 'reserved': body(d, o11),
        'signature_key': fld(mk('call', f'{PK}::from_bytes', body(d, o12)), 0, 0), 'signature': body(d, o13), 'serialized': d,
    }
    lists = {'principals': (rp, body(d, o6)), 'critical_options': (ro, body(d, o9)), 'extensions': (ro, body(d, o10))}
    ctv = variants(prog, 'ssh::cert::CertType')
    for o in run.oks():
        c = o.ret.a[2]
        for k, w in want.items():
            R.same(run, k, getf(prog, c, CERT, k), w, f'field {k} of a parsed certificate', o)
        for k, (fn_, w) in lists.items():
            if fn_ is None:
                R.unsure(f'reader of {k} not located')
                continue
            R.same(run, k, getf(prog, c, CERT, k), fld(mk('call', fn_.key, w), 0, 0), f'field {k} of a parsed certificate', o)
        ct = getf(prog, c, CERT, 'cert_type')
        if ct.op == 'agg':
            code = {ctv['User']: 1, ctv['Host']: 2}.get(ct.a[1])
            R.expect(o.facts.truth_of(eq(ctype, I(code))) is True or not run.clean, 'cert_type', f.key, f.span, f'certificate type code {code} expected on the path returning variant {ct.a[1]}')
        else:
            R.unsure('cert_type ' + cut(ct))
        R.expect(o.facts.truth_of(getf(prog, kt, KT, 'is_cert')) is True or not run.clean, 'is_cert', f.key, f.span, 'a key type that is not a certificate type is accepted')
    # rejections
    for o in run.errs():
        j = reader_fail(o, d) or utf8_fail(o) or any(k.op in ('ktknown',) and v is False for k, v in o.facts.truth.items()) \
            or o.facts.truth_of(getf(prog, kt, KT, 'is_cert')) is False \
            or any(t.op == 'call' and v == 1 for t, v in o.facts.var.items()) \
            or o.facts.truth_of(eq(ctype, ONE)) is False and o.facts.truth_of(eq(ctype, I(2))) is False
        R.expect(j or not run.clean, 'reject', f.key, f.span, 'a well-formed, correctly signed certificate is rejected: ' + txt(o))


def list_rule(which):
    def r(R, cfg):
        prog, A = R.progs[cfg], R.anch[cfg]
        f = list_fns(prog)[which == 'options']
        if f is None:
            return R.unsure(f'reader of {which} not located')
        run = R.explore(cfg, f, A.reader())
        if run is None:
            return
        d = P(f, 1)
        L = length(d)
        loops = [i for i in run.it.loops.values() if i['init']]
        if len(loops) != 1:
            if run.clean and not loops:
                for o in run.oks():
                    if not imprecise(o.ret):
                        R.bad(f'{which}:noloop', f.key, f.span, f'the list is not read to its end: {cut(o.ret)}')
                return
            return R.unsure(f'{f.key}: {len(loops)} loops')
        info = loops[0]
        # position variable: init 0; accumulator: everything else
        pos = acc = None
        for lv, i in info['init'].items():
            if i is ZERO:
                pos = lv if pos is None else pos
            if i is EMPTY or i.op == 'emptymap':
                acc = lv
        if pos is None or acc is None:
            return R.unsure(f'{f.key}: loop variables not recognised')
        name = body(d, pos)
        e1 = aft_(d, pos)
        for m, cd in zip(info['steps'], info['conds']):
            np, na = m.get(pos, pos), m.get(acc, acc)
            cd = dict(cd)
            if which == 'principals':
                R.same(run, 'principals:advance', np, e1, 'position after one principal')
                R.same(run, 'principals:collect', na, seq(parts_of(acc) + [('e', name)]), 'list after one principal') if na is not seq(parts_of(acc) + [('e', name)]) and not lvfree(na, acc, pos) else R.expect(na is seq(parts_of(acc) + [('e', name)]), 'principals:collect', f.key, f.span, f'one principal read, but the list becomes {cut(na)}')
            else:
                vb = body(d, e1)
                end = aft_(d, e1)
                vlen = at(d, e1, 4)
                R.expect(np is end, 'options:advance', f.key, f.span, f'position after one option is {cut(np)}, expected the end of its value')
                zero = cd.get(eq(vlen, ZERO))
                inner = slice_(vb, I(4), add(I(4), at(vb, ZERO, 4)))
                if zero is None:
                    R.unsure('read_options: empty-value test not located')
                    continue
                want = mk('mapins', acc, name, EMPTY if zero else inner)
                pair = ('e', mk('agg', 'tuple', 0, name, EMPTY if zero else inner))
                if acc.op == 'lv' and na is seq(parts_of(acc) + [pair]):
                    want = na       # collected as pairs first
                R.expect(na is want, 'options:collect', f.key, f.span, f'one option read, but the map becomes {cut(na)}, expected {cut(want)}')
        for o in run.oks():
            R.expect(o.facts.truth_of(le(L, pos)) is True, f'{which}:complete', f.key, f.span, 'the list is accepted although its bytes were not consumed to the end: ' + txt(o))
            R.expect(o.ret.a[2] is acc or which == 'options' and info['init'][acc] is EMPTY and o.ret.a[2] is mk('mapfrom', mk('emptymap'), acc, elem(acc, BV0)), f'{which}:result', f.key, f.span, f'the returned list is not the collected one: {cut(o.ret)}')
        for o in run.errs():
            j = reader_fail(o, d) or utf8_fail(o) or any(k.op == 'le0' and v is False for k, v in o.facts.truth.items() if any(x.op == 'unbe' for x in lin_of(k.a[0])[1]))
            R.expect(j, f'{which}:reject', f.key, f.span, 'a well-formed list is rejected: ' + txt(o))
    return r


def lvfree(t, *ok_):
    return not any(x.op == 'lv' and x not in ok_ for x in subterms(t))


rule('cert.principals')(list_rule('principals'))
rule('cert.options')(list_rule('options'))


# ------------------------------------------------------------------ issuance
ACN = 'ssh::keytype::KeyType::as_cert_name'
ENC = f'{PK}::encode'


def issue_ov(A):
    return {**A.writer(), **A.pubkey_data(), **A.pure(ENC, VS, ACN)}


def tbs_spec(prog, c, name, ctype):
    g = lambda n: getf(prog, c, CERT, n)
    return cat(lp(name), lp(g('nonce')), mk('pkdata', g('key')), be(8, g('serial')), ctype, lp(g('key_id')),
               mk('strvec', g('principals')), be(8, g('valid_after')), be(8, g('valid_before')), mk('strmap', g('critical_options')),
               mk('strmap', g('extensions')), B(b'\0\0\0\0'), lp(mk('call', ENC, g('signature_key'))))


def tbs_wants(prog, c, o):
    """the layouts a to-be-signed blob may have on this path (the spelled-out name and type code are equivalent)"""
    KT = 'ssh::keytype::KeyType'
    kt = getf(prog, c, CERT, 'key_type')
    ct = getf(prog, c, CERT, 'cert_type')
    d = mk('discr', ct, 'ssh::cert::CertType')
    cts = [be(4, mk('icast', 'u32', d))]
    v = o.facts.variant(ct)
    if v is not None:
        cts = [be(4, I(1 + v))] + cts
    return [tbs_spec(prog, c, n, t) for n in (mk('call', ACN, kt), getf(prog, kt, KT, 'name')) for t in cts]


@rule('cert.tbs')
def tbs(R, cfg):
    prog, A = R.progs[cfg], R.anch[cfg]
    if R.fn(cfg, ACN) is None or not A.pubkey_data() or len(A.writer()) < 3:
        return R.unsure('writer helpers have moved')
    run = R.explore(cfg, f'{CERT}::tbs_certificate', issue_ov(A))
    if run is None:
        return
    ctv = variants(prog, 'ssh::cert::CertType')
    c = P(run.fn, 1)
    for o in run.outs:
        w = tbs_wants(prog, c, o)
        if o.ret in w:
            R.good('tbs')
        else:
            R.mismatch(run, 'tbs', o.ret, w[0], o, 'to-be-signed bytes')
    a = prog.adts['ssh::cert::CertType']['variants']
    R.expect([x.get('discr') for x in a] in ([1, 2], [None, None], ['1', '2']), 'type-codes', run.fn.key, run.fn.span, 'certificate type codes')


@rule('cert.issue')
def issue(R, cfg):
    """add_signature / sign: accepted only after verification, serialised form = signed bytes || signature"""
    prog, A = R.progs[cfg], R.anch[cfg]
    TBS = f'{CERT}::tbs_certificate'
    vs_payload(R, cfg)
    for m in ('add_signature', 'sign'):
        ov = {**issue_ov(A), **A.pure(TBS)}
        if TBS not in ov:
            return R.unsure('tbs_certificate has moved')
        run = R.explore(cfg, f'{CERT}::{m}', ov)
        if run is None:
            continue
        f = run.fn
        c = P(f, 1)
        t = mk('call', TBS, c)
        if m == 'add_signature':
            sig = P(f, 2)
        else:
            sig = None
        key = getf(prog, c, CERT, 'signature_key')
        n = 0
        for o in run.outs:
            if o.ret.op != 'agg':
                R.unsure(f'{m}: unclassified return')
                continue
            if o.ret.a[1] == 0:
                n += 1
                r = o.ret.a[2]
                s = getf(prog, r, CERT, 'signature')
                if m == 'sign':
                    okk = s.op == 'fld' and s.a[0].op == 'call' and s.a[0].a[0].endswith('SSHCertificateSigner::sign')
                    if okk:
                        R.same(run, f'{m}:signed-bytes', s.a[0].a[2], t, 'bytes handed to the signer', o)
                        R.good(f'{m}:signer output used')
                    else:
                        R.mismatch(run, f'{m}:signature', s, t, o, 'the stored signature is not the signer output')
                        continue
                else:
                    R.same(run, f'{m}:signature', s, sig, 'stored signature', o)
                ser = getf(prog, r, CERT, 'serialized')
                R.same(run, f'{m}:serialized', ser, cat(t, lp(s)), 'serialised certificate', o)
                v = [x for x, q in o.facts.var.items() if x.op == 'call' and x.a[0] == VS and q == 0]
                R.expect(any(x.a[1] is s and x.a[2] is t and x.a[3] is key for x in v) or not run.clean, f'{m}:verified', f.key, f.span,
                         'a certificate is issued on a path where the signature was not verified over the bytes being issued by the CA key')
                for fl in prog.adts[CERT]['variants'][0]['fields']:
                    if fl[0] not in ('signature', 'serialized'):
                        R.same(run, f'{m}:{fl[0]}', getf(prog, r, CERT, fl[0]), getf(prog, c, CERT, fl[0]), f'field {fl[0]} changes while signing', o)
            else:
                j = any(x.op == 'call' and (x.a[0] == VS and q == 1 or x.a[0].endswith('::sign') and q == 0) for x, q in o.facts.var.items())
                R.expect(j or not run.clean, f'{m}:reject', f.key, f.span, 'a correct signature is refused: ' + txt(o))
        if n == 0 and run.clean:
            R.bad(f'{m}:never', f.key, f.span, 'never succeeds')


@rule('cert.setters')
def setters(R, cfg):
    prog = R.progs[cfg]

    def spec(m, c, p2, p3):
        g = lambda n: getf(prog, c, CERT, n)
        return {
            'serial': ('serial', p2), 'key_id': ('key_id', p2), 'principal': ('principals', push(g('principals'), p2)),
            'set_principals': ('principals', p2), 'valid_after': ('valid_after', p2), 'valid_before': ('valid_before', p2),
            'critical_option': ('critical_options', mk('mapins', g('critical_options'), p2, p3)),
            'set_critical_options': ('critical_options', p2), 'extension': ('extensions', mk('mapins', g('extensions'), p2, p3)),
            'set_extensions': ('extensions', p2), 'comment': ('comment', some(p2))}[m]
    for m in ('serial', 'key_id', 'principal', 'set_principals', 'valid_after', 'valid_before', 'critical_option',
              'set_critical_options', 'extension', 'set_extensions', 'comment'):
        f = R.fn(cfg, f'{CERT}::{m}')
        if f is None:
            R.bad(f'{m}:missing', CERT, None, f'public setter {m} is gone')
            continue
        run = R.explore(cfg, f)
        if run is None:
            continue
        c = P(f, 1)
        fl, want = spec(m, c, P(f, 2), P(f, 3) if f.body.argc > 2 else None)
        for o in run.outs:
            for x in prog.adts[CERT]['variants'][0]['fields']:
                w = want if x[0] == fl else getf(prog, c, CERT, x[0])
                R.same(run, f'{m}:{x[0]}', getf(prog, o.ret, CERT, x[0]), w, f'field {x[0]} after {m}()', o)


@rule('cert.builder')
def builder(R, cfg):
    prog, A = R.progs[cfg], R.anch[cfg]
    run = R.explore(cfg, f'{CERT}::builder', {**A.keytype(), **A.pure(ACN)})
    if run is None:
        return
    f = run.fn
    pk, ct, ca = P(f, 1), P(f, 2), P(f, 3)
    kt = mk('kt', mk('call', ACN, getf(prog, pk, PK, 'key_type')))
    want = {'key': pk, 'cert_type': ct, 'signature_key': ca, 'key_id': EMPTY, 'principals': EMPTY, 'valid_after': ZERO, 'valid_before': ZERO,
            'critical_options': mk('emptymap'), 'extensions': mk('emptymap'), 'signature': EMPTY, 'serialized': EMPTY, 'key_type': kt}
    n = 0
    for o in run.outs:
        if o.ret.op != 'agg':
            R.unsure('builder: unclassified return')
            continue
        if o.ret.a[1] == 0:
            n += 1
            for k, w in want.items():
                R.same(run, k, getf(prog, o.ret.a[2], CERT, k), w, f'initial {k}', o)
        else:
            j = any(k.op == 'ktknown' and v is False for k, v in o.facts.truth.items()) or failed(o, lambda t: 'fill' in t.a[0] or 'rand' in t.a[0])
            R.expect(j or not run.clean, 'reject', f.key, f.span, 'builder fails without cause: ' + txt(o))
    if n == 0 and run.clean:
        R.bad('never', f.key, f.span, 'builder never succeeds')
