"""x509 public keys, PIV attestation chains, FIDO attestations and authenticator data."""
import base64, hashlib
from ..terms import _kids
from .common import *
from .sig import facts, algname
from .privkey import PKK, KT, NONE

X = 'x509_parser::certificate::X509Certificate'
TBS = 'x509_parser::certificate::TbsCertificate'
SPKI = 'x509_parser::x509::SubjectPublicKeyInfo'
ALGID = 'x509_parser::x509::AlgorithmIdentifier'
BITS = 'asn1_rs::asn1_types::bitstring::BitString'
DBITS = 'der_parser::ber::ber::BitStringObject'
CSR = 'x509_parser::certification_request::X509CertificationRequest'
CSRI = 'x509_parser::certification_request::X509CertificationRequestInfo'
EXT = 'x509_parser::extensions::X509Extension'
ECPK = 'ssh::pubkey::EcdsaPublicKey'
EC = b'1.2.840.10045.2.1'
CURVES = {b'1.2.840.10045.3.1.7': (b'ecdsa-sha2-nistp256', b'nistp256', 'Nistp256'),
          b'1.3.132.0.34': (b'ecdsa-sha2-nistp384', b'nistp384', 'Nistp384'),
          b'1.3.132.0.35': (b'ecdsa-sha2-nistp521', b'nistp521', 'Nistp521')}
ROOTS = {'yubikey': 'piv', 'fido': 'u2f'}


def okv(t):
    return fld(t, 0, 0)


def callterm(o, pred):
    return [t for t in o.facts.var if t.op == 'call' and pred(t)]


def parsed_cert(der):
    return fld(okv(mk('call', 'x509_parser::parse_x509_certificate', der)), 0, 1)


def spki_of(prog, cert):
    return getf(prog, getf(prog, cert, X, 'tbs_certificate'), TBS, 'subject_pki')


def keybits(prog, spki):
    return getf(prog, getf(prog, spki, SPKI, 'subject_public_key'), BITS, 'data')


def oidis(o, term, const):
    return o.facts.truth_of(eq(mk('disp', term), bytes_(const)))


def bytes_(b):
    return mk('bytes', b)


def other_facts(o, term, allowed):
    """a fact about `term` that is not one of the recognised comparisons"""
    for t in list(o.facts.truth) + list(o.facts.var):
        if t in allowed:
            continue
        if term in subterms(t) and t is not term and not any(a in subterms(t) for a in allowed if a is not t):
            return True
    return False


def spki_forms(prog, der):
    """ways of taking a SubjectPublicKeyInfo apart: (algorithm oid, curve oid call, key bytes, extra conditions)"""
    out = []
    if all(a in prog.adts for a in (SPKI, ALGID, BITS)):
        for spki in der['spki']:
            alg = getf(prog, spki, SPKI, 'algorithm')
            par = getf(prog, alg, ALGID, 'parameters')
            for nm in der['as_oid']:
                out.append((getf(prog, alg, ALGID, 'algorithm'), par, mk('call', nm, fld(par, 1, 0)), keybits(prog, spki)))
    return out


def names_of(run, last):
    """every library routine called whose last segment is `last`"""
    return sorted({c[2] for c in run.it.callsites if c[2].split('::')[-1] == last})


def check_key(R, run, prog, pk, alg, curve, bits, o, tag):
    """pk is the SSH key of this SubjectPublicKeyInfo and the path established its algorithm and curve"""
    f = run.fn
    pv = variants(prog, PKK)
    a = oidis(o, alg, EC)
    if a is not True:
        part = [t for t, q in o.facts.truth.items() if q is True and t.op in ('starts', 'ends') and t.a[0] is mk('disp', alg) and t.a[1].op == 'bytes']
        if part and run.clean and not other_facts(o, alg, {eq(mk('disp', alg), bytes_(c)) for c in [EC, b'1.2.840.113549.1.1.1']} | set(part)):
            R.bad(f'{tag}:algorithm', f.key, f.span, 'a key is returned although only a part of its algorithm identifier was compared: ' + facts(o))
        elif other_facts(o, alg, {eq(mk('disp', alg), bytes_(c)) for c in [EC, b'1.2.840.113549.1.1.1']}) or not run.clean:
            R.unsure(f'{tag}: algorithm compared in another way')
        else:
            R.bad(f'{tag}:algorithm', f.key, f.span, 'a key is returned although its algorithm was not found to be an elliptic curve key: ' + facts(o))
        return
    R.good(f'{tag}:algorithm')
    hit = [c for c in CURVES if oidis(o, curve, c) is True]
    if not hit:
        consts = [t for t, q in o.facts.truth.items() if q is True and t.op == 'eq' and mk('disp', curve) in t.a]
        if not consts and (other_facts(o, curve, {eq(mk('disp', curve), bytes_(c)) for c in CURVES}) or not run.clean):
            R.unsure(f'{tag}: curve compared in another way')
        else:
            R.bad(f'{tag}:curve', f.key, f.span, 'a key is returned although its curve is not one that has an SSH name: ' + facts(o))
        return
    name, ident, kind = CURVES[hit[0]]
    kt = getf(prog, pk, PK, 'key_type')
    k = getf(prog, pk, PK, 'kind')
    R.same(run, f'{tag}:type:{ident.decode()}', getf(prog, kt, KT, 'name'), bytes_(name), f'key type for curve {hit[0].decode()}', o)
    if k.op == 'agg':
        if not R.expect(k.a[1] == pv['Ecdsa'], f'{tag}:kind', f.key, f.span, f'an elliptic curve key becomes {cut(k)}'):
            return
    e = fld(k, pv['Ecdsa'], 0)
    c = getf(prog, e, ECPK, 'curve')
    R.same(run, f'{tag}:curve:{ident.decode()}', getf(prog, c, 'ssh::keytype::Curve', 'identifier'), bytes_(ident), f'curve for {hit[0].decode()}', o)
    ck = getf(prog, c, 'ssh::keytype::Curve', 'kind')
    if ck.op == 'agg':
        R.expect(ck.a[1] == variants(prog, 'ssh::keytype::CurveKind').get(kind), f'{tag}:curvekind:{ident.decode()}', f.key, f.span, f'curve {ident.decode()} is stored as {cut(ck)}')
    R.same(run, f'{tag}:key', getf(prog, e, ECPK, 'key'), bits, 'public point', o)
    R.same(run, f'{tag}:application', getf(prog, e, ECPK, 'sk_application'), NONE, 'application', o)
    return hit[0]


def x509_rule(entry, what, spki_terms):
    def r(R, cfg):
        prog, A = R.progs[cfg], R.anch[cfg]
        f = R.fn(cfg, entry)
        if f is None:
            if R.fn(cfg, 'x509::der_encoding_to_ssh_public_key') is None and not any(k.key.startswith('x509::') for k in prog.fns.values()):
                return
            return R.bad('missing', entry, None, f'{entry} is gone')
        run = R.explore(cfg, f)
        if run is None or not classify(R, run, what):
            return
        d = P(f, 1)
        forms = []
        oids = names_of(run, 'as_oid') or ['?']
        spkis, extra = spki_terms(prog, run, d)
        for s in spkis:
            forms += spki_forms(prog, {'spki': [s], 'as_oid': oids})
        forms = [(a, p_, okv(c), k) for a, p_, c, k in forms]
        ders = der_forms(prog, run, d)
        done = set()
        for o in run.oks():
            pk = o.ret.a[2]
            ks = [g for g in forms + ders if g[3] in subterms(pk)]
            if not ks:
                if imprecise(pk) or not run.clean or not (forms or ders):
                    R.unsure(f'{what}: key source not located')
                else:
                    R.bad(f'{what}:source', f.key, f.span, f'the returned key is not the public key of the given {what}: {cut(pk)}')
                continue
            alg, par, curve, bits = ks[0]
            got = check_key(R, run, prog, pk, alg, curve, bits, o, what)
            if got:
                done.add(got)
        for o in run.errs():
            just = failed(o)
            for alg, par, curve, bits in forms + ders:
                just = just or oidis(o, alg, EC) is False or par is not None and o.facts.variant(par) == 0
                just = just or all(oidis(o, curve, c) is False for c in list(CURVES)[:2])
                just = just or oidis(o, alg, b'1.2.840.113549.1.1.1') is True
            just = just or any(q is False and t.op == 'eq' and any(x.op == 'len' for x in t.a) for t, q in o.facts.truth.items())
            just = just or any(bits in subterms(t) for *_, bits in forms + ders for t in o.facts.truth)
            if not just and not run.clean:
                R.unsure(f'{what}: rejection not understood')
                continue
            if not just and any(other_facts(o, t, set()) for g in forms + ders for t in (g[0], g[2])):
                if not any(oidis(o, g[2], c) is True for g in forms + ders for c in list(CURVES)[:2]):
                    R.unsure(f'{what}: rejection on another comparison')
                    continue
            R.expect(just, f'{what}:reject', f.key, f.span, f'a {what} with a supported key is rejected: ' + facts(o))
        if run.clean and (forms or ders):
            for c in list(CURVES)[:2]:
                if c not in done and any(u[0] == R.cur and u[1] == cfg for u in R.unsures):
                    continue
                R.expect(c in done, f'{what}:supported:{CURVES[c][1].decode()}', f.key, f.span, f'no path accepts a {CURVES[c][1].decode()} key')
    return r


def der_forms(prog, run, d):
    """the key parsed as a plain DER sequence { { oid, oid }, bit string }"""
    out = []
    for ps in names_of(run, 'parse_der_sequence') + names_of(run, 'parse_der') + names_of(run, 'parse_ber'):
        for sq in names_of(run, 'as_sequence'):
            for oi in names_of(run, 'as_oid'):
                for bs in names_of(run, 'as_bitstring'):
                    top = okv(mk('call', sq, fld(okv(mk('call', ps, d)), 0, 1)))
                    ids = okv(mk('call', sq, elem(top, ZERO)))
                    out.append((okv(mk('call', oi, elem(ids, ZERO))), None, okv(mk('call', oi, elem(ids, ONE))),
                                getf(prog, okv(mk('call', bs, elem(top, ONE))), DBITS, 'data')))
    return out


def t_cert(prog, run, d):
    return [spki_of(prog, parsed_cert(d))], None


def t_csr(prog, run, d):
    out = []
    for n in sorted({c[2] for c in run.it.callsites if 'X509CertificationRequest' in c[2] and c[2].endswith('from_der')}):
        info = getf(prog, fld(okv(mk('call', n, d)), 0, 1), CSR, 'certification_request_info')
        out.append(getf(prog, info, CSRI, 'subject_pki'))
    return out, None


def t_der(prog, run, d):
    out = []
    for n in sorted({c[2] for c in run.it.callsites if 'SubjectPublicKeyInfo' in c[2] and c[2].endswith('from_der')}):
        out.append(fld(okv(mk('call', n, d)), 0, 1))
    return out, None


rule('x509.certificate')(x509_rule('x509::extract_ssh_pubkey_from_x509_certificate', 'certificate', t_cert))
rule('x509.csr')(x509_rule('x509::extract_ssh_pubkey_from_x509_csr', 'signing request', t_csr))
rule('x509.der')(x509_rule('x509::der_encoding_to_ssh_public_key', 'encoded key', t_der))


# ---------------------------------------------------------------- certificate chains
DIGEST = {'piv': '63ece914e54dd87915f34033c85af4c0696ba1512f8add66ced738331207b546', 'u2f': '0fa1386f80eb8713263ae5c1d84deb455bdf08aea50ab05503cefee82b092d42'}




def pem_digest(b):
    try:
        t = b.decode().split('-----BEGIN CERTIFICATE-----')[1].split('-----END')[0]
        return hashlib.sha256(base64.b64decode(''.join(t.split()))).hexdigest()
    except Exception:
        return None


def root_ok(R, run, prog, o, param, which, root):
    """root (a parsed certificate term) is the given root, or the built-in one when none is given"""
    f = run.fn
    given = o.facts.variant(param)
    pems = [x for x in subterms(root) if x.op == 'call' and x.a[0].split('::')[-1] == 'parse_x509_pem']
    if len(pems) != 1:
        return R.unsure(f'{which}: root parsing not located')
    t = pems[0].a[1]
    if t.op == 'bytes':
        R.expect(given == 0, f'{which}:builtin-root', f.key, f.span, 'the built-in root is used although the caller gave one' if given == 1 else 'the built-in root is used without regard to the given one')
        R.expect(pem_digest(t.a[0]) == DIGEST[which], f'{which}:root', f.key, f.span, 'the built-in root certificate is not the Yubico one')
    elif given == 0:
        R.mismatch(run, f'{which}:root', t, param, o, 'root used when none is given')
    else:
        R.same(run, f'{which}:given-root', t, fld(param, 1, 0), 'root certificate text', o)


def signed_by(o):
    """[(certificate, issuer spki or None, ok?)] for every certificate signature check on the path"""
    out = []
    for t, q in o.facts.var.items():
        if t.op == 'call' and t.a[0].split('::')[-1] == 'verify_signature' and len(t.a) == 3:
            i = t.a[2]
            out.append((t.a[1], fld(i, 1, 0) if i.op == 'agg' and i.a[1] == 1 else None if i.op == 'agg' else i, q == 0))
    return out


def ext_loop(run, lv):
    """the loop carrying lv, if it walks a list from its first to its last element"""
    for i in run.it.loops.values():
        if lv in i['init']:
            it = i.get('iter')
            if it and i['init'].get(it[0]) is ZERO:
                return i, it[0], it[1]
    return None


def fold_fields(R, run, prog, o, which, cert, fields):
    """each result field is set exactly by the extension with its OID, from that extension's value"""
    f = run.fn
    exts = getf(prog, getf(prog, cert, X, 'tbs_certificate'), TBS, 'extensions')
    for name, (term, opt, oid, spec) in fields.items():
        lvs = {x for x in subterms(term) if x.op == 'lv'}
        loops = [ext_loop(run, x) for x in lvs]
        if not lvs:
            if imprecise(term) or not run.clean:
                R.unsure(f'{which}:{name}: not located')
            else:
                R.bad(f'{which}:{name}', f.key, f.span, f'{name} does not come from the extensions: {cut(term)}')
            continue
        if None in loops or len({l[0]['uid'] for l in loops}) != 1:
            R.unsure(f'{which}:{name}: loop over the extensions not recognised')
            continue
        info, pos, src = loops[0]
        R.same(run, f'{which}:{name}:certificate', src, exts, f'extensions {name} is taken from', o)
        R.expect(o.facts.truth_of(le(length(src), pos)) is True or not run.clean, f'{which}:{name}:all', f.key, f.span, 'not every extension is looked at')
        ext = elem(src, pos)
        ATOMS.add(ext)
        eoid, val = getf(prog, ext, EXT, 'oid'), getf(prog, ext, EXT, 'value')
        want_oid = eq(mk('disp', eoid), bytes_(oid))
        set_seen = False
        for m, cd, F in zip(info['steps'], info['conds'], info['sfacts']):
            new = subst(term, {x: m[x] for x in lvs if x in m})
            is_it = F.truth_of(want_oid)
            if new is term:
                if is_it is True:
                    if any(F.variant(x) == 1 for x in lvs):
                        R.unsure(f'{which}:{name}: earlier value kept')
                        continue
                    why = spec(prog, run, F, val, None)
                    if why is None:
                        R.unsure(f'{which}:{name}: ignored for an unknown reason')
                    else:
                        R.expect(why, f'{which}:{name}:ignored', f.key, f.span, f'a well-formed {name} extension is ignored: ' + cut(', '.join(show(k) + ('' if v else ' is false') for k, v in cd.items())))
                continue
            if is_it is None:
                if any(mk('disp', eoid) is x or eoid is x for k in cd for x in subterms(k)) and not any(mk('disp', eoid) in subterms(k) for k in cd):
                    R.unsure(f'{which}:{name}: OID compared in another way')
                    continue
            if is_it is not True:
                hits = [show(k) for k, v in cd.items() if v is True and mk('disp', eoid) in subterms(k)]
                if not run.clean:
                    R.unsure(f'{which}:{name}: OID not decided')
                    continue
                R.bad(f'{which}:{name}:oid', f.key, f.span, f'{name} is taken from an extension other than {oid.decode()}: {cut(", ".join(hits) or "any")}')
                continue
            set_seen = True
            spec(prog, run, F, val, (R, f'{which}:{name}', new))
        if run.clean and not any(u[0] == R.cur and name in u[2] for u in R.unsures):
            R.expect(set_seen, f'{which}:{name}:set', f.key, f.span, f'no extension ever sets {name}')


def tight(F, s, *conds):
    """the path says one of the conditions is false (True), or leaves room for all while looking at nothing but the length (False)"""
    if any(cond_false(F, c) for c in conds):
        return True
    n = length(s)
    for t in F.truth:
        if s in subterms(t) and not (t.op in ('le0', 'eq') and not any(x is s for x in _outside(t, n))):
            return None
    return False


def _outside(t, n):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x in seen or x is n:
            continue
        seen.add(x)
        yield x
        st.extend(_kids(x))


class _O:
    def __init__(self, F):
        self.facts = F


def cond_false(F, c):
    return tv(_O(F), c) is False


def cond_true(F, c):
    return tv(_O(F), c) is True


def version(s):
    dot = bytes_(b'.')
    return cat(mk('disp', elem(s, ZERO)), dot, mk('disp', elem(s, ONE)), dot, mk('disp', elem(s, I(2))))


def wrongvariant(F, pred):
    """some value was found not to be of the expected variant"""
    for t, q in F.truth.items():
        if t.op == 'is' and q is False and pred(t.a[0]):
            return True
    for t, vs in F.nvar.items():
        if vs and pred(t):
            return True
    return any(pred(t) and t.op != 'call' for t in F.var)


def parsed(run, val, last):
    return [mk('call', n, val) for n in names_of(run, last)]


def content(run, F, val, *parsers):
    """payloads of the DER object parsed from val on this path"""
    out = []
    for t, v in F.var.items():
        if v is not None and t.op == 'fld':
            c = [x for x in subterms(t) if x.op == 'call' and x.a[0].split('::')[-1] in parsers and len(x.a) == 2 and x.a[1] is val]
            if c:
                out.append((t, v, c[0]))
    return out


def spec_firmware_piv(prog, run, F, val, got):
    if got is None:
        return tight(F, val, eq(length(val), I(3)))
    R, key, new = got
    R.same(run, key, new, version(val), 'firmware')
    R.expect(cond_true(F, eq(length(val), I(3))), key + ':length', run.fn.key, run.fn.span, 'the firmware is taken from an extension that is not three bytes long')


def spec_policy(i):
    def s(prog, run, F, val, got):
        if got is None:
            return tight(F, val, le(I(2), length(val)), eq(length(val), I(2)))
        R, key, new = got
        R.same(run, key, new, elem(val, I(i)), 'policy')
    return s


def spec_serial(prog, run, F, val, got):
    c = content(run, F, val, 'parse_der_integer', 'parse_ber_integer')
    if got is None:
        if not c:
            return True if any(t.op == 'call' and v == 1 for t, v in F.var.items()) or wrongvariant(F, lambda t: val in subterms(t)) else None
        s = fld(c[0][0], c[0][1], 0)
        return tight(F, s, le(length(s), I(8)))
    R, key, new = got
    if not c:
        return R.unsure(key + ': integer not located')
    s = fld(c[0][0], c[0][1], 0)
    want = unbe(8, cat(rep(ZERO, sub(I(8), length(s))), s))
    if new is not want and new.op == 'unbe' and new.a[1] is s and cond_true(F, eq(length(s), I(8))):
        new = want
    R.same(run, key, new, want, 'serial number')


PIV = 'yubikey::verification::verify_certificate_chain'
VPK = 'yubikey::verification::ValidPIVKey'


@rule('piv.chain')
def piv_chain(R, cfg):
    """the root signed the intermediate, the intermediate signed the client, and everything returned is the client's"""
    prog = R.progs[cfg]
    if VPK not in prog.adts and not any(k.key.startswith('yubikey::verification') for k in prog.fns.values()):
        return
    f = R.fn(cfg, PIV)
    if f is None:
        return R.bad('missing', PIV, None, 'verify_certificate_chain is gone')
    run = R.explore(cfg, f)
    if run is None or not classify(R, run, 'piv'):
        return
    client, inter = parsed_cert(P(f, 1)), parsed_cert(P(f, 2))
    oids = names_of(run, 'as_oid') or ['?']
    n = 0
    for o in run.oks():
        n += 1
        v = o.ret.a[2]
        chk = signed_by(o)
        good_i = [i for c, i, q in chk if q and c is inter]
        good_c = [i for c, i, q in chk if q and c is client]
        if not chk and not run.clean:
            R.unsure('piv: signature checks not located')
            continue
        if R.expect(spki_of(prog, inter) in good_c, 'client-signed', f.key, f.span, 'an attestation is accepted although its certificate was not verified with the intermediate\'s key'):
            pass
        roots = [i for i in good_i if i is not None and any(x.op == 'call' and x.a[0].split('::')[-1] == 'parse_x509_pem' for x in subterms(i))]
        if R.expect(bool(roots), 'intermediate-signed', f.key, f.span, 'an attestation is accepted although the intermediate was not verified with the root\'s key'):
            root = roots[0]
            pr = [x for x in subterms(root) if x.op == 'call' and x.a[0].split('::')[-1] == 'parse_x509']
            if pr:
                R.same(run, 'root-key', root, spki_of(prog, okv(pr[0])), 'key the intermediate is verified with', o)
            root_ok(R, run, prog, o, P(f, 3), 'piv', root)
        pk = getf(prog, v, VPK, 'public_key')
        for alg, par, curve, bits in [(a, p_, okv(c), k) for a, p_, c, k in spki_forms(prog, {'spki': [spki_of(prog, client)], 'as_oid': oids})][:1]:
            if bits not in subterms(pk):
                R.mismatch(run, 'key', pk, bits, o, 'public key returned')
            else:
                check_key(R, run, prog, pk, alg, curve, bits, o, 'key')
        fold_fields(R, run, prog, o, 'piv', client, {
            'firmware': (getf(prog, v, VPK, 'firmware'), False, b'1.3.6.1.4.1.41482.3.3', spec_firmware_piv),
            'serial': (getf(prog, v, VPK, 'serial'), False, b'1.3.6.1.4.1.41482.3.7', spec_serial),
            'pin_policy': (getf(prog, v, VPK, 'pin_policy'), False, b'1.3.6.1.4.1.41482.3.8', spec_policy(0)),
            'touch_policy': (getf(prog, v, VPK, 'touch_policy'), False, b'1.3.6.1.4.1.41482.3.8', spec_policy(1))})
        for nm in ('firmware', 'serial', 'pin_policy', 'touch_policy'):
            t = getf(prog, v, VPK, nm)
            for x in subterms(t):
                if x.op == 'lv' and ext_loop(run, x):
                    i0 = ext_loop(run, x)[0]['init'][x]
                    if i0.op == 'agg' and i0.a[0].endswith('Option') and i0.a[1] == 0:
                        R.expect(o.facts.variant(x) == 1, f'present:{nm}', f.key, f.span, f'an attestation without {nm} is accepted')
                    elif not imprecise(i0):
                        R.bad(f'present:{nm}', f.key, f.span, f'{nm} defaults to {cut(i0)} when the extension is absent')
    if run.clean:
        R.expect(n > 0, 'accepts', f.key, f.span, 'no chain is ever accepted')
    for o in run.errs():
        chain_reject(R, run, prog, o, 'piv')


def chain_reject(R, run, prog, o, tag, extra=False):
    f = run.fn
    j = extra or failed(o) or any(t.op == 'disp' or t.op == 'eq' and any(x.op == 'disp' for x in t.a) and q is False for t, q in o.facts.truth.items() if not any(x.op == 'lv' for x in subterms(t)))
    j = j or any(x.op == 'lv' for t in list(o.facts.var) + list(o.facts.truth) + list(o.facts.nvar) if t.op in ('lv', 'is') for x in [t.a[0] if t.op == 'is' else t] if isinstance(x, T))
    j = j or any(v == 0 and t.op == 'fld' for t, v in o.facts.var.items())
    j = j or any(q is True and t.op == 'eq' and bytes_(b'1.2.840.113549.1.1.1') in t.a for t, q in o.facts.truth.items())
    if not j and not run.clean:
        return R.unsure(f'{tag}: rejection not understood')
    R.expect(j, 'reject', f.key, f.span, 'a valid attestation is rejected: ' + facts(o) + ' ' + cut(', '.join(show(t) for t in o.facts.var), 200))


# ---------------------------------------------------------------- FIDO
FV = 'fido::verification::verify_auth_data'
VA = 'fido::verification::ValidAttestation'
AD = 'fido::parsing::AuthData'
COSE = 'fido::parsing::CoseKey'
APARSE = 'fido::parsing::AuthData::parse'
BOC = 'der_parser::ber::ber::BerObjectContent'


def spec_octets(n, build, what):
    def s(prog, run, F, val, got):
        c = [x for x in content(run, F, val, 'parse_der_octetstring', 'parse_ber_octetstring', 'parse_der', 'parse_ber')]
        if got is None:
            if not c:
                return True if wrongvariant(F, lambda t: val in subterms(t)) else None
            return tight(F, fld(c[0][0], c[0][1], 0), eq(length(fld(c[0][0], c[0][1], 0)), I(n)))
        R, key, new = got
        if not c:
            return R.unsure(key + ': octet string not located')
        s_ = fld(c[0][0], c[0][1], 0)
        R.same(run, key, new, some(build(s_)), what)
        R.expect(cond_true(F, eq(length(s_), I(n))), key + ':length', run.fn.key, run.fn.span, f'{what} is taken from a value that is not {n} bytes long')
    return s


def spec_transports(prog, run, F, val, got):
    if got is None:
        return True if wrongvariant(F, lambda t: val in subterms(t)) else None
    R, key, new = got
    if new.op != 'agg' or new.a[1] != 1:
        return R.unsure(key + ': not located ' + cut(new))
    ps = parts_of(new.a[2])
    tv_ = {i: n for n, i in variants(prog, 'fido::verification::Transport').items()}
    bits = {}
    for t, q in F.truth.items():
        if t.op == 'call' and t.a[0].split('::')[-1] == 'is_set' and len(t.a) == 3 and t.a[2].op == 'int' and val in subterms(t.a[1]):
            bits[t.a[2].a[0]] = q
    if not all(k == 'e' and x.op == 'agg' for k, x in ps):
        return R.unsure(key + ': not located ' + cut(new))
    names = [tv_.get(x.a[1]) for k, x in ps]
    order = ['Bluetooth', 'BluetoothLE', 'USB', 'NFC', 'USBInternal']
    if not bits and names:
        return R.unsure(key + ': bits tested in another way')
    want = [n for i, n in enumerate(order) if bits.get(i)]
    missing = [n for i, n in enumerate(order) if i not in bits]
    if missing and not bits:
        return R.unsure(key + ': bits tested in another way')
    R.expect(not missing, key + ':bits', run.fn.key, run.fn.span, f'transports {missing} are never reported')
    R.expect(sorted(names) == sorted(want), key, run.fn.key, run.fn.span, f'bits {sorted(i for i in bits if bits[i])} are reported as {names}')


@rule('fido.verify')
def fido_verify(R, cfg):
    """an attestation is accepted only if root signed the intermediate and the intermediate signed auth data || challenge"""
    prog, A = R.progs[cfg], R.anch[cfg]
    if not any(k.key.startswith('fido::verification') for k in prog.fns.values()):
        return
    f = R.fn(cfg, FV)
    if f is None:
        return R.bad('missing', FV, None, 'verify_auth_data is gone')
    run = R.explore(cfg, f, A.pure(APARSE))
    if run is None or not classify(R, run, 'fido'):
        return
    ad, sg, ch, alg, ider, rootp = (P(f, i) for i in range(1, 7))
    inter = parsed_cert(ider)
    n = 0
    for o in run.oks():
        n += 1
        v = o.ret.a[2]
        a7 = o.facts.truth_of(eq(alg, I(-7)))
        R.expect(a7 is True or not run.clean, 'algorithm', f.key, f.span, 'an attestation is accepted for an algorithm other than ES256 (-7)')
        chk = signed_by(o)
        roots = [i for c, i, q in chk if q and c is inter and i is not None and any(x.op == 'call' and x.a[0].split('::')[-1] == 'parse_x509_pem' for x in subterms(i))]
        if R.expect(bool(roots) or not run.clean, 'intermediate-signed', f.key, f.span, 'an attestation is accepted although the intermediate was not verified with the root\'s key') and roots:
            pr = [x for x in subterms(roots[0]) if x.op == 'call' and x.a[0].split('::')[-1] == 'parse_x509']
            if pr:
                R.same(run, 'root-key', roots[0], spki_of(prog, okv(pr[0])), 'key the intermediate is verified with', o)
            root_ok(R, run, prog, o, rootp, 'u2f', roots[0])
        vs = [t for t, q in o.facts.var.items() if t.op == 'call' and t.a[0] == 'verify' and q == 0]
        if R.expect(bool(vs) or not run.clean, 'signature', f.key, f.span, 'an attestation is accepted although its signature was not verified') and vs:
            t = vs[-1]
            R.expect(algname(t.a[1]) in ('ECDSA_P256_SHA256_ASN1', None), 'signature-algorithm', f.key, f.span, f'the attestation signature is verified as {algname(t.a[1])}')
            R.same(run, 'signature-key', t.a[2], keybits(prog, spki_of(prog, inter)), 'key the attestation signature is verified with', o)
            R.same(run, 'signature-message', t.a[3], cat(ad, ch), 'bytes the attestation signature covers', o)
            R.same(run, 'signature-value', t.a[4], sg, 'attestation signature', o)
        R.same(run, 'auth-data', getf(prog, v, VA, 'auth_data'), okv(mk('call', APARSE, ad)), 'authenticator data returned', o)
        fold_fields(R, run, prog, o, 'fido', inter, {
            'firmware': (getf(prog, v, VA, 'firmware'), True, b'1.3.6.1.4.1.41482.13.1', spec_octets(3, version, 'firmware')),
            'aaguid': (getf(prog, v, VA, 'aaguid'), True, b'1.3.6.1.4.1.45724.1.1.4', spec_octets(16, lambda s: s, 'AAGUID')),
            'transports': (getf(prog, v, VA, 'transports'), True, b'1.3.6.1.4.1.45724.2.1.1', spec_transports)})
        for nm in ('firmware', 'aaguid', 'transports'):
            t = getf(prog, v, VA, nm)
            if t.op == 'lv' and ext_loop(run, t):
                R.same(run, f'absent:{nm}', ext_loop(run, t)[0]['init'][t], NONE, f'{nm} when there is no such extension', o)
    if run.clean:
        R.expect(n > 0, 'accepts', f.key, f.span, 'no attestation is ever accepted')
    for o in run.errs():
        if o.facts.truth_of(eq(alg, I(-7))) is False:
            R.good('reject')
            continue
        chain_reject(R, run, prog, o, 'fido')


def int_reader(prog, A):
    """the helper reading one CBOR integer, located by its signature"""
    fs = [f for f in by_sig(prog, 'fido::parsing', [lambda t: t.startswith('&mut') and 'Decoder' in t], lambda t: 'Result<i' in t)]
    if len(fs) != 1:
        return {}, None

    def h(c):
        m = c.args[0]
        if m.op != 'mref':
            return None
        S = c.val(0)
        c.I.store(c.st, m.a[0], m.a[1], mk('aftint', S))
        return mk('call', 'cborint', S)
    return {fs[0].key: h}, fs[0]


CBOR = ['U8', 'U16', 'U32', 'U64', 'I8', 'I16', 'I32', 'I64']
WIDE = {'U8': 'u8 u16 u32 u64 i16 i32 i64 int', 'U16': 'u16 u32 u64 i32 i64 int', 'U32': 'u32 u64 i64 int', 'U64': 'u64 int',
        'I8': 'i8 i16 i32 i64 int', 'I16': 'i16 i32 i64 int', 'I32': 'i32 i64 int', 'I64': 'i64 int'}


@rule('fido.integer')
def fido_integer(R, cfg):
    """every CBOR integer is read with its own width and sign"""
    prog, A = R.progs[cfg], R.anch[cfg]
    _, f = int_reader(prog, A)
    if f is None:
        return
    run = R.explore(cfg, f)
    if run is None or not classify(R, run, 'integer'):
        return
    S = P(f, 1)
    dv = [v for k, v in prog.adts.items() if k.startswith('minicbor') and k.endswith('::Type')]
    if len(dv) != 1:
        return R.unsure('CBOR data types not located')
    names = [v['name'] for v in dv[0]['variants']]
    seen = set()
    for o in run.oks():
        t = o.ret.a[2]
        vs = [(k, v) for k, v in o.facts.var.items() if k.op == 'fld' and any(x.op == 'call' and x.a[0].split('::')[-1] == 'datatype' for x in subterms(k))]
        c = [x for x in subterms(t) if x.op == 'call' and x.a[0].split('::')[-1] in set(' '.join(WIDE.values()).split())]
        if not c:
            R.unsure('integer: reading not located ' + cut(t))
            continue
        m = c[0].a[0].split('::')[-1]
        if not vs:
            if m in ('i64', 'int'):
                seen |= {n for n in WIDE if m in WIDE[n].split()}
            else:
                R.unsure('integer: type not tested')
            continue
        n = names[vs[0][1]]
        if n not in WIDE:
            R.bad('type:' + n, f.key, f.span, f'a CBOR {n} is read as an integer')
            continue
        seen.add(n)
        R.expect(m in WIDE[n].split(), 'width:' + n, f.key, f.span, f'a CBOR {n} is read with {m}()')
        R.same(run, 'value:' + n, t, okv(c[0]), 'integer value', o)
    if run.clean:
        R.expect(all(n in seen for n in CBOR), 'complete', f.key, f.span, f'integers of type {[n for n in CBOR if n not in seen]} are rejected')


@rule('fido.authdata')
def authdata(R, cfg):
    """authenticator data: fixed layout, credential, and the COSE key map"""
    prog, A = R.progs[cfg], R.anch[cfg]
    if not any(k.key.startswith('fido::parsing') for k in prog.fns.values()):
        return
    f = R.fn(cfg, APARSE)
    if f is None:
        return R.bad('missing', APARSE, None, 'AuthData::parse is gone')
    ov, rf = int_reader(prog, A)
    run = R.explore(cfg, f, ov)
    if run is None or not classify(R, run, 'authdata'):
        return
    d = P(f, 1)
    L = length(d)
    n = unbe(2, slice_(d, I(53), I(55)))
    end = add(n, I(55))
    for o in run.oks():
        v = o.ret.a[2]
        for nm, want in (('rpid_hash', slice_(d, ZERO, I(32))), ('flags', elem(d, I(32))), ('sign_count', unbe(4, slice_(d, I(33), I(37)))),
                         ('aaguid', slice_(d, I(37), I(53))), ('credential_id', slice_(d, I(55), end))):
            R.same(run, nm, getf(prog, v, AD, nm), want, nm, o)
        R.expect(tv(o, le(end, L)) is True or not run.clean, 'bounds', f.key, f.span, 'authenticator data shorter than its fields is accepted')
        fl = flag_range(o, elem(d, I(32)))
        if fl is None:
            R.unsure('authdata: flag test not recognised')
            fl = ()
        R.expect(all(x & 64 for x in fl) or not run.clean, 'attested', f.key, f.span, 'a key is returned although the flags say that none is included')
        cose(R, run, prog, o, getf(prog, v, AD, 'cose_key'), slice_(d, end, L))
    if run.clean:
        R.expect(bool(run.oks()), 'accepts', f.key, f.span, 'no authenticator data is ever accepted')
    for o in run.errs():
        F = o.facts
        j = failed(o) or any(q is False and t.op == 'le0' and L in lin_of(t.a[0])[1] for t, q in F.truth.items())
        fl = flag_range(o, elem(d, I(32)))
        j = j or fl is not None and not any(x & 64 for x in fl)
        mp = [t for t in list(F.var) + [t.a[0] for t in F.truth if t.op == 'is'] + list(F.nvar) if t.op == 'fld' and t.a[0].op == 'call' and t.a[0].a[0].split('::')[-1] == 'map']
        j = j or any(F.variant(t) == 0 or mk('is', t, 1) in F.truth and F.truth[mk('is', t, 1)] is False for t in mp)
        for t in mp:
            ln = fld(t, 1, 0)
            j = j or tv(o, le(ln, I(256))) is False or any(ln in lin_of(k.a[0])[1] for k, q in F.truth.items() if k.op == 'le0' and not any(x.op == 'lv' for x in subterms(k))) and tv(o, le(I(16), ln)) is True
        if not j and not run.clean:
            R.unsure('authdata: rejection not understood')
            continue
        R.expect(j, 'reject', f.key, f.span, 'well-formed authenticator data is rejected: ' + facts(o))


def cose(R, run, prog, o, key, rest):
    f = run.fn
    parts = {nm: getf(prog, key, COSE, nm) for nm in ('key_type', 'algorithm', 'key', 'parameters')}
    lvs = [x for x in subterms(key) if x.op == 'lv']
    infos = {i['uid']: i for x in lvs for i in run.it.loops.values() if x in i['init']}
    if len(infos) != 1:
        if not lvs and run.clean and not imprecise(key):
            R.bad('map', f.key, f.span, f'the COSE key is not read from its map: {cut(key)}')
        else:
            R.unsure('authdata: loop over the COSE map not recognised')
        return
    info, = infos.values()
    dec = [lv for lv, i in info['init'].items() if any(x.op == 'call' and x.a[0].split('::')[-1] == 'new' and 'Decoder' in x.a[0] for x in subterms(i))]
    if len(dec) != 1:
        return R.unsure('authdata: decoder not located')
    S = dec[0]
    i0 = info['init'][S]
    new = [x for x in subterms(i0) if x.op == 'call' and 'Decoder' in x.a[0] and x.a[0].split('::')[-1] == 'new'][0]
    R.same(run, 'cose-start', new.a[1], rest, 'bytes the COSE key is decoded from', o)
    ln = [fld(okv(t), 1, 0) for t in o.facts.var if t.op == 'call' and t.a[0].split('::')[-1] == 'map']
    if ln:
        # the loop runs once per entry of the map
        done = False
        for lv, i in info['init'].items():
            if i is not ZERO:
                continue
            ds = {sub(m.get(lv, lv), lv) for m in info['steps']}
            if len(ds) == 1 and list(ds)[0].op == 'int' and list(ds)[0].a[0] > 0:
                st = list(ds)[0].a[0]
                if tv(o, le(mul(I(st), ln[0]), lv)) is True:
                    done = True
        if info.get('iter'):
            done = True
        if not done and not any(sub(m.get(lv, lv), lv).op == 'int' and m.get(lv, lv) is not lv for lv in info['init'] for m in info['steps']):
            R.unsure('authdata: counting of map entries not recognised')
        else:
            R.expect(done or not run.clean, 'entries', f.key, f.span, 'the COSE map is accepted although not all its entries were read')
    k0 = okv(mk('call', 'cborint', S))
    S1 = mk('aftint', S)
    val = okv(mk('call', 'cborint', S1))
    raw = [okv(mk('call', nm, S1)) for nm in names_of(run, 'bytes')] + [okv(mk('call', nm, S1)) for nm in names_of(run, 'bytes_slice')]
    if not any(x.op == 'call' and x.a[0] == 'cborint' for cd in info['conds'] for t in cd for x in subterms(t)):
        return R.unsure('authdata: map keys not located')

    def sets(lv, unwrap=lambda t: t):
        """{map key: value stored in lv}; None when undecided"""
        r = {}
        for m, F in zip(info['steps'], info['sfacts']):
            nv = m.get(lv, lv)
            ks = [q for q in (-1, 1, 3, -2, -3) if F.truth_of(eq(k0, I(q))) is True]
            kk = ks[0] if ks else None
            if nv is not lv:
                r.setdefault(kk, []).append(unwrap(nv))
            elif ks:
                r.setdefault(('keep', kk), []).append(None)
        return r

    def only(nm, lv, kk, want, unwrap=lambda t: t):
        r = sets(lv, unwrap)
        for q, vs in r.items():
            if isinstance(q, tuple):
                if q[1] == kk:
                    R.bad(f'cose:{nm}:ignored', f.key, f.span, f'entry {kk} of the COSE map is ignored')
                continue
            if not R.expect(q == kk, f'cose:{nm}:entry', f.key, f.span, f'{nm} is taken from entry {q} of the COSE map'):
                continue
            for x in vs:
                if any(x is w for w in want):
                    R.good(f'cose:{nm}')
                elif any(x is cat(lv, w) or x is cat(w, lv) for w in want) and run.clean:
                    R.bad(f'cose:{nm}:joined', f.key, f.span, f'a repeated entry {kk} of the COSE map is joined to the one before')
                else:
                    R.mismatch(run, f'cose:{nm}', x, want[0], o, f'{nm} of the COSE key')
        R.expect(kk in r, f'cose:{nm}:read', f.key, f.span, f'entry {kk} of the COSE map is never stored')

    for nm, kk in (('key_type', 1), ('algorithm', 3)):
        t = parts[nm]
        if t.op != 'lv':
            R.mismatch(run, f'cose:{nm}', t, val, o, nm) if not any(x.op == 'lv' for x in subterms(t)) else R.unsure(f'authdata: {nm} ' + cut(t))
        else:
            only(nm, t, kk, [val])
    t = parts['parameters']
    if t.op == 'lv':
        only('parameters', t, -1, [mk('mapins', t, k0, mk('disp', val)), mk('mapins', t, I(-1), mk('disp', val))])
    else:
        R.unsure('authdata: parameters ' + cut(t))
    t = parts['key']
    ps = parts_of(t) if t.op == 'seq' else [('s', t)]
    opt = lambda x: x.a[2] if x.op == 'agg' and x.a[1] == 1 and len(x.a) > 2 else x
    ylv = [lv for lv in info['init'] if any(isinstance(q, int) and q == -3 for q in sets(lv))]
    if len(ps) == 1 and ps[0][1].op == 'lv':
        x = ps[0][1]
        if not ylv or ylv == [x]:
            only('key', x, -2, raw)
            if not ylv:
                R.expect(not run.clean, 'cose:y', f.key, f.span, 'the y coordinate of an elliptic curve key (entry -3) is dropped')
            return
        R.expect(any(o.facts.variant(y) == 0 or o.facts.truth_of(eq(length(y), ZERO)) is True for y in ylv), 'cose:y', f.key, f.span, 'a key with a y coordinate is returned without it')
        only('key', x, -2, raw)
    elif len(ps) == 3 and ps[1][1].op == 'lv':
        x, y = ps[1][1], ps[2][1]
        R.same(run, 'cose:point', ps[0][1], bytes_(b'\x04'), 'first byte of an elliptic curve point', o)
        only('key', x, -2, raw)
        yl = y.a[0] if y.op == 'fld' else y
        if yl.op == 'lv':
            only('y', yl, -3, raw, opt)
        else:
            R.unsure('authdata: y coordinate ' + cut(y))
    else:
        R.unsure('authdata: key ' + cut(t))


@rule('fido.sshkey')
def sshkey(R, cfg):
    """the SSH key of authenticator data: algorithm, key bytes and application; and the two flag queries"""
    prog, A = R.progs[cfg], R.anch[cfg]
    if not any(k.key.startswith('fido::parsing') for k in prog.fns.values()):
        return
    f = R.fn(cfg, 'fido::parsing::AuthData::ssh_public_key')
    if f is None:
        return R.bad('missing', APARSE, None, 'AuthData::ssh_public_key is gone')
    run = R.explore(cfg, f)
    if run is None or not classify(R, run, 'sshkey'):
        return
    ck = getf(prog, P(f, 1), AD, 'cose_key')
    alg, key = getf(prog, ck, COSE, 'algorithm'), getf(prog, ck, COSE, 'key')
    pv = variants(prog, PKK)
    T_ = {-7: ('Ecdsa', b'sk-ecdsa-sha2-nistp256@openssh.com', ECPK), -8: ('Ed25519', b'sk-ssh-ed25519@openssh.com', 'ssh::pubkey::Ed25519PublicKey')}
    seen = set()
    for o in run.oks():
        a = [q for q in T_ if o.facts.truth_of(eq(alg, I(q))) is True]
        if not a:
            hit = any(alg in subterms(t) for t in o.facts.truth)
            R.expect(not run.clean, 'algorithm', f.key, f.span, 'a key with an unknown COSE algorithm is accepted: ' + facts(o)) if not hit or any(t.op == 'eq' and alg in t.a and q for t, q in o.facts.truth.items()) else R.unsure('sshkey: algorithm compared in another way')
            continue
        seen.add(a[0])
        fam, name, adt = T_[a[0]]
        pk = o.ret.a[2]
        R.same(run, f'type:{fam}', getf(prog, getf(prog, pk, PK, 'key_type'), KT, 'name'), bytes_(name), 'key type', o)
        k = getf(prog, pk, PK, 'kind')
        if k.op == 'agg' and not R.expect(k.a[1] == pv[fam], f'kind:{fam}', f.key, f.span, f'a COSE key with algorithm {a[0]} becomes {cut(k)}'):
            continue
        e = fld(k, pv[fam], 0)
        R.same(run, f'key:{fam}', getf(prog, e, adt, 'key'), key, 'public key', o)
        R.same(run, f'application:{fam}', getf(prog, e, adt, 'sk_application'), some(P(f, 2)), 'application', o)
        if fam == 'Ecdsa':
            R.same(run, 'curve', getf(prog, getf(prog, e, adt, 'curve'), 'ssh::keytype::Curve', 'identifier'), bytes_(b'nistp256'), 'curve', o)
    for o in run.errs():
        j = all(o.facts.truth_of(eq(alg, I(q))) is False for q in T_) or any(key in subterms(t) for t in o.facts.truth)
        R.expect(j or not run.clean, 'reject', f.key, f.span, 'a supported key is rejected: ' + facts(o))
    if run.clean:
        R.expect(seen == set(T_), 'supported', f.key, f.span, f'keys with COSE algorithm {set(T_) - seen} are not supported')
    for nm, bit in (('user_presence', 1), ('user_verification', 4)):
        g = R.fn(cfg, f'fido::parsing::AuthData::{nm}')
        if g is None:
            R.bad('missing:' + nm, nm, None, f'AuthData::{nm} is gone')
            continue
        run = R.explore(cfg, g)
        if run is None:
            continue
        fl = getf(prog, P(g, 1), AD, 'flags')
        for o in run.outs:
            flag_value(R, run, prog, o, fl, bit, nm, g)


def flag_value(R, run, prog, o, fl, bit, nm, g):
    """the returned boolean is (flags & bit) != 0, decided for all 256 flag values"""
    t = o.ret
    if any(x is not fl and x.op in ('param', 'call', 'lv') for x in subterms(t) if not any(x in subterms(y) for y in [fl])):
        return R.unsure(f'{nm}: {cut(t)}')
    for v in range(256):
        env = {fl: I(v)}
        if any(evalb(subst(c, env)) is (not q) for c, q in o.facts.truth.items()):
            continue
        r = evalb(subst(t, env))
        if r is None:
            return R.unsure(f'{nm}: {cut(t)}')
        if not R.expect(r == bool(v & bit), nm, g.key, g.span, f'{nm}() is {r} for flags {v:#04x}'):
            return


def flag_range(o, fl):
    """the flag bytes this path allows, or None"""
    cs = [(c, q) for c, q in o.facts.truth.items() if fl in subterms(c)]
    out = []
    for v in range(256):
        rs = [evalb(subst(c, {fl: I(v)})) for c, q in cs]
        if None in rs:
            return None
        if all(r == q for r, (c, q) in zip(rs, cs)):
            out.append(v)
    return out


def evalb(t):
    r = evali(t)
    return None if r is None else bool(r)


def evali(t):
    if t.op == 'int':
        return t.a[0]
    if t.op in ('bool', 'b'):
        return int(bool(t.a[0]))
    if t.op in ('true', 'false'):
        return int(t.op == 'true')
    if t.op == 'lin':
        c, d = lin_of(t)
        for k, m in d.items():
            x = evali(k)
            if x is None:
                return None
            c += m * x
        return c
    a = [evali(x) if isinstance(x, T) else x for x in t.a]
    if any(x is None for x in a):
        return None
    if t.op == 'bitand':
        return a[0] & a[1]
    if t.op == 'bitor':
        return a[0] | a[1]
    if t.op == 'bitxor':
        return a[0] ^ a[1]
    if t.op == 'shr':
        return a[0] >> a[1]
    if t.op == 'eq':
        return int(a[0] == a[1])
    if t.op == 'le0':
        return int(a[0] <= 0)
    if t.op == 'not':
        return int(not a[0])
    return None


# ---------------------------------------------------------------- enrolment
UA = 'fido::generate::U2FAttestation'
FK = 'fido::generate::FIDOSSHKey'
PRV = 'ssh::privkey::PrivateKey'


@rule('fido.attestation')
def attestation(R, cfg):
    """U2FAttestation::verify hands each field to the verifier in its own place, with the built-in root"""
    prog, A = R.progs[cfg], R.anch[cfg]
    if UA not in prog.adts:
        return
    f = R.fn(cfg, UA + '::verify')
    if f is None:
        return R.bad('missing', UA, None, 'U2FAttestation::verify is gone')
    if R.fn(cfg, FV) is None:
        return R.unsure('verifier not located')
    run = R.explore(cfg, f, A.pure(FV))
    if run is None:
        return
    s = P(f, 1)
    want = [getf(prog, s, UA, n) for n in ('auth_data', 'auth_data_sig', 'challenge', 'alg', 'intermediate')] + [NONE]
    for o in run.outs:
        r = o.ret
        if r.op == 'agg':
            c = [t for t in o.facts.var if t.op == 'call' and t.a[0] == FV]
            R.expect(bool(c) and (r.a[1] == 1 or r.a[2] is okv(c[-1]) and o.facts.variant(c[-1]) == 0) or not run.clean, 'result', f.key, f.span, f'an attestation is answered without the verifier: {cut(r)}')
            r = c[-1] if c else None
        if r is None or r.op != 'call' or r.a[0] != FV:
            if r is not None:
                R.unsure('attestation: verifier call not located')
            continue
        for n, g, w in zip(('auth_data', 'auth_data_sig', 'challenge', 'alg', 'intermediate', 'root'), r.a[1:], want):
            R.same(run, n, g, w, f'{n} handed to the verifier', o)


@rule('fido.enrol')
def enrol(R, cfg):
    """a new token key is returned only with its own attestation, verified, over a fresh challenge"""
    prog, A = R.progs[cfg], R.anch[cfg]
    if FK not in prog.adts:
        return
    fs = [g for g in prog.fns.values() if g.key.split('::')[-1] == 'generate_new_ssh_key' and g.key.startswith('fido::generate')]
    if len(fs) != 1:
        return R.unsure('enrolment routine not located')
    f = fs[0]
    SPK = 'fido::parsing::AuthData::ssh_public_key'
    if any(R.fn(cfg, k) is None for k in (FV, APARSE, SPK)):
        return R.unsure('enrolment: helpers not located')
    run = R.explore(cfg, f, A.pure(APARSE, FV, SPK))
    if run is None:
        return
    app, comment, pin, dev = (P(f, i) for i in range(1, 5))
    n = 0
    for o in run.oks():
        n += 1
        v = o.ret.a[2]
        att, key = getf(prog, v, FK, 'attestation'), getf(prog, v, FK, 'private_key')
        g = {x: getf(prog, att, UA, x) for x in ('auth_data', 'auth_data_sig', 'intermediate', 'challenge', 'alg')}
        chk = [t for t, q in o.facts.var.items() if t.op == 'call' and t.a[0] == FV and q == 0]
        if R.expect(bool(chk) or not run.clean, 'verified', f.key, f.span, 'a new key is returned although its attestation was not verified') and chk:
            c = chk[-1]
            for nm, t, w in zip(('auth_data', 'auth_data_sig', 'challenge', 'alg', 'intermediate', 'root'), c.a[1:], [g['auth_data'], g['auth_data_sig'], g['challenge'], g['alg'], g['intermediate'], NONE]):
                R.same(run, f'verified:{nm}', t, w, f'{nm} that was verified', o)
        ad = okv(mk('call', APARSE, g['auth_data']))
        R.same(run, 'public-key', getf(prog, key, PRV, 'pubkey'), okv(mk('call', SPK, ad, app)), 'public key of the new key', o)
        R.same(run, 'comment', getf(prog, key, PRV, 'comment'), comment, 'comment', o)
        R.same(run, 'type', getf(prog, getf(prog, key, PRV, 'key_type'), KT, 'name'), bytes_(b'sk-ssh-ed25519@openssh.com'), 'key type', o)
        kv = variants(prog, 'ssh::privkey::PrivateKeyKind')
        kind = getf(prog, key, PRV, 'kind')
        if kind.op == 'agg' and R.expect(kind.a[1] == kv['Ed25519Sk'], 'kind', f.key, f.span, f'the new key is stored as {cut(kind)}'):
            r = fld(kind, kv['Ed25519Sk'], 0)
            SK = 'ssh::privkey::Ed25519SkPrivateKey'
            h = getf(prog, r, SK, 'handle')
            ans = [t for t, q in o.facts.var.items() if t.op == 'call' and t.a[0].split('::')[-1] in ('recv', 'recv_timeout', 'make_credential_with_args', 'make_credential') and q == 0]
            if h is getf(prog, ad, AD, 'credential_id') or h.op == 'fld' and any(a in subterms(h) for a in ans) and 'make_credential' in str(ans[-1].a[0]):
                R.good('handle')
            else:
                R.mismatch(run, 'handle', h, getf(prog, ad, AD, 'credential_id'), o, 'credential handle of the new key')
            R.expect(not ans or any(a in subterms(g['auth_data']) for a in ans), 'answer', f.key, f.span, 'the authenticator data does not come from the token')
            R.same(run, 'pin', getf(prog, r, SK, 'pin'), pin, 'pin of the new key', o)
            R.same(run, 'reserved', getf(prog, r, SK, 'reserved'), EMPTY, 'reserved field', o)
        enrol_challenge(R, run, prog, o, g['challenge'], app)
    if run.clean:
        R.expect(n > 0, 'accepts', f.key, f.span, 'no key is ever returned')


def enrol_challenge(R, run, prog, o, ch, app):
    f = run.fn
    reg = [t for t, q in o.facts.var.items() if t.op == 'call' and t.a[0].split('::')[-1] == 'register' and q == 0]
    mkc = [t for t, q in o.facts.var.items() if t.op == 'call' and t.a[0].split('::')[-1] == 'make_credential_with_args' and q == 0]
    if reg:
        ra = [x for x in subterms(reg[-1]) if x.op == 'agg' and x.a[0].endswith('RegisterArgs')]
        if len(ra) != 1:
            return R.unsure('enrolment: request not located')
        adt = ra[0].a[0]
        R.same(run, 'challenge', ch, getf(prog, ra[0], adt, 'client_data_hash'), 'challenge of the attestation', o)
        rp = getf(prog, ra[0], adt, 'relying_party')
        if rp is not None and rp.op == 'agg':
            R.same(run, 'application', getf(prog, rp, rp.a[0], 'id'), app, 'application the key is made for', o)
        fresh(R, run, o, ch)
    elif mkc:
        bd = [x for x in subterms(mkc[-1]) if x.op == 'call' and 'MakeCredentialArgsBuilder' in x.a[0] and x.a[0].split('::')[-1] == 'new']
        if len(bd) != 1:
            return R.unsure('enrolment: request not located')
        R.same(run, 'application', bd[0].a[1], app, 'application the key is made for', o)
        c = bd[0].a[2]
        want = [x for x in subterms(ch) if x.op in ('hash', 'call', 'sha256', 'digest')]
        if ch.op != 'hash' and not want:
            R.mismatch(run, 'challenge', ch, c, o, 'challenge of the attestation (SHA-256 of the one sent)')
            return
        if c not in subterms(ch):
            R.bad('challenge', f.key, f.span, f'the attestation challenge {cut(ch)} is not derived from the one sent to the token')
        elif ch is c:
            R.bad('challenge', f.key, f.span, 'the attestation challenge is not hashed')
        else:
            R.expect('256' in show(ch)[:60] or ch.op not in ('hash', 'digest'), 'challenge', f.key, f.span, f'the challenge is hashed as {cut(ch)}')
        fresh(R, run, o, c)
    else:
        R.unsure('enrolment: request not located')


def fresh(R, run, o, c):
    f = run.fn
    if any(x.op == 'call' and x.a[0].split('::')[-1] == 'create_challenge' for x in subterms(c)):
        return R.good('fresh')
    if c.op == 'outbuf' and 'fill' in str(c.a[1]):
        fills = [t for t, q in o.facts.var.items() if t.op == 'call' and 'SecureRandom' in t.a[0] and t.a[0].endswith('fill')]
        R.expect(any(o.facts.variant(t) == 0 for t in fills), 'fresh', f.key, f.span, 'the challenge is used although generating it may have failed')
        return
    if imprecise(c):
        return R.unsure('enrolment: challenge ' + cut(c))
    R.bad('fresh', f.key, f.span, f'the challenge is not random: {cut(c)}')
