"""C34: the operations on a PIV token act on the slot, data and device they were given"""
from .common import *

YK = 'yubikey::piv::Yubikey'
CSR = 'yubikey::piv::management::CSRSigner'
# what the token crate's functions change; everything else on a path is looking
CHANGES = {'verify_pin', 'authenticate', 'deauthenticate', 'generate', 'generate_self_signed', 'write', 'delete', 'import_ecc_key', 'import_rsa_key', 'import_cv_key', 'save_object',
           'change_pin', 'change_puk', 'unblock_pin', 'block_puk', 'set_pin_retries', 'set_pin_last_changed', 'reset_device', 'set_protected', 'set_derived', 'set_manual', 'set', 'move_key',
           'delete_key', 'sign_data', 'decrypt_data', 'write_config'}


def norm(t, memo=None):
    """the term without the bookkeeping of successive device states: a device
    after some call is still that device"""
    memo = {} if memo is None else memo
    if not isinstance(t, T):
        return tuple(norm(x, memo) for x in t) if isinstance(t, tuple) else t
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == 'mutby' and 'push' not in t.a[0]:
        r = norm(t.a[2 + t.a[1]], memo)
    elif t.op == 'mutby':
        r = mk('call', t.a[0], *[norm(x, memo) for x in t.a[2:]])
    elif t.op == 'conv':
        r = norm(t.a[1], memo)
    elif t.op == 'upd' and t.a[0].op == 'param' and len(t.a) == 3 and t.a[1] == (0, 0):
        r = norm(t.a[0], memo) if norm(t.a[2], memo) is fld(t.a[0], 0, 0) else mk('upd', t.a[0], t.a[1], norm(t.a[2], memo))
    elif t.op == 'call':
        r = mk('call', t.a[0], *[norm(x, memo) for x in t.a[1:] if not (isinstance(x, T) and x.op == 'uid')])
    else:
        a = tuple(norm(x, memo) for x in t.a)
        r = t if a == t.a else rebuild(t.op, a)
    memo[t] = r
    return r


def short(n):
    return n.split('::')[-1]


def token(n):
    return n.startswith('yubikey::') and not n.startswith('yubikey::piv::management') and not n.startswith('yubikey::piv::ssh') and not n.startswith('yubikey::verification') and not n.startswith('<')


def answers(o):
    """normalised token calls whose outcome is a fact of the path -> variant"""
    m = {}
    for t, v in o.facts.var.items():
        if t.op == 'call':
            m[norm(t)] = v
    return m


def did(o, pred):
    return [(short(e[1]), tuple(norm(x) for x in e[2])) for e in o.events() if e[0] == 'call' and token(e[1]) and pred(short(e[1]))]


def one(R, cfg, m, spec):
    """spec(prog, f, dev) -> (required calls [(name, args)], value of Ok or None)"""
    prog, A = R.progs[cfg], R.anch[cfg]
    f = next((g for g in prog.fns.values() if g.key.startswith('yubikey::') and g.key.endswith(f'Yubikey>::{m}')), None)
    if f is None:
        return R.bad('missing', YK, None, f'{m} is gone')
    run = R.explore(cfg, f)
    if run is None:
        return
    dev = fld(P(f, 1), 0, 0)
    req, val = spec(prog, f, dev)
    names = {n for n, _ in req}
    okseen = False
    for o in run.outs:
        if o.ret.op != 'agg':
            R.unsure(f'{m}: unclassified return')
            continue
        acts = did(o, lambda n: n in CHANGES or n in names)
        # whatever the token is told to do is what was asked for
        for n, a in acts:
            w = [x for x in req if x[0] == n]
            if not w:
                R.expect(not run.clean, f'{m}:{n}', f.key, f.span, f'{m} makes the token do something else: {n}')
                continue
            for i, (g, want) in enumerate(zip(a, w[0][1])):
                if want is None:
                    continue
                if want is dev and g is not dev and any(x.op == 'call' and short(x.a[0]) in ('open_by_serial', 'open') for x in subterms(g)):
                    continue      # another handle of the device: judged below
                R.same(run, f'{m}:{n}:{i}', g, want, f'argument {i} of {n} in {m}', o)
        F = answers(o)
        if o.ret.a[1] == 0:
            okseen = True
            for n, a in req:
                hit = [c for c, v in F.items() if v == 0 and short(c.a[0]) == n]
                R.expect(bool(hit) or not run.clean, f'{m}:ok:{n}', f.key, f.span, f'{m} reports success although {n} did not succeed')
            if val is not None:
                R.same(run, f'{m}:result', norm(o.ret.a[2]), val, f'result of {m}', o)
        else:
            failed_ = any(v == 1 for c, v in F.items()) or any(v == 1 for t, v in o.facts.var.items() if t.op in ('call', 'fld'))
            R.expect(failed_ or not run.clean or m == 'generate_csr' or bool(o.facts.truth), f'{m}:err', f.key, f.span, f'{m} fails although every step succeeded')
    if run.clean:
        R.expect(okseen, f'{m}:works', f.key, f.span, f'{m} never succeeds')


@rule('piv.manage')
def manage(R, cfg):
    prog, A = R.progs[cfg], R.anch[cfg]
    if not any(g.key.startswith('yubikey::') and 'Yubikey>::' in g.key for g in prog.fns.values()):
        return
    call = lambda n, *a: mk('call', n, *a)
    CE = 'yubikey::certificate::Certificate'
    ok = lambda c: fld(c, 0, 0)

    def rd(f, dev):
        return call(f'{CE}::read', dev, P(f, 2))

    one(R, cfg, 'unlock', lambda p, f, d: ([('verify_pin', (d, P(f, 2))), ('from_bytes', (P(f, 3),)), ('authenticate', (d, ok(call('yubikey::mgm::MgmKey::from_bytes', P(f, 3)))))], None))
    one(R, cfg, 'configured', lambda p, f, d: ([('read', (d, P(f, 2)))], call(f'{CE}::subject_pki', ok(rd(f, d)))))
    one(R, cfg, 'fetch_subject', lambda p, f, d: ([('read', (d, P(f, 2)))], call(f'{CE}::subject', ok(rd(f, d)))))
    one(R, cfg, 'fetch_certificate', lambda p, f, d: ([('read', (d, P(f, 2)))], ok(rd(f, d))))
    one(R, cfg, 'fetch_attestation', lambda p, f, d: ([('attest', (d, P(f, 2)))], ok(call('yubikey::piv::attest', d, P(f, 2)))))
    one(R, cfg, 'write_certificate', lambda p, f, d: ([('from_bytes', (P(f, 3),)), ('write', (ok(call(f'{CE}::from_bytes', P(f, 3))), d, P(f, 2), None))], None))
    fp = next((g.key for g in prog.fns.values() if g.key.startswith('yubikey::') and g.key.endswith('Yubikey>::ssh_cert_fetch_pubkey')), None)

    def prov(p, f, d):
        gen = call('yubikey::piv::generate', d, P(f, 2), P(f, 4), P(f, 6), P(f, 5))
        return ([('generate', (d, P(f, 2), P(f, 4), P(f, 6), P(f, 5))),
                 ('generate_self_signed', (d, P(f, 2), None, None, seq([('e', call('x509::RelativeDistinguishedName::common_name', P(f, 3)))]), ok(gen), None))], None)
    one(R, cfg, 'provision', prov)
    if fp:
        _prov_result(R, cfg, fp)
        _pubkey(R, cfg, fp)
    _open(R, cfg)
    _csr(R, cfg)


def _fn(prog, m):
    return next((g for g in prog.fns.values() if g.key.startswith('yubikey::') and g.key.endswith(f'Yubikey>::{m}')), None)


def _prov_result(R, cfg, fp):
    """the key returned is the one now in the slot"""
    prog, A = R.progs[cfg], R.anch[cfg]
    f = _fn(prog, 'provision')
    run = f and R.explore(cfg, f, A.pure(fp), ckey='pure')
    if not run:
        return
    for o in run.outs:
        c = norm(o.ret)
        if c.op == 'agg' and c.a[1] == 0:
            c = c.a[2].a[0] if c.a[2].op == 'fld' else c.a[2]
        if c.op == 'call' and c.a[0] == fp:
            R.same(run, 'provision:key', c.a[2], P(f, 2), 'slot whose key provision returns', o)
        elif o.ret.op == 'agg' and o.ret.a[1] == 0:
            # straight from the generated key information is as good
            R.unsure('provision: result not located')


def _pubkey(R, cfg, fp):
    prog, A = R.progs[cfg], R.anch[cfg]
    EX = 'x509::extract_ssh_pubkey_from_x509_certificate'
    f, fc = prog.fns.get(fp) or _fn(prog, 'ssh_cert_fetch_pubkey'), _fn(prog, 'fetch_certificate')
    if f is None or fc is None or prog.find(EX) is None:
        return R.unsure('fetch_pubkey: parts not located')
    run = R.explore(cfg, f, A.pure(EX))
    if run is None:
        return
    cert = fld(mk('call', 'yubikey::certificate::Certificate::read', fld(P(f, 1), 0, 0), P(f, 2)), 0, 0)
    for o in run.outs:
        if o.ret.op == 'agg' and o.ret.a[1] == 0:
            R.same(run, 'pubkey', norm(o.ret.a[2]), fld(mk('call', EX, cert), 0, 0), 'public key of a slot', o)
        elif o.ret.op == 'agg':
            F = answers(o)
            R.expect(any(v == 1 for v in F.values()) or not run.clean, 'pubkey:err', f.key, f.span, 'no key is returned although the slot holds a usable certificate')


def _open(R, cfg):
    prog, A = R.progs[cfg], R.anch[cfg]
    OB = 'yubikey::yubikey::YubiKey::open_by_serial'
    f = _fn(prog, 'open')
    run = f and R.explore(cfg, f)
    if run:
        for o in run.outs:
            if o.ret.op != 'agg':
                R.unsure('open: unclassified')
            elif o.ret.a[1] == 0:
                R.same(run, 'open', norm(fld(o.ret.a[2], 0, 0)), fld(mk('call', OB, P(f, 1)), 0, 0), 'device opened', o)
            else:
                R.expect(any(v == 1 for v in answers(o).values()) or not run.clean, 'open:err', f.key, f.span, 'open fails although the device was opened')
    f = _fn(prog, 'reconnect')
    run = f and R.explore(cfg, f)
    if run:
        dev = fld(P(f, 1), 0, 0)
        again = mk('call', OB, mk('call', 'yubikey::yubikey::YubiKey::serial', dev))
        rec = mk('call', 'yubikey::yubikey::YubiKey::reconnect', dev)
        for o in run.outs:
            if o.ret.op != 'agg' or o.ret.a[1] != 0:
                continue
            F = answers(o)
            me = norm(o.st.cells.get(('P', 1)))
            cur = fld(me, 0, 0) if isinstance(me, T) else None
            if F.get(rec) == 0 and cur is dev:
                R.good('reconnect')
                continue
            if cur is None or imprecise(cur):
                R.unsure('reconnect: device not located')
                continue
            R.same(run, 'reconnect', cur, fld(again, 0, 0), 'device after reconnecting', o)
            R.expect(F.get(again) == 0 or not run.clean, 'reconnect:ok', f.key, f.span, 'reconnect reports success without a connection')


def _csr(R, cfg):
    prog, A = R.progs[cfg], R.anch[cfg]
    an = {i: n for n, i in variants(prog, 'yubikey::piv::AlgorithmId').items()}
    pi = {i: n for n, i in variants(prog, 'yubikey::certificate::PublicKeyInfo').items()}
    PAIR = {'EcP256': ('EccP256', 'PKCS_ECDSA_P256_SHA256'), 'EcP384': ('EccP384', 'PKCS_ECDSA_P384_SHA384')}
    CE = 'yubikey::certificate::Certificate'
    if CSR not in prog.adts:
        return R.unsure('CSR signer not located')
    g = lambda v, n: getf(prog, v, CSR, n)
    f = R.fn(cfg, f'{CSR}::new')
    run = f and R.explore(cfg, f)
    if run:
        serial, slot = P(f, 1), P(f, 2)
        dev = fld(mk('call', 'yubikey::yubikey::YubiKey::open_by_serial', serial), 0, 0)
        pki = mk('call', f'{CE}::subject_pki', fld(mk('call', f'{CE}::read', dev, slot), 0, 0))
        for o in run.outs:
            if o.panic:
                continue
            r = norm(o.ret)
            if g(r, 'slot') is None:
                R.unsure('signer fields')
                continue
            R.same(run, 'signer:slot', g(r, 'slot'), slot, 'slot of the request signer', o)
            R.same(run, 'signer:serial', g(r, 'serial'), serial, 'device of the request signer', o)
            F = answers(o)
            k = F.get(pki)
            if k is None:
                R.unsure('signer: kind of key not decided')
                continue
            R.same(run, 'signer:key', g(r, 'public_key'), fld(pki, k, 0), 'public key of the request signer', o)
            a = g(r, 'algorithm')
            a = an.get(a.a[1] if a.op == 'agg' else o.facts.variant(a))
            if a is not None and pi.get(k) in PAIR:
                R.expect(a == PAIR[pi[k]][0] or not run.clean, 'signer:algorithm', f.key, f.span, f'an {pi[k]} key signs requests as {a}')
    impl = lambda m: next((x for x in prog.fns.values() if x.method == m and x.impl_trait and x.impl_trait.endswith('RemoteKeyPair') and prog.tystr(x.impl_self).endswith('CSRSigner')), None)
    sd = _fn(prog, 'sign_data')
    f = impl('sign')
    run = f and sd and R.explore(cfg, f, A.pure(sd.key))
    if run:
        me = P(f, 1)
        for o in run.outs:
            if o.ret.op == 'agg' and o.ret.a[1] == 0:
                c = norm(o.ret.a[2])
                dev = fld(mk('call', 'yubikey::yubikey::YubiKey::open_by_serial', g(me, 'serial')), 0, 0)
                yk = agg(YK, 0, (dev,))
                w = fld(mk('call', sd.key, yk, P(f, 2), g(me, 'algorithm'), g(me, 'slot')), 0, 0)
                R.same(run, 'csr-sign', c, w, 'signature over a request', o)
    f = impl('public_key')
    run = f and R.explore(cfg, f)
    if run:
        for o in run.outs:
            R.same(run, 'csr-public', o.ret, g(P(f, 1), 'public_key'), 'public key of a request', o)
    f = impl('algorithm')
    run = f and R.explore(cfg, f)
    if run:
        for o in run.outs:
            if o.panic:
                continue
            a = an.get(o.facts.variant(g(P(f, 1), 'algorithm')))
            want = {x: y for x, y in PAIR.values()}.get(a)
            if want is None or o.ret.op != 'static':
                R.unsure('algorithm not decided')
                continue
            R.expect(o.ret.a[0].split('::')[-1] == want or not run.clean, f'csr-algorithm:{a}', f.key, f.span, f'requests for {a} keys are marked {o.ret.a[0]}')
    f = _fn(prog, 'generate_csr')
    run = f and R.explore(cfg, f, A.pure(f'{CSR}::new'))
    if run:
        dev, slot, cn = fld(P(f, 1), 0, 0), P(f, 2), P(f, 3)
        pki = mk('call', f'{CE}::subject_pki', fld(mk('call', f'{CE}::read', dev, slot), 0, 0))
        for o in run.outs:
            if o.ret.op != 'agg' or o.ret.a[1] != 0:
                continue
            r = norm(o.ret.a[2])
            sub_ = list(subterms(r))
            sg = [x for x in sub_ if x.op == 'call' and x.a[0] == f'{CSR}::new']
            if len(set(sg)) != 1:
                R.unsure('generate_csr: signer not located')
                continue
            R.same(run, 'request:device', sg[0].a[1], mk('call', 'yubikey::yubikey::YubiKey::serial', dev), 'device of the request', o)
            R.same(run, 'request:slot', sg[0].a[2], slot, 'slot of the request', o)
            push = [x for x in sub_ if x.op == 'call' and short(x.a[0]) == 'push' and 'DistinguishedName' in x.a[0]]
            if len(set(push)) == 1:
                R.same(run, 'request:name', push[0].a[3], cn, 'common name of the request', o)
                dn = {i: n for n, i in variants(prog, 'rcgen::DnType').items()}
                if push[0].a[2].op == 'agg' and dn:
                    R.expect(dn.get(push[0].a[2].a[1]) == 'CommonName' or not run.clean, 'request:dn', f.key, f.span, 'the common name is put under another attribute')
            else:
                R.unsure('generate_csr: name not located')
            k = pi.get(answers(o).get(pki))
            al = [x.a[0].split('::')[-1] for x in sub_ if x.op == 'static' and 'PKCS_' in x.a[0]]
            if k in PAIR and len(set(al)) == 1:
                R.expect(al[0] == PAIR[k][1] or not run.clean, f'request:algorithm:{k}', f.key, f.span, f'the request for an {k} key is marked {al[0]}')
            elif k is not None and k not in PAIR:
                R.expect(not run.clean, 'request:kind', f.key, f.span, f'a request is made for an {k} key')
