"""Secrets, randomness, hidden effects, file entry points and printed text."""
import re
from .common import *
from ..calls import Graph
from ..prog import norm
from ..interp import State

PRIV = 'ssh::privkey::PrivateKey'
KIND = 'ssh::privkey::PrivateKeyKind'
SECRET = {'Rsa': ('d', 'coefficient', 'p', 'q', 'exp', 'exq'), 'Ecdsa': ('key',), 'EcdsaSk': ('handle', 'pin'),
          'Ed25519': ('key',), 'Ed25519Sk': ('handle', 'pin')}
ZEROED = mk('zeroed')


# ---------------------------------------------------------------- secrets
def drop_glue(prog, adt):
    return [f for f in prog.fns.values() if f.impl_trait == 'core::ops::drop::Drop' and f.method == 'drop' and f.impl_self is not None and prog.tystr(f.impl_self) == adt]


@rule('secret.drop')
def secret_drop(R, cfg):
    prog = R.progs[cfg]
    if PRIV not in prog.adts:
        return R.bad('type', PRIV, None, 'private key type not found')
    fs = drop_glue(prog, PRIV)
    if not fs:
        # wiping may be delegated to the fields
        inner = [a for a in (KIND, *(f'ssh::privkey::{k}PrivateKey' for k in SECRET)) if drop_glue(prog, a)]
        own = [t for t in prog.adts[PRIV]['variants'][0]['fields'] if 'Zeroizing' in prog.tystr(t[1])] if not inner else []
        if inner or own:
            return R.unsure(f'wiping delegated to {inner or own}')
        return R.bad('no drop', PRIV, None, 'dropping a private key runs no code that wipes it: PrivateKey implements no Drop')
    f = fs[0]
    run = R.explore(cfg, f)
    if run is None:
        return
    ki = fx(prog, PRIV, 'kind')
    kind = fld(P(f, 1), 0, ki)
    names = {i: n for n, i in variants(prog, KIND).items()}
    seen = set()
    for o in run.outs:
        v = o.facts.var.get(kind)
        cands = [v] if v is not None else [i for i in names if o.facts.truth_of(mk('is', kind, i)) is not False]
        cell = o.st.cells.get(('P', 1))
        wiped = [e[2] for e in o.events() if e[0] == 'zeroize']
        for v in cands:
            n = names[v]
            seen.add(n)
            k0 = fld(kind, v, 0)
            k1 = fld(cell, 0, ki) if cell is not None else kind
            adt = f'ssh::privkey::{n}PrivateKey'
            for s in SECRET.get(n, ()):
                i = fx(prog, adt, s)
                if i is None:
                    R.unsure(f'{n}.{s}: no such field')
                    continue
                old = fld(k0, 0, i)
                if k1 is ZEROED or k1.op == 'zeroed':
                    new = ZEROED
                else:
                    new = fld(k1, v, 0)
                    new = ZEROED if new.op == 'zeroed' else fld(new, 0, i)
                if new.op == 'zeroed' or new.op == 'upd' and new.a[0] is old and new.a[1] == (1, 0) and new.a[2].op == 'zeroed' or new.op == 'agg' and new.a[1] == 1 and len(new.a) > 2 and new.a[2].op == 'zeroed':
                    R.good(f'{n}.{s} wiped')
                elif new.op == 'agg' and new.a[1] == 0 and o.facts.variant(old) == 0:
                    R.good(f'{n}.{s} absent')
                elif new is not old and any(w is old or w is k0 or w is kind for w in wiped):
                    R.good(f'{n}.{s} moved out and wiped')
                elif imprecise(new) or not run.clean:
                    R.unsure(f'{n}.{s}: {cut(new)}')
                elif s in ('exp', 'exq', 'pin') and o.facts.variant(old) == 0:
                    R.good(f'{n}.{s} absent')
                else:
                    R.bad(f'{n}.{s}', f.key, f.span, f'dropping a {n} private key leaves its {s} in memory (after drop: {cut(new, 120)})')
    for n in SECRET:
        if n in variants(prog, KIND) and n not in seen:
            R.unsure(f'{n}: no path')


@rule('secret.display')
def secret_display(R, cfg):
    prog, A = R.progs[cfg], R.anch[cfg]
    f = display_of(prog, PRIV)
    FP = f'{PK}::fingerprint'
    if f is None:
        return R.unsure('PrivateKey has no Display')
    run = R.explore(cfg, f, A.pure(FP))
    if run is None:
        return
    me = P(f, 1)
    kind, magic, pub, com = (getf(prog, me, PRIV, x) for x in ('kind', 'magic', 'pubkey', 'comment'))
    for o in cases(run.outs, [(fld(mk('call', FP, pub), 0, 0), 3)]):
        t = displayed(o, f)
        if t is None:
            R.unsure('text not located')
            continue
        leak = [x for x in subterms(t) if x is kind or x is magic or x is me and False]
        R.expect(not leak or not run.clean, 'no secrets', f.key, f.span, f'printing a private key prints its secret part: {cut(t)}')
        fp = mk('call', FP, pub)
        nm = {0: b'SHA256', 1: b'SHA384', 2: b'SHA512'}.get(o.facts.variant(fld(fp, 0, 0)))
        if nm is None:
            R.unsure('fingerprint kind undecided')
            continue
        R.same(run, 'text', t, seq([('s', B(nm + b':')), ('s', fld(fp, 0, 1)), ('s', B(b' ')), ('s', com)]), 'printed private key', o)


SINK = re.compile(r'^std::io::stdio::_e?print|^<?std::io::stdio::|^std::fs::write$|OpenOptions|^std::fs::File::create|^std::env::set_var|^log::|^tracing')


@rule('secret.sinks')
def secret_sinks(R, cfg):
    """nothing on the private-key, signing and parsing side prints, logs or writes files"""
    prog = R.progs[cfg]
    G = graph(R, cfg)
    for f in sorted(prog.fns.values(), key=lambda f: f.key):
        if f.derived or '{' in f.key or f.key.startswith(('yubikey::piv', 'fido::generate', 'fido::signing', 'fido::utils')):
            continue
        e = {x: s for x, s in G.ext.get(f.path, {}).items() if SINK.search(x)}
        for u in G.succ.get(f.path, ()):
            if '{closure' in u:
                e.update({x: s for x, s in G.ext.get(u, {}).items() if SINK.search(x)})
        if e:
            x, s = sorted(e.items(), key=lambda y: y[0])[0]
            R.bad(f'{x} in {f.key}', f.key, s or f.span, f'{f.key} calls {x}: data handled by the library leaves it through a print, log or file')
        else:
            R.good(f.key)


@rule('secret.errors')
def secret_errors(R, cfg):
    """the passphrase is used to derive the key and for nothing else; errors do not carry it"""
    prog, A = R.progs[cfg], R.anch[cfg]
    f = prog.find(f'{PRIV}::from_bytes_with_passphrase') or prog.find(f'{PRIV}::from_reader')
    fs = [g for g in prog.fns.values() if g.key.startswith(PRIV + '::') and '{' not in g.key and any('String' in prog.tystr(t) and 'Option' in prog.tystr(t) for t in g.body.tys[1:g.body.argc + 1])]
    for g in fs:
        if 'path' in g.key or 'string' in g.key:
            continue
        ps = [P(g, i) for i in range(1, g.body.argc + 1) if 'Option' in prog.tystr(g.body.tys[i]) and 'String' in prog.tystr(g.body.tys[i])]
        run = R.explore(cfg, g, {**A.reader(), **A.keytype(), **A.curve(), **A.pubkey_reader()}, ckey='secret')
        if run is None:
            continue
        for o in run.outs:
            if not is_err(o):
                continue
            for p in ps:
                bad = exposed(o.ret, p)
                R.expect(not bad or not run.clean, f'{g.key}: error without passphrase', g.key, g.span, f'an error returned by {g.key} carries the passphrase: {cut(o.ret)}')


def exposed(t, p):
    """p occurs in t other than below a cryptographic call"""
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x in seen or not isinstance(x, T):
            continue
        seen.add(x)
        if x is p:
            return True
        if x.op == 'call' and re.search(r'bcrypt|pbkdf|aes|cipher|Ctr', str(x.a[0])):
            continue
        if x.op in ('outbuf', 'mutsl', 'mutby') and re.search(r'bcrypt|pbkdf|aes|cipher|Ctr', str(x.a[0]) + str(x.a[1])):
            continue
        st.extend(kids_(x))
    return False


def kids_(x):
    from .. import terms as _t
    return list(_t._kids(x))


# ---------------------------------------------------------------- randomness
def num(x):
    return x.a[0] if isinstance(x, T) and x.op == 'int' else x


def drawn(o, t, n):
    """t is n bytes filled by the system random source, whose success this path has checked"""
    if t.op in ('outbuf', 'mutsl') and num(t.a[0]) == n and 'SecureRandom' in str(t.a[1]):
        rng = t.a[3] if len(t.a) > 3 else None
        if not (isinstance(rng, T) and any(x.op == 'call' and 'SystemRandom::new' in str(x.a[0]) for x in subterms(rng))):
            return 'source'
        for k, v in o.facts.var.items():
            if k.op == 'call' and 'SecureRandom' in str(k.a[0]) and v == 0 and k.a[1] is rng and num(length(k.a[2])) == n:
                return True
        return 'unchecked'
    if t.op == 'fld' or t.op == 'call':
        c = t
        while c.op == 'fld':
            c = c.a[0]
        if c.op == 'call' and 'ring::rand::generate' in str(c.a[0]):
            if not any(x.op == 'call' and 'SystemRandom::new' in str(x.a[0]) for x in subterms(c)):
                return 'source'
            return True if o.facts.variant(c) == 0 else 'unchecked'
    return None


@rule('random.builder')
def random_builder(R, cfg):
    prog, A = R.progs[cfg], R.anch[cfg]
    ACN = 'ssh::keytype::KeyType::as_cert_name'
    run = R.explore(cfg, f'{CERT}::builder', {**A.keytype(), **A.pure(ACN)})
    if run is None:
        return
    f = run.fn
    for o in run.oks():
        c = o.ret.a[2]
        nonce, serial = getf(prog, c, CERT, 'nonce'), getf(prog, c, CERT, 'serial')
        d = drawn(o, nonce, 32)
        if d is True:
            R.good('nonce')
        elif undecided(run, nonce):
            R.unsure(f'nonce: {cut(nonce)}')
        else:
            R.bad('nonce', f.key, f.span, f'the nonce of a new certificate is not 32 bytes from the system random source whose success was checked ({d or "other value"}): {cut(nonce)}')
        s = serial
        if s.op == 'unbe' and s.a[0] == 8 or s.op in ('unle', 'unne') and s.a[0] == 8:
            d = drawn(o, s.a[1], 8)
        elif s.op == 'fld':
            d = drawn(o, s, 8)
        else:
            d = None
        if d is True:
            R.good('serial')
        elif undecided(run, serial):
            R.unsure(f'serial: {cut(serial)}')
        else:
            R.bad('serial', f.key, f.span, f'the serial number of a new certificate is not 8 bytes of its own from the system random source whose success was checked ({d or "other value"}): {cut(serial)}')


def undecided(run, t):
    if imprecise(t):
        return not no_draw(t)
    return not run.clean and not no_draw(t)


def no_draw(t):
    """nothing random goes into t: a constant, or a function of time, process or arguments"""
    for x in subterms(t):
        if x.op in ('unk', 'poison', 'uninit', 'mutated', 'mcell', 'lv', 'mutelems'):
            return False
        if x.op in ('call', 'mutby', 'mutsl', 'outbuf') and (re.search(r'[Rr]and|getrandom|::new$|::generate|ng>?::', ' '.join(str(a) for a in x.a if isinstance(a, str))) or x.a[0] == 'dyn'):
            return False
    return True


@rule('random.key')
def random_key(R, cfg):
    prog, A = R.progs[cfg], R.anch[cfg]
    run = R.explore(cfg, f'{PRIV}::new', A.keytype())
    if run is None:
        return
    f = run.fn
    oks = run.oks()
    if not oks:
        return R.bad('never', f.key, f.span, 'PrivateKey::new never succeeds') if run.clean else R.unsure('no ok path')
    for o in oks:
        k = o.ret.a[2]
        kind, magic = getf(prog, k, PRIV, 'kind'), getf(prog, k, PRIV, 'magic')
        key = fld(fld(kind, variants(prog, KIND)['Ed25519'], 0), 0, 0)
        ps = key.a if key.op == 'seq' else ()
        seed = ps[0][1] if ps and ps[0][0] == 's' else slice_(key, ZERO, I(32))
        d = drawn(o, seed, 32)
        if d is True:
            R.good('seed')
            m = magic.a[1] if magic.op in ('unbe', 'unle', 'unne') else magic
            R.expect(not any(x is root(seed) for x in subterms(magic)), 'own draw', f.key, f.span, 'the check value and the secret seed come from one draw')
        elif undecided(run, seed):
            R.unsure(f'seed: {cut(seed)}')
        else:
            R.bad('seed', f.key, f.span, f'the seed of a new key is not 32 bytes from the system random source whose success was checked ({d or "other value"}): {cut(seed)}')


def root(t):
    while t.op == 'fld':
        t = t.a[0]
    return t


# ---------------------------------------------------------------- hidden effects
EFF = re.compile(r'^<?(std::(fs|net|process|env|thread|io::stdio|os)::|std::time::|ring::rand|rand::|rand_core|getrandom|yubikey::|authenticator::|ctap_hid|std::sync::mpsc|libc::|rustix)'
                 r'|::now$|SecureRandom|RandomState::new|LocalKey|^alloc::alloc::Global|Instant|SystemTime')
HARMLESS = re.compile(r'HashMap|HashSet|RandomState|^std::fs::.*(clone|drop)$|std::env::(args|current_exe)_never|::fmt$|^<?authenticator::.*(Clone|Debug|PartialEq|From|Into)|yubikey::.*(Clone|Debug|PartialEq)')
STATE = re.compile(r'Mutex|RwLock|Atomic|RefCell|Cell<|UnsafeCell|LocalKey|OnceLock|OnceCell|LazyLock|LazyCell|Lazy<|Once\b')
ONCE = re.compile(r'OnceLock|OnceCell|LazyLock|LazyCell|Lazy<')
HARD = re.compile(r'Mutex|RwLock|Atomic|RefCell')

SCOPE = (r'^<?(ssh|utils|error|x509|fido::(parsing|verification)|yubikey::verification)(::|$)', )
EXEMPT = re.compile(r'::(from_path\w*|builder|sign|new_with_private_key|sign_data|generate\w*)$|^ssh::privkey::PrivateKey::new$|^<.* as ssh::SSHCertificateSigner>::|^error::.*Yubikey')
# the public functions of the tree this was written against; new ones may do what they like
from .effects_scope import PURE


def graph(R, cfg):
    G = R.cache.get(('graph', cfg))
    if G is None:
        G = R.cache[('graph', cfg)] = Graph(R.progs[cfg])
    return G


@rule('effects.pure')
def effects_pure(R, cfg):
    prog = R.progs[cfg]
    G = graph(R, cfg)
    for f in sorted(prog.fns.values(), key=lambda f: f.key):
        if f.key not in PURE:
            continue
        seen = G.reach(f.path)
        hit = None
        for u in seen:
            for x, s in G.ext.get(u, {}).items():
                if EFF.search(x) and not HARMLESS.search(x):
                    hit = hit or (u, x, s)
            for x in G.statics.get(u, ()):
                g = prog.fns.get(x)
                ty = prog.tystr(g.body.tys[0]) if g is not None else ''
                if g is None or not STATE.search(ty) and not g.static_mut:
                    continue
                if ONCE.search(ty) and not HARD.search(ty) and constant_init(prog, G, u):
                    continue
                hit = hit or (u, f'static {norm(x)} : {ty}', None)
        R.callsites |= {(u, None) for u in seen}
        R.fns |= set(seen)
        if hit:
            u, x, s = hit
            g = prog.fns.get(u)
            R.bad(f'{x} in {g.key if g else u}', g.key if g else u, s or (g.span if g else None),
                  f'{f.key} depends on more than its arguments: it reaches {x} by ' + ' -> '.join(G.chain(seen, u)[:8]))
        else:
            R.good(f.key)


def constant_init(prog, G, u):
    """the once-cell used in u is filled by something that captures nothing"""
    f = prog.fns[u]
    if any(re.search(r'(OnceLock|OnceCell)::(set|get_or_try_init|try_insert)', x) for x in G.ext.get(u, {})):
        return False
    for v in G.succ.get(u, ()):
        g = prog.fns.get(v)
        if g is not None and '{closure' in v and v.startswith(u) and g.body.upvars:
            if any('get_or_init' in x for x in G.ext.get(u, {})):
                return False
    return True


# ---------------------------------------------------------------- files
@rule('paths.read')
def paths_read(R, cfg):
    prog, A = R.progs[cfg], R.anch[cfg]
    for fn, tgt, extra in ((f'{CERT}::from_path', f'{CERT}::from_string', None), (f'{PK}::from_path', f'{PK}::from_string', None),
                           ('ssh::allowed_signer::AllowedSigners::from_path', 'ssh::allowed_signer::AllowedSigners::from_string', None),
                           (f'{PRIV}::from_path', f'{PRIV}::from_string_with_passphrase', 'none'), (f'{PRIV}::from_path_with_passphrase', f'{PRIV}::from_string_with_passphrase', 'arg'),
                           (f'{PRIV}::from_string', f'{PRIV}::from_string_with_passphrase', 'none')):
        f = prog.find(fn)
        if f is None:
            if fn.startswith('ssh::allowed'):
                R.unsure(f'{fn} not in this configuration')
            else:
                R.bad(f'missing {fn}', fn, None, f'public function {fn} not found')
            continue
        run = R.explore(cfg, f, A.pure(tgt))
        if run is None:
            continue
        path = P(f, 1)
        n = 0
        for o in run.outs:
            r = o.ret
            if is_err(o):
                j = failed(o) or any(k.op == 'utf8' and v is False for k, v in o.facts.truth.items())
                R.expect(j or not run.clean, f'{fn}: error', f.key, f.span, f'{fn} fails although the file was read: {cut(r)}')
                continue
            if r.op == 'agg' and r.a[1] == 0:
                r = r.a[2].a[0] if r.a[2].op == 'fld' else r.a[2]
            if r.op != 'call' or r.a[0] != tgt:
                (R.unsure if imprecise(r) or not run.clean else lambda m: R.bad(f'{fn}: result', f.key, f.span, m))(f'{fn} does not return what {tgt} makes of the content: {cut(r)}')
                continue
            n += 1
            c = r.a[1]
            if fn.endswith('from_string'):
                R.same(run, f'{fn}: text', c, path, 'text parsed', o)
            else:
                w = whole(c, path)
                rd = [k for k in o.facts.var if k.op == 'call' and 'read_to_string' in str(k.a[0]) and o.facts.var[k] == 0]
                if w is True and c.op == 'mutby' and not rd and not any(k.op == 'is' and v is False and k.a[1] == 1 and 'read_to_string' in str(k.a[0].a[0]) for k, v in o.facts.truth.items()):
                    R.bad(f'{fn}: read failure', f.key, f.span, f'{fn} parses what it has even when reading the file failed')
                    continue
                if w is True:
                    R.good(f'{fn}: content')
                elif w is None or not run.clean and not w.startswith('only part'):
                    R.unsure(f'{fn}: content {cut(c)}')
                else:
                    R.bad(f'{fn}: content', f.key, f.span, f'{fn} parses something other than the whole file at the given path ({w}): {cut(c)}')
            if extra == 'none':
                R.same(run, f'{fn}: passphrase', r.a[2], none(), 'passphrase', o) if r.a[2].op != 'agg' else R.expect(r.a[2].a[1] == 0, f'{fn}: passphrase', f.key, f.span, 'a passphrase is made up')
            elif extra == 'arg':
                R.same(run, f'{fn}: passphrase', r.a[2], P(f, 2), 'passphrase handed on', o)
        if not n and run.clean:
            R.bad(f'{fn}: never', f.key, f.span, f'{fn} never parses the file')


def none():
    return mk('agg', 'core::option::Option', 0)


def whole(c, path):
    """the complete text of the file at `path`: True, a reason why not, or None"""
    ops = list(subterms(c))
    for x in ops:
        if x.op == 'call' and re.search(r'Read>?::(take|chain)$|::metadata', str(x.a[0])):
            return 'only part of it: ' + str(x.a[0]).split('::')[-1]
    opens = [x for x in ops if x.op == 'call' and re.search(r'fs::(File::open|read_to_string|read)$', str(x.a[0]))]
    if not opens:
        return 'no file is read' if not imprecise(c) else None
    if any(x.a[1] is not path for x in opens):
        return 'another path' if not any(imprecise(x.a[1]) for x in opens) else None
    if c.op == 'slice':
        return 'a slice of it'
    while c.op == 'fld':
        c = c.a[0]
    if c.op == 'call' and re.search(r'fs::read_to_string$', str(c.a[0])):
        return True
    if c.op == 'mutby' and re.search(r'read_to_string$', str(c.a[0])) and c.a[1] == 1:
        src = c.a[2]
        while src.op == 'fld' or src.op == 'call' and re.search(r'BufReader::(new|with_capacity)$', str(src.a[0])):
            src = src.a[-1] if src.op == 'call' and src.a[-1].op != 'uid' else src.a[1] if src.op == 'call' else src.a[0]
            if not isinstance(src, T):
                return None
        if src.op == 'call' and 'File::open' in str(src.a[0]):
            return True if c.a[3] is EMPTY else 'not only the file'
    return None


# ---------------------------------------------------------------- printed text
FPK = {0: b'SHA256', 1: b'SHA384', 2: b'SHA512'}


def textual(*ps):
    return seq([('s', B(p) if isinstance(p, bytes) else p) for p in ps])


@rule('text.cert')
def text_cert(R, cfg):
    prog, A = R.progs[cfg], R.anch[cfg]
    f = display_of(prog, CERT)
    if f is None:
        return R.bad('missing', CERT, None, 'Certificate implements no Display')
    me = P(f, 1)
    g = lambda n: getf(prog, me, CERT, n)
    kt = lambda k, n: getf(prog, k, 'ssh::keytype::KeyType', n)
    FP = f'{PK}::fingerprint'
    ALT = 'core::fmt::Formatter::alternate'
    run = R.explore(cfg, f, {**A.pure(FP), ALT: lambda c: FALSE}, ckey='plain')
    if run is not None:
        for o in run.outs:
            t = displayed(o, f)
            if t is None:
                R.unsure('plain text not located')
                continue
            enc = [x for x in subterms(t) if x.op == 'call' and 'base64' in x.a[0]]
            e = enc[0] if len(enc) == 1 else mk('call', 'base64::encode', g('serialized'))
            R.same(run, 'one line', t, textual(kt(g('key_type'), 'name'), b' ', e, b' ', g('key_id')), 'printed certificate', o)
            for x in subterms(t):
                if x.op == 'call' and 'base64' in x.a[0]:
                    R.same(run, 'one line data', x.a[1], g('serialized'), 'data printed', o)
    run = R.explore(cfg, f, {**A.pure(FP), ALT: lambda c: TRUE}, ckey='pretty')
    if run is None:
        return
    va, vb = g('valid_after'), g('valid_before')
    fpk = [(fld(mk('call', FP, g(x)), 0, 0), 3) for x in ('key', 'signature_key')]
    cond = [eq(va, ZERO), eq(vb, I(2 ** 64 - 1))] + [eq(length(g(x)), ZERO) for x in ('principals', 'critical_options', 'extensions')]
    for o in cases(run.outs, [(g('cert_type'), 2)] + fpk, cond):
        t = displayed(o, f)
        if t is None:
            R.unsure('pretty text not located')
            continue
        F = o.facts
        ct = F.variant(g('cert_type'))
        fk, fs = mk('call', FP, g('key')), mk('call', FP, g('signature_key'))
        k1, k2 = FPK.get(F.variant(fld(fk, 0, 0))), FPK.get(F.variant(fld(fs, 0, 0)))
        al = F.truth_of(eq(va, ZERO))
        be_ = F.truth_of(eq(vb, I(2 ** 64 - 1)))
        ever = True if al and be_ else False if al is False or be_ is False else None
        em = [F.truth_of(eq(length(g(x)), ZERO)) for x in ('principals', 'critical_options', 'extensions')]
        if ct is None or k1 is None or k2 is None or ever is None or None in em:
            R.unsure('pretty print: path without the facts needed')
            continue
        pr, cr, ex = (mk('entries', g('critical_options')) if x == 'critical_options' else mk('keys', g('extensions')) if x == 'extensions' else g(x) for x in ('principals', 'critical_options', 'extensions'))
        head = textual(b'Type: ', kt(g('key_type'), 'name'), b' ' + (b'user' if ct == 0 else b'host') + b' certificate\nPublic Key: ', kt(g('key_type'), 'short_name'), b' ' + k1 + b':', fld(fk, 0, 1),
                       b'\nSigning CA: ', kt(getf(prog, g('signature_key'), PK, 'key_type'), 'short_name'), b' ' + k2 + b':', fld(fs, 0, 1), b' (using ', kt(getf(prog, g('signature_key'), PK, 'key_type'), 'name'),
                       b')\nKey ID: "', g('key_id'), b'"\nSerial: ', mk('disp', g('serial')), b'\n')
        val = textual(b'Valid: forever\n') if ever else textual(b'Valid between: ', mk('disp', va), b' and ', mk('disp', vb), b'\n')
        want = cat(head, val)
        got = parts_of(t)
        # the fixed part exactly; the lists by what each entry contributes
        wp = parts_of(want)
        pre = merge(got, wp)
        if pre is None:
            R.same(run, 'detailed text', t, want, 'detailed printout', o)
            continue
        R.good('detailed text')
        rest = pre
        for (what, src, empty, non) in (('principals', g('principals'), em[0], b'Principals\n'), ('critical options', g('critical_options'), em[1], b'Critical Options:\n'), ('extensions', g('extensions'), em[2], b'Extensions:\n')):
            label = {'principals': b'Principals: (none)\n', 'critical options': b'Critical Options: (none)\n', 'extensions': b'Extensions: (none)\n'}[what]
            r2 = merge(rest, parts_of(B(label if empty else non)))
            if r2 is None:
                R.same(run, f'detailed {what}', seq(rest), B(label if empty else non), f'{what} of the detailed printout', o)
                rest = None
                break
            rest = r2
            if not empty:
                if not rest or rest[0][0] != 's' or not any(x is src for x in subterms(rest[0][1])):
                    R.same(run, f'detailed {what}', seq(rest), src, f'the {what} are missing from the detailed printout', o)
                    rest = None
                    break
                c = rest[0][1]
                if c.op == 'cmap' and cmap_all(c, src, what):
                    R.good(f'detailed {what}')
                else:
                    (R.unsure if imprecise(c) or c.op != 'cmap' or not run.clean else lambda m: R.bad(f'detailed {what}', f.key, f.span, m))(f'the detailed printout does not list every one of the {what} as it is: {cut(c)}')
                rest = rest[1:]
        if rest:
            R.same(run, 'detailed tail', seq(rest), EMPTY, 'text after the detailed printout', o)


def cmap_all(c, src, what):
    """each element of src contributes a line with exactly its name (and value)"""
    s, body_ = c.a[0], c.a[1]
    base = s
    if base.op in ('entries', 'keys'):
        base = base.a[0]
    if base is not src:
        return False
    ps = parts_of(body_)
    txt = b''.join(p[1].a[0] for p in ps if p[0] == 's' and p[1].op == 'bytes')
    if what == 'critical options':
        return txt == b'\t \n' and len(ps) == 5
    return txt == b'\t\n' and len(ps) == 3


def merge(got, want):
    """what remains of the parts `got` after the prefix `want`, or None"""
    got, want = list(got), list(want)
    while want:
        if not got:
            return None
        a, b = got[0], want[0]
        if a == b:
            got.pop(0), want.pop(0)
            continue
        if a[0] == 's' and b[0] == 's' and a[1].op == 'bytes' and b[1].op == 'bytes':
            x, y = a[1].a[0], b[1].a[0]
            if x.startswith(y):
                got[0] = ('s', B(x[len(y):]))
                want.pop(0)
                continue
            if y.startswith(x):
                want[0] = ('s', B(y[len(x):]))
                got.pop(0)
                continue
        return None
    return got


@rule('text.small')
def text_small(R, cfg):
    prog, A = R.progs[cfg], R.anch[cfg]
    FPT = 'ssh::pubkey::Fingerprint'
    f = display_of(prog, FPT)
    if f is None:
        R.bad('fingerprint missing', FPT, None, 'Fingerprint implements no Display')
    else:
        run = R.explore(cfg, f)
        for o in run.outs if run else ():
            t = displayed(o, f)
            k = FPK.get(o.facts.variant(getf(prog, P(f, 1), FPT, 'kind')))
            if t is None or k is None:
                R.unsure('fingerprint text')
                continue
            R.same(run, 'fingerprint', t, textual(k + b':', getf(prog, P(f, 1), FPT, 'hash')), 'printed fingerprint', o)
    V, S = 'ssh::signature::VerifiedSshSignature', 'ssh::signature::SshSignature'
    f, g = display_of(prog, V), display_of(prog, S)
    if f is not None and g is not None:
        run = R.explore(cfg, f, {g.key: lambda c: None})
        for o in run.outs if run else ():
            t = displayed(o, f)
            if t is None:
                R.unsure('verified signature text')
                continue
            R.same(run, 'verified signature', t, textual(mk('disp', getf(prog, P(f, 1), V, 'signature'))), 'printed verified signature', o)
    # names of the certificate types
    CT = 'ssh::cert::CertType'
    vs = variants(prog, CT)
    fs = [h for h in prog.fns.values() if h.impl_trait == 'core::convert::TryFrom' and h.impl_self is not None and prog.tystr(h.impl_self) == CT]
    for h in fs:
        run = R.explore(cfg, h)
        if run is None:
            continue
        p = P(h, 1)
        ok = {b'user': 'User', b'User': 'User', b'host': 'Host', b'Host': 'Host'}
        for o in run.outs:
            for w, n in ok.items():
                if o.facts.truth_of(eq(p, B(w))) is True:
                    R.expect(is_ok(o) and o.facts.variant(o.ret.a[2]) == vs.get(n) or is_ok(o) and o.ret.a[2].op == 'agg' and o.ret.a[2].a[1] == vs.get(n) or not run.clean, f'type name {w.decode()}', h.key, h.span, f'the certificate type name {w.decode()} is read as {cut(o.ret)}')
                    break
            else:
                if is_ok(o) and run.clean:
                    if all(o.facts.truth_of(eq(p, B(w))) is False for w in ok):
                        R.bad('type name', h.key, h.span, f'another text is read as a certificate type: {cut(o.ret)}')
                    else:
                        R.unsure('type name path')
                else:
                    R.good('unknown type names rejected')
    f = prog.find(f'{CERT}::standard_extensions')
    if f is not None:
        run = R.explore(cfg, f)
        for o in run.outs if run else ():
            names = ext_consts(o.ret)
            if names is None:
                R.unsure(f'standard extensions: {cut(o.ret)}')
                continue
            R.expect(names == STD, 'standard extensions', f.key, f.span, f'the standard extensions are {sorted(names.items())}')


UNIT_ = mk('agg', 'tuple', 0)
STD = {b'permit-agent-forwarding': b'', b'permit-port-forwarding': b'', b'permit-pty': b'', b'permit-user-rc': b'', b'permit-X11-forwarding': b''}


def ext_consts(t):
    d = {}
    while t.op == 'mapins':
        if t.a[1].op != 'bytes' and t.a[1] is not EMPTY or t.a[2].op != 'bytes' and t.a[2] is not EMPTY:
            return None
        d.setdefault(txt_(t.a[1]), txt_(t.a[2]))
        t = t.a[0]
    return d if t.op == 'emptymap' else None


def txt_(t):
    return t.a[0] if t.op == 'bytes' else b''
