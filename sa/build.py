"""Builds the MIR exporter and dumps the type-checked program of /repo for each feature configuration."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SSHCERTS_REPO', '/repo')
BUILD = os.environ.get('SSHCERTS_BUILD', os.path.join(ROOT, '.build'))
CONFIGS = {
    'default': [],
    'ctap2': ['--no-default-features', '--features', 'all-but-fido,fido-support'],
    'small': ['--no-default-features', '--features', 'encrypted-keys,rsa-signing,x509-support'],
    'bare': ['--no-default-features'],
}
# one feature at a time, for the thorough runs
MORE = {n: ['--no-default-features', '--features', f] for n, f in (
    ('enc', 'encrypted-keys'), ('rsa', 'rsa-signing'), ('x509', 'x509-support'), ('fidolite', 'fido-lite'), ('yklite', 'yubikey-lite'),
    ('mozilla', 'fido-support-mozilla'), ('piv', 'yubikey-support'), ('ctap2only', 'fido-support'))}


class BuildError(Exception):
    pass


def sh(cmd, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def tree_hash():
    h = hashlib.sha256()
    fs = [os.path.join(REPO, 'Cargo.toml')]
    for d, ds, ns in os.walk(os.path.join(REPO, 'src')):
        ds.sort()
        fs += [os.path.join(d, n) for n in sorted(ns)]
    for d, ds, ns in os.walk(os.path.join(ROOT, 'driver', 'src')):
        fs += [os.path.join(d, n) for n in sorted(ns)]
    for f in fs:
        if os.path.isfile(f):
            h.update(os.path.relpath(f, '/').encode() + b'\0')
            h.update(open(f, 'rb').read() + b'\0')
    return h.hexdigest()


def driver():
    exe = os.path.join(ROOT, 'driver', 'target', 'release', 'mirdump')
    src = max(os.path.getmtime(f) for f in glob.glob(os.path.join(ROOT, 'driver', 'src', '*.rs')))
    if not os.path.exists(exe) or os.path.getmtime(exe) < src:
        rc, out = sh(['cargo', '+nightly', 'build', '--offline', '--release'], cwd=os.path.join(ROOT, 'driver'))
        if rc or not os.path.exists(exe):
            raise BuildError('the MIR exporter does not build:\n' + out[-3000:])
    return exe


def forget(tgt):
    """drops cargo's record of the crate itself (not its dependencies), so that the exporter always runs"""
    for d, ds, ns in os.walk(os.path.join(tgt, 'debug')):
        for n in list(ds):
            if n == 'sshcerts' or n.startswith('sshcerts-'):
                shutil.rmtree(os.path.join(d, n), ignore_errors=True)
                ds.remove(n)
        for n in ns:
            if n.startswith(('sshcerts-', 'libsshcerts')):
                os.remove(os.path.join(d, n))


def dump_all(thorough=False):
    """-> {config: dump file}; rebuilt whenever the source tree differs from what was dumped last"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = driver()
        rc, sysroot = sh(['rustc', '+nightly', '--print', 'sysroot'])
        sysroot = sysroot.strip()
        h = tree_hash()
        out = {}
        for cfg, flags in list(CONFIGS.items()) + list(MORE.items() if thorough else ()):
            f = os.path.join(BUILD, f'{cfg}.json')
            stamp = f + '.hash'
            out[cfg] = f
            if os.path.exists(f) and os.path.exists(stamp) and open(stamp).read() == h:
                continue
            for x in (f, stamp):
                if os.path.exists(x):
                    os.remove(x)
            tgt = os.path.join(BUILD, 'target')
            forget(tgt)
            env = {'RUSTC_WORKSPACE_WRAPPER': exe, 'LD_LIBRARY_PATH': sysroot + '/lib', 'MIRDUMP_OUT': f,
                   'CARGO_TARGET_DIR': tgt, 'CARGO_INCREMENTAL': '0', 'CARGO_TERM_COLOR': 'never', 'RUSTFLAGS': ''}
            rc, o = sh(['cargo', '+nightly', 'check', '--offline', '--lib'] + flags, env=env, cwd=REPO)
            if rc or not os.path.exists(f):
                if cfg == 'default':
                    raise BuildError(f'configuration {cfg} of /repo does not build:\n' + o[-3000:])
                print(f'note: configuration {cfg} does not build and is not analysed')
                del out[cfg]
                continue
            with open(stamp, 'w') as s:
                s.write(h)
        return out


if __name__ == '__main__':
    print(dump_all())
