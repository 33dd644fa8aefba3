"""Type-checked program -> MIR text, from /repo's current working tree, without touching /repo."""
import fcntl, hashlib, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('TBC_REPO', '/repo')
CRATE = 'programs/token-bonding-curve'


class BuildError(Exception):
    pass


def workdir():
    for d in (os.path.join(VERIF, '.work'), '/var/tmp/tbc-work'):
        try:
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, '.w%d' % os.getpid())
            open(p, 'w').close()
            os.unlink(p)
            return d
        except OSError:
            continue
    raise BuildError('no writable scratch directory')


def inputs_digest():
    """digest of every file the build reads from the working tree (not target/)"""
    h = hashlib.sha256()
    names = []
    for top in ('programs', 'Cargo.toml', 'Cargo.lock', '.cargo'):
        p = os.path.join(REPO, top)
        if os.path.isfile(p):
            names.append(p)
        for d, ds, fs in os.walk(p):
            ds[:] = sorted(x for x in ds if x not in ('target', 'node_modules', '.git'))
            names.extend(os.path.join(d, x) for x in sorted(fs))
    for n in names:
        h.update(n.encode())
        with open(n, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    h.update(open(os.path.join(VERIF, 'bin/rustc-mir-wrapper'), 'rb').read())
    h.update(open(os.path.join(VERIF, 'tbc/build.py'), 'rb').read())
    return h.hexdigest()[:24]


def prime(tgt):
    """dependency artefacts the repository's own build left behind (a copy; absent -> cold build)"""
    src = os.path.join(REPO, 'target/debug')
    if os.path.isdir(os.path.join(tgt, 'debug', 'deps')) or not os.path.isdir(os.path.join(src, 'deps')):
        return
    os.makedirs(os.path.join(tgt, 'debug'), exist_ok=True)
    for d in ('deps', '.fingerprint', 'build'):
        if os.path.isdir(os.path.join(src, d)):
            subprocess.run(['cp', '-a', os.path.join(src, d), os.path.join(tgt, 'debug', d)], check=False)


def mir(variant='default'):
    """MIR text of the library crate. variant 'release' is compiled as deployed, without overflow checks and debug assertions; 'production' moreover has the production feature."""
    w = workdir()
    lock = open(os.path.join(w, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        dig = inputs_digest()
        out = os.path.join(w, 'mir-%s-%s.txt' % (variant, dig))
        if os.path.exists(out) and os.path.getsize(out) > 100000:
            return open(out).read(), 'cached by content digest %s' % dig
        tgt = os.path.join(w, 'target')
        prime(tgt)
        text, secs = None, 0
        for attempt in (0, 1):
            if attempt:
                shutil.rmtree(os.path.join(w, 'target'), ignore_errors=True)
            text, errs, secs = cargo(tgt, variant, dig)
            if text and len(text) > 100000:
                break
        if not text or len(text) < 100000:
            raise BuildError('the crate does not build:\n' + errs[-3000:])
        for x in os.listdir(w):
            if x.startswith('mir-' + variant):
                os.unlink(os.path.join(w, x))
        with open(out + '.tmp', 'w') as f:
            f.write(text)
        os.rename(out + '.tmp', out)
        return text, 'built in %.0fs from digest %s' % (secs, dig)
    finally:
        lock.close()


def cargo(tgt, variant, dig):
    env = dict(os.environ)
    env.update({
        'HOME': os.environ.get('HOME') or '/root', 'RUSTUP_TOOLCHAIN': '1.70.0', 'CARGO_NET_OFFLINE': 'true',
        'CARGO_TARGET_DIR': tgt, 'CARGO_INCREMENTAL': '1', 'CARGO_PROFILE_DEV_DEBUG': '1', 'CARGO_TERM_COLOR': 'never',
        'RUSTC_WRAPPER': '', 'PYO3_PYTHON': '/usr/bin/python3',
        'RUSTC_WORKSPACE_WRAPPER': os.path.join(VERIF, 'bin/rustc-mir-wrapper')})
    env['PATH'] = '/root/.cargo/bin:' + env.get('PATH', '/usr/bin:/bin')
    cmd = ['cargo', 'rustc', '-p', 'token-bonding-curve', '--lib', '--crate-type', 'lib', '--locked', '--offline']
    if variant == 'production':
        env['SWAP_PROGRAM_OWNER_FEE_ADDRESS'] = 'HfoTxFR1Tm6kGmWgYWD6J7YHVy1UwqSULUGVLXkJqaKN'
        cmd += ['--features', 'production']
    cmd += ['--', '--cfg', 'tbc_run_%d_%d' % (os.getpid(), time.time_ns())]
    if variant in ('release', 'production'):      # as deployed: no overflow checks, no debug assertions
        cmd += ['-C', 'debug-assertions=off', '-C', 'overflow-checks=off']
    t = time.time()
    p = subprocess.run(cmd, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    return p.stdout, p.stderr, time.time() - t


if __name__ == '__main__':
    for v in sys.argv[1:] or ['default']:
        t, how = mir(v)
        print(v, len(t), how)
