#!/usr/bin/env python3
"""plant.py ID...   confirm planted bugs in a scratch copy of /repo: builds, stable tests pass, demo fails with / passes without; run the property's check on it.
Bugs live in /verif/seeded/<id>/. A new one is written with: plant.py --new ID PROPERTY FILE OLD NEW (see new() below, used from python)."""
import json, os, shutil, subprocess, sys
SEED = '/verif/seeded'
W = os.environ.get('PLANT_DIR', '/tmp/plant')
R = W + '/repo'


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def env():
    e = dict(os.environ)
    e.update(HOME='/root', PATH='/root/.cargo/bin:' + e['PATH'], RUSTUP_TOOLCHAIN='1.70.0', CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=R + '/target',
             CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='1', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='')
    return e


def copy():
    if not os.path.isdir(R):
        os.makedirs(W, exist_ok=True)
        sh('cp -a /repo %s' % R)
        print(build())
    sh('git -C %s checkout -q -- . && git -C %s fetch -q /repo && git -C %s reset -q --hard FETCH_HEAD' % (R, R, R))


def build():
    p = sh('cargo test --workspace --no-run --locked --offline', cwd=R, env=env())
    return p.returncode, p.stdout[-1500:] if p.returncode else ''


def tests():
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    p = sh('cargo test --workspace --locked --offline 2>&1', cwd=R, env=env())
    bad = [l for l in p.stdout.splitlines() if l.startswith('test ') and l.endswith('FAILED')]
    names = {b.split('::', 1)[1] if '::' in b else b for b in base}
    bad = [b for b in bad if any(b.split()[1] in n for n in base)]
    return bad


def new(id, prop, edits, demo, needs, breaks):
    """edits: [(file, old, new)] relative to /repo; old must be unique"""
    copy()
    for f, o, n in edits:
        p = os.path.join(R, f)
        s = open(p).read()
        assert s.count(o) == 1, (id, f, s.count(o))
        open(p, 'w').write(s.replace(o, n))
    d = os.path.join(SEED, id)
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(sh('git -C %s diff' % R).stdout)
    shutil.copy('/verif/tools/demo/h.rs', d)
    shutil.copy('/verif/tools/demo/demo.sh', d)
    open(d + '/demo.rs', 'w').write('include!("h.rs");\n' + demo)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    return confirm(id)


def confirm(id, keep=False):
    d = os.path.join(SEED, id)
    prop = json.load(open(d + '/meta.json'))['property']
    copy()
    out = {'id': id, 'property': prop}
    b0 = build()
    out['clean demo'] = sh('bash %s/demo.sh' % d, cwd=R).returncode
    a = sh('git -C %s apply %s/patch.diff' % (R, d))
    out['applies'] = a.returncode == 0
    b = build()
    out['builds'] = b[0] == 0 or b[1]
    bad = tests()
    out['tests failing'] = bad
    dm = sh('bash %s/demo.sh' % d, cwd=R)
    out['patched demo'] = dm.returncode
    out['demo says'] = dm.stdout[-200:]
    e = dict(os.environ, TBC_REPO=R)
    c = sh('timeout 900 python3 -m tbc.check %s' % prop, cwd='/verif', env=e)
    out['check'] = c.returncode
    out['check says'] = [l for l in c.stdout.splitlines() if l.strip()][-5:]
    ok = out['clean demo'] == 0 and out['applies'] and out['builds'] is True and not bad and dm.returncode not in (0,)
    out['counts'] = ok
    sh('git -C %s checkout -q -- .' % R)
    print('%-34s %-4s counts=%s caught=%s' % (id, prop, ok, c.returncode == 1))
    if not ok or c.returncode != 1:
        print(json.dumps(out, indent=1)[:1800])
    return out


if __name__ == '__main__':
    for i in sys.argv[1:] or sorted(os.listdir(SEED)):
        confirm(i)
