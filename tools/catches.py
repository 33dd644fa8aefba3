"""Which checks catch which planted bug: applies each seeded/<id>/patch.diff to a scratch copy of /repo, runs every check on it
and rewrites the table at the end of DESIGN.md."""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '## Planted bugs and the checks that catch them\n'
CACHE = os.path.join(V, '.work', 'catches.json')


def run(i):
    d = os.path.join(V, 'seeded', i)
    meta = json.load(open(d + '/meta.json'))
    t = tempfile.mkdtemp(prefix='catches')
    try:
        v, r = t + '/verif', t + '/repo'
        os.mkdir(v)
        os.mkdir(r)
        subprocess.check_call('cp -a %s/tbc %s/bin %s/*.json* %s/ && mkdir %s/evidence' % (V, V, V, v, v), shell=True)
        subprocess.check_call('git -C /repo archive HEAD | tar x -C ' + r, shell=True)
        subprocess.check_call(['patch', '-s', '-p1', '-i', d + '/patch.diff'], cwd=r)
        x = subprocess.run([sys.executable, '-m', 'tbc.check'], cwd=v, env=dict(os.environ, TBC_REPO=r), capture_output=True, text=True, timeout=1200)
        ids = sorted(set(re.findall(r'VIOLATION property=(\w+)', x.stdout + x.stderr)))
    finally:
        shutil.rmtree(t)
    print(i, meta['property'], ids, flush=True)
    return i, meta['property'], ids


def main():
    want = sys.argv[1:]
    old = json.load(open(CACHE)) if os.path.exists(CACHE) else {}
    all_ = sorted(x for x in os.listdir(V + '/seeded') if os.path.exists(V + '/seeded/%s/patch.diff' % x))
    todo = [x for x in all_ if not want or x in want or x not in old]
    with ThreadPoolExecutor(int(os.environ.get('J', '3'))) as ex:
        for i, p, ids in ex.map(run, todo):
            old[i] = [p, ids]
    old = {k: v for k, v in old.items() if k in all_}
    json.dump(old, open(CACHE, 'w'))
    s = open(V + '/DESIGN.md').read()
    s = s.split(MARK)[0].rstrip() + '\n\n' + MARK + '\n| planted bug | breaks | caught by |\n|---|---|---|\n'
    for i in all_:
        p, ids = old[i]
        m = json.load(open(V + '/seeded/%s/meta.json' % i))
        s += '| `%s`: %s | %s | %s |\n' % (i, m['needs'], p, ', '.join('**%s**' % x if x == p else x for x in ids) or 'none')
    open(V + '/DESIGN.md', 'w').write(s)


main()
