"""mkdesign.py [run]: table of planted bugs in DESIGN.md, between the markers. With `run`, runs the check against each
bug in a scratch copy of /repo first (results in seeded/<id>/caught.txt)."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(i):
    d = tempfile.mkdtemp(prefix='md_', dir='/tmp')
    try:
        shutil.copytree('/repo', d + '/repo', symlinks=True)
        shutil.copytree(V, d + '/verif', ignore=shutil.ignore_patterns('.git', 'seeded'))
        s = os.path.join(V, 'seeded', i)
        subprocess.run(['git', '-C', d + '/repo', 'apply', s + '/patch.diff'], check=True)
        p = json.load(open(s + '/meta.json'))['property']
        r = subprocess.run([d + '/verif/check.sh', p], capture_output=True, text=True, env=dict(os.environ, PVC_REPO=d + '/repo'))
        out = 'MISSED'
        if r.returncode == 1:
            v = json.load(open(d + '/verif/replay/%s.json' % p))['violations']
            out = v[0]['obligation'] + (' (+%d more)' % (len(v) - 1) if len(v) > 1 else '')
            if not v[0]['input']:
                out += ', proof only'
        open(s + '/caught.txt', 'w').write(out + '\n')
        print(i, r.returncode, out, flush=True)
    finally:
        shutil.rmtree(d)


ids = sorted(os.listdir(V + '/seeded'))
if sys.argv[1:]:
    which = sys.argv[2:] or ids
    with ThreadPoolExecutor(3) as ex:
        list(ex.map(run, which))
rows = []
for i in ids:
    m = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
    f = '%s/seeded/%s/caught.txt' % (V, i)
    c = open(f).read().strip() if os.path.exists(f) else ''
    rows.append('| %s | %s | %s | %s | `%s` |' % (i, m['property'], m['what_it_breaks'], m['needs'], c))
t = open(V + '/DESIGN.md').read()
a, b = '<!-- planted -->', '<!-- /planted -->'
head, tail = t.split(a)[0], t.split(b)[1]
open(V + '/DESIGN.md', 'w').write(head + a + '\n| bug | check | breaks | needs | first failed obligation |\n|---|---|---|---|---|\n' + '\n'.join(rows) + '\n' + b + tail)
