"""plant.py SPEC.py : writes /verif/seeded/<id> from a spec (id, property, edits=[(file, old, new)], demo, needs, what) and tries the demo
on the unchanged tree and on a scratch copy with the change"""
import json, os, shutil, subprocess, sys, tempfile
g = {}
exec(open(sys.argv[1]).read(), g)
d = tempfile.mkdtemp(prefix='plant_')
out = '/verif/seeded/' + g['id']
try:
    subprocess.run(['git', 'clone', '-q', '/repo', d + '/repo'], check=True)
    r = d + '/repo'
    for f, old, new in g['edits']:
        s = open(r + '/' + f).read()
        assert s.count(old) == 1, '%d occurrences of %r' % (s.count(old), old)
        open(r + '/' + f, 'w').write(s.replace(old, new))
    diff = subprocess.run(['git', 'diff'], cwd=r, capture_output=True, text=True).stdout
    os.makedirs(out, exist_ok=True)
    open(out + '/patch.diff', 'w').write(diff)
    open(out + '/demo.py', 'w').write(g['demo'])
    open(out + '/demo.sh', 'w').write('''#!/bin/bash
# runs in the repository; scratch files go to a directory of its own
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
cd "$W" && NUMBA_DISABLE_JIT=%s TQDM_DISABLE=1 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$R timeout 250 /opt/venv/bin/python "$D/demo.py"
''' % g.get('nojit', '1'))
    json.dump({'property': g['property'], 'needs': g['needs'], 'what_it_breaks': g['what']}, open(out + '/meta.json', 'w'), indent=1)
    def demo(repo):
        p = subprocess.run(['bash', out + '/demo.sh'], cwd=repo, capture_output=True, text=True)
        return p.returncode, (p.stdout + p.stderr)[-400:]
    a, b = demo('/repo'), demo(r)
    print('unchanged', a)
    print('changed', b)
    chk = subprocess.run(['python3-vt', '/verif/check.py', g['property']], env=dict(os.environ, PYVC_REPO=r), capture_output=True, text=True, cwd='/verif')
    print('check', chk.returncode, '\n'.join(chk.stdout.strip().split('\n')[:5])[:900])
    if 'tests' in sys.argv:
        print('tests are run by vcheck --bug', g['id'])
finally:
    shutil.rmtree(d)
