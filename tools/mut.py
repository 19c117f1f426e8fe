"""try source edits against a check: mut.py PROP file 'old' 'new' [n-th occurrence]  (scratch copy of /repo)"""
import os, shutil, subprocess, sys
prop, f, old, new = sys.argv[1:5]
nth = int(sys.argv[5]) if len(sys.argv) > 5 else 1
d = '/tmp/mut_%d' % os.getpid()
os.makedirs(d)
try:
    shutil.copytree('/repo/numerous', d + '/numerous', ignore=shutil.ignore_patterns('__pycache__'))
    p = d + '/' + f
    s = open(p).read()
    parts = s.split(old)
    assert len(parts) > nth, 'text not found'
    open(p, 'w').write(old.join(parts[:nth]) + new + old.join(parts[nth:]))
    r = subprocess.run(['python3-vt', '/verif/check.py', prop], env=dict(os.environ, PYVC_REPO=d), capture_output=True, text=True, cwd='/verif')
    print(r.returncode, '\n'.join(r.stdout.strip().split('\n')[:4] + r.stdout.strip().split('\n')[-2:])[:1500], r.stderr[-500:])
finally:
    shutil.rmtree(d)
