#!/usr/bin/env python3
"""seedcheck.py [ID...]: confirm planted changes in a scratch copy (applies, builds, stable
tests pass, demo passes without it and fails with it)."""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = '/tmp/seedscratch'
def sh(c, **k): return subprocess.run(['bash', '-c', c], capture_output=True, text=True, errors='replace', **k)
def prep():
    shutil.rmtree(S, ignore_errors=True); os.makedirs(S)
    sh(f'cp -a /repo {S}/repo; mkdir {S}/vp {S}/vp/logs; cp /opt/vp/*.sh /opt/vp/*.py /opt/vp/nextest.toml {S}/vp/')
    for f in ('env.sh', 'build.sh', 'test.sh'):
        p = f'{S}/vp/{f}'; t = open(p).read().replace('/opt/vp', S + '/vp').replace('cd /repo', f'cd {S}/repo').replace('/repo/target', f'{S}/repo/target').replace('rm -f /1.bin', f'rm -f {S}/1.bin /tmp/1.bin')
        open(p, 'w').write(t)
base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def demo(i):
    shutil.rmtree(f'{S}/d', ignore_errors=True); shutil.copytree(f'{V}/seeded/{i}', f'{S}/d')
    for f in os.listdir(f'{S}/d'):
        if f.endswith(('.diff', '.patch')) or f == 'meta.json': os.unlink(f'{S}/d/{f}')
    t = open(f'{S}/d/demo.sh').read().replace('/opt/vp', S + '/vp'); open(f'{S}/d/demo.sh', 'w').write(t)
    r = sh(f'cd {S}/repo; timeout 300 bash {S}/d/demo.sh'); return r.returncode, (r.stdout + r.stderr)[-300:]
prep()
ids = sys.argv[1:] or sorted(os.listdir(f'{V}/seeded'))
bad = 0
for i in ids:
    sh(f'cd {S}/repo; git checkout -q -- .; bash {S}/vp/build.sh')
    d0 = demo(i)
    a = sh(f'cd {S}/repo; git apply {V}/seeded/{i}/patch.diff')
    b = sh(f'bash {S}/vp/build.sh')
    t = sh(f'bash {S}/vp/test.sh {S}/out.json')
    try: o = json.load(open(f'{S}/out.json')); miss = sorted(base - set(o['passed']))
    except Exception as e: miss = [str(e)]
    d1 = demo(i)
    ok = d0[0] == 0 and a.returncode == 0 and b.returncode == 0 and not miss and d1[0] not in (0, 3)
    bad += not ok
    print(i, 'OK' if ok else 'BAD', 'demo0', d0, 'apply', a.returncode, a.stderr[-200:], 'build', b.returncode, b.stderr[-600:] if b.returncode else '', 'tests missing', miss[:5], 'demo1', d1, flush=True)
shutil.rmtree(S, ignore_errors=True)
sys.exit(bad > 0)
