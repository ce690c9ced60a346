#!/usr/bin/env python3
"""plant.py ID...: confirm a planted bug (demo passes without, fails with; builds; tests pass) and show which check catches it"""
import subprocess, sys, json, os, re, tempfile, shutil
S='/verif/seeded'
def sh(c, t=900, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=t, **k)
stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def tests():
    sh('bash /opt/vp/test.sh /tmp/plant.json')
    d=json.load(open('/tmp/plant.json'))
    p=set(d.get('passed', [])) if isinstance(d,dict) else set()
    return stable-p
def demo(i):
    d=tempfile.mkdtemp(prefix='demo-'); 
    for f in os.listdir(f'{S}/{i}'):
        if not f.endswith(('.diff','.patch')) and f!='meta.json': shutil.copy(f'{S}/{i}/{f}', d)
    r=sh(f'bash {d}/demo.sh', 300, cwd='/repo'); shutil.rmtree(d); return r
if subprocess.run('git -C /repo status --porcelain',shell=True,capture_output=True,text=True).stdout: sys.exit('repo dirty')
for i in sys.argv[1:]:
    m=json.load(open(f'{S}/{i}/meta.json')); pid=m['property']
    sh('bash /opt/vp/build.sh')
    a=demo(i)
    res=[f'clean={a.returncode}']
    if a.returncode: print(a.stdout[-1500:])
    r=sh(f'git -C /repo apply {S}/{i}/patch.diff')
    if r.returncode: print(i,'DOES NOT APPLY',r.stdout); continue
    try:
        b=sh('bash /opt/vp/build.sh'); res.append(f'build={b.returncode}')
        t=tests(); res.append(f'tests-missing={sorted(t)}')
        b=demo(i); res.append(f'patched={b.returncode}')
        if not b.returncode: print(b.stdout[-800:])
        c=sh(f'cd /verif && ./check {pid} quick'); res.append(f'check={c.returncode}')
        v=[l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
        res.append((v or c.stdout.splitlines()[-1:] or [''])[0][:200])
    finally:
        sh('git -C /repo checkout -- .')
    print(i,pid,*res, flush=True)
sh('bash /opt/vp/build.sh')
