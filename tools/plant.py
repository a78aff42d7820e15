"""Planting: plant(id, prop, edits, needs, breaks, demo) writes /verif/seeded/<id>."""
import json, os, shutil, subprocess, sys, re
REPO='/repo'; SEED=__import__('os').environ.get('SEED','/tmp/plant/seeded'); BASE='722641c'
DEMO='''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1
exec /opt/venv/bin/python "$here/demo.py"
'''
def sh(c, **k): return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
def plant(id, prop, edits, needs, breaks, demo):
    if len(sys.argv)>1 and id not in sys.argv[1:]: return
    import textwrap
    copy=f'/tmp/plant/w/{id}'
    shutil.rmtree(copy, ignore_errors=True)
    os.makedirs('/tmp/plant/w', exist_ok=True)
    assert sh(f'git -C {REPO} worktree list').returncode==0
    assert sh(f'cp -a {REPO} {copy}').returncode==0
    for f,old,new in edits:
        p=f'{copy}/{f}'; s=open(p).read()
        assert s.count(old)==1,(id,f,s.count(old),old)
        open(p,'w').write(s.replace(old,new))
        # blame of the changed lines
    d=sh(f'git -C {copy} diff').stdout
    # blame
    orig=False
    for f,old,new in edits:
        bl=sh(f'git -C {copy} blame -s --abbrev=7 HEAD -- {f}').stdout.splitlines()
        cur=sh(f'git -C {copy} diff -U0 -- {f}').stdout
        for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ',cur,re.M):
            a=int(m[1]); n=int(m[2]) if m[2] is not None else 1
            for l in bl[a-1:a-1+n]:
                if l.lstrip('^').startswith(BASE): orig=True
                else: print('   NOTE', id, 'touches my line:', l)
    if not orig: print('   WARN', id, 'no original line changed')
    o=f'{SEED}/{id}'; shutil.rmtree(o, ignore_errors=True); os.makedirs(o)
    open(f'{o}/patch.diff','w').write(d)
    open(f'{o}/demo.py','w').write(textwrap.dedent(demo).lstrip('\n'))
    open(f'{o}/demo.sh','w').write(DEMO); os.chmod(f'{o}/demo.sh',0o755)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(f'{o}/meta.json','w'),indent=1)
    open(f'{o}/meta.json','a').write('\n')
    a=sh(f'bash {o}/demo.sh',cwd=REPO); b=sh(f'bash {o}/demo.sh',cwd=copy)
    ok = a.returncode==0 and b.returncode!=0
    print(id, 'demo', 'OK' if ok else f'BAD clean={a.returncode} patched={b.returncode}')
    if not ok: print(a.stdout[-800:],a.stderr[-1500:],'-----',b.stdout[-500:],b.stderr[-800:])
    else: print('     ', (b.stderr.strip().splitlines() or b.stdout.strip().splitlines() or ['?'])[-1][:150])
    return ok
