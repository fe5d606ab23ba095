#!/usr/bin/env python3
"""Turns tools/seeds/*.py descriptions of planted bugs into /verif/seeded/<id>/, confirming each in a scratch copy.
A description sets: property, pkg, edits=[(file, old, new)...], needs, breaks, demo (Go test file body)."""
import sys,os,subprocess,json,shutil,tempfile
V='/verif'
DEMO='''#!/bin/bash
# Runs the demonstration inside the package, through an overlay. cwd: the repository.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
ov=$(mktemp) || exit 2
trap 'rm -f "$ov"' EXIT
printf '{"Replace":{"%%s/%(pkg)szz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$here" > "$ov"
timeout 250 go test -vet=off -overlay "$ov" -run '^TestDemo$' -count=1 ./%(pkg)s
'''
def run(c,cwd,**k): return subprocess.run(c,cwd=cwd,shell=True,capture_output=True,text=True,**k)
def main(ids):
    for f in sorted(os.listdir(V+'/tools/seeds')):
        sid=f[:-3]
        if not f.endswith('.py') or (ids and sid not in ids): continue
        if not ids and os.path.exists(f'{V}/seeded/{sid}/meta.json'): continue
        d={}; exec(open(f'{V}/tools/seeds/{f}').read(),d)
        pkg=d.get('pkg',''); pkg=pkg+'/' if pkg else ''
        w=tempfile.mkdtemp(prefix='seed',dir='/tmp'); r=w+'/repo'
        try:
            run(f'git -C /repo worktree list >/dev/null; git clone -q /repo {r}','/')
            out=f'{w}/s'; os.makedirs(out)
            open(out+'/demo.sh','w').write(DEMO%dict(pkg=pkg)); os.chmod(out+'/demo.sh',0o755)
            open(out+'/demo_test.go','w').write(d['demo'].lstrip())
            p=run(f'bash {out}/demo.sh',r)
            if p.returncode!=0: print(sid,'DEMO FAILS ON CLEAN TREE',p.stdout[-1500:],p.stderr[-800:]); continue
            ok=True
            for (fn,old,new) in d['edits']:
                s=open(f'{r}/{fn}').read()
                if s.count(old)!=1: print(sid,'edit matches',s.count(old),'times in',fn); ok=False; break
                open(f'{r}/{fn}','w').write(s.replace(old,new))
            if not ok: continue
            open(out+'/patch.diff','w').write(run('git diff',r).stdout)
            p=run('. /opt/vp/env.sh; go build ./... && go test -vet=off -count=1 ./... 2>&1 | tail -30; exit ${PIPESTATUS[0]}',r,executable='/bin/bash')
            if p.returncode!=0: print(sid,'TESTS CATCH IT OR BUILD FAILS',p.stdout[-1500:],p.stderr[-500:]); continue
            p=run(f'bash {out}/demo.sh',r)
            if p.returncode==0: print(sid,'DEMO DOES NOT FAIL'); continue
            if 'build failed' in p.stdout: print(sid,'demo build failed',p.stdout); continue
            json.dump(dict(property=d['property'],needs=d['needs'],what_it_breaks=d['breaks']),open(out+'/meta.json','w'),indent=1)
            shutil.rmtree(f'{V}/seeded/{sid}',ignore_errors=True); shutil.copytree(out,f'{V}/seeded/{sid}')
            print(sid,'ok:',[l for l in p.stdout.splitlines() if l.strip()][1:3])
        finally: shutil.rmtree(w,ignore_errors=True)
main(sys.argv[1:])
