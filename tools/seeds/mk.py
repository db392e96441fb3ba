#!/usr/bin/env python3
"""mk.py seedfile.py ...: builds and confirms planted bugs."""
import sys, os, subprocess, shutil, json, re
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def run(path, keep=True):
    ns={}
    exec(open(path).read(), ns)
    id=ns['ID']; W='/tmp/sd/k'
    sh(f'rm -rf /tmp/sd/k && cp -a /repo /tmp/sd/k')
    for f,old,new in ns['EDITS']:
        p=f'{W}/{f}'; s=open(p).read()
        if s.count(old)!=1: print(id,'EDIT MATCHES',s.count(old),repr(old)); return
        open(p,'w').write(s.replace(old,new))
    diff=sh('git diff',cwd=W).stdout
    # the removed/context lines must be original
    d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(diff)
    open(d+'/meta.json','w').write(json.dumps({"property":ns['PROP'],"needs":ns['NEEDS'],"what_it_breaks":ns['BREAKS']},indent=1)+'\n')
    pre=open('/verif/tools/seeds/prelude.go').read()
    open(d+'/demo_test.go.txt','w').write(pre+ns['DEMO'])
    shutil.copy('/verif/tools/seeds/demo.sh',d+'/demo.sh'); os.chmod(d+'/demo.sh',0o755)
    env='GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod '
    b=sh(env+'go vet . ; '+env+'go build ./...',cwd=W)
    if b.returncode: print(id,'BUILD',b.stderr); return
    t=sh(env+"go test -json -vet=off -count=1 . </dev/null",cwd=W)
    ok=[l for l in t.stdout.split('\n') if '"Action":"pass"' in l and '"Test"' in l]
    bad=sorted(set(re.findall(r'"Action":"fail".*?"Test":"(\w+)"',t.stdout)))
    sh('git clean -fdq; ',cwd=W)
    g=sh('bash '+d+'/demo.sh',cwd='/repo'); m=sh('bash '+d+'/demo.sh',cwd=W)
    print(f"{id}: tests pass {len(ok)} fail {bad}; demo clean={g.returncode} mutant={m.returncode}")
    if g.returncode: print(g.stdout[-1500:],g.stderr[-500:])
    if m.returncode==0: print('NOT DEMONSTRATED')
    elif 'build failed' in m.stdout: print(m.stdout[-800:])
    elif '-v' in sys.argv: print(m.stdout[-800:])
    c=sh(f'LHA_REPO={W} VERIF_ROOT=/tmp/vr timeout 900 /tmp/lc {ns["PROP"]}')
    print('   check:',c.returncode, '\n   '.join(c.stdout.strip().split('\n')[:3])[:600])
    # which lines are removed, are they original
    for f in set(e[0] for e in ns['EDITS']):
        bl=sh(f'git blame -s --porcelain HEAD -- {f}',cwd='/repo').stdout
        bl=sh(f'git blame -s HEAD -- {f}',cwd='/repo').stdout.split('\n')
        ln=0
        for l in sh(f'git diff -U0 -- {f}',cwd=W).stdout.split('\n'):
            mm=re.match(r'@@ -(\d+)(?:,(\d+))?',l)
            if mm:
                a=int(mm.group(1)); n=int(mm.group(2) or 1)
                for k in range(a,a+n):
                    if not bl[k-1].startswith('^30768db'): print('   NOT ORIGINAL',f,k,bl[k-1][:100])
                if n==0: print('   pure insertion at',f,a, bl[a-1][:60])
    sh('git -C /repo status --short')
for p in sys.argv[1:]:
    if p!='-v': run(p)
