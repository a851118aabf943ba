#!/usr/bin/env python3
"""writes seeded/<id>/ (patch.diff, demo.sh, demo_test.go, meta.json) from the definitions below and confirms each in a scratch copy:
it applies, builds, passes the stable tests, and the demonstration fails with it and passes without it"""
import json,os,subprocess,sys,shutil
S='/tmp/seedrepo'
B=[]
def bug(id,prop,file,edits,pkg,test,needs,breaks,imports=()):
    B.append(dict(id=id,prop=prop,file=file,edits=edits,pkg=pkg,test=test,needs=needs,breaks=breaks,imports=imports))
exec(open(os.path.join(os.path.dirname(__file__),'seeds.py')).read())
DEMO='''#!/bin/bash
# runs demo_test.go in the package it is about, through an overlay: exit 0 if the property holds in it
d="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
o="$(mktemp)"; trap 'rm -f "$o"' EXIT
echo "{\\"Replace\\": {\\"$PWD/%s/zz_demo_test.go\\": \\"$d/demo_test.go\\"}}" > "$o"
go test -vet=off -overlay "$o" -count=1 -timeout 120s -run '^TestDemo$' %s ./%s
'''
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
only=sys.argv[1:]
def fresh():
    shutil.rmtree(S,ignore_errors=True); sh('cp -a /repo '+S)
env=dict(os.environ,HOME='/root',GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod')
base=json.load(open('/opt/vp/BASELINE.json'))
for b in B:
    if only and b['id'] not in only: continue
    fresh()
    f=S+'/'+b['file']; s=open(f).read()
    for o,n in b['edits']:
        assert s.count(o)==1,(b['id'],o,s.count(o)); s=s.replace(o,n)
    d='/verif/seeded/'+b['id']; os.makedirs(d,exist_ok=True)
    race='-race' if 'race' in b['needs'] else ''
    open(d+'/demo.sh','w').write(DEMO%(b['pkg'],race,b['pkg'])); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo_test.go','w').write(b['test'])
    json.dump({'property':b['prop'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(d+'/meta.json','w'),indent=1)
    r0=sh('bash '+d+'/demo.sh',cwd=S,env=env)
    open(f,'w').write(s)
    sh('gofmt -l '+b['file'],cwd=S)
    p=sh('git diff',cwd=S).stdout
    open(d+'/patch.diff','w').write(p)
    bl=sh('go build ./... && go vet ./'+b['pkg'],cwd=S,env=env)
    t=sh('go test -count=1 ./... 2>&1 | grep -v "no test files"',cwd=S,env=env)
    r1=sh('bash '+d+'/demo.sh',cwd=S,env=env)
    ok=r0.returncode==0 and r1.returncode!=0 and 'FAIL' not in t.stdout and bl.returncode==0 and 'build failed' not in r1.stdout
    print(b['id'],b['prop'],'OK' if ok else 'BAD', '' if ok else (r0.stdout[-1500:],r1.returncode,t.stdout[-1500:],bl.stderr[-800:]))
shutil.rmtree(S,ignore_errors=True)
