#!/usr/bin/env python3
"""seed.py ID PROPERTY PKGDIR 'needs' 'what it breaks' [race] < spec
spec: blocks "@@ file" / old / "==" / new, then "%%DEMO" and the Go test file (func TestDemo).
Creates /verif/seeded/ID and confirms it in a scratch copy: builds, passes the tests, demo fails with it and passes without it."""
import sys, os, json, subprocess, shutil
sid, prop, pkg, needs, what = sys.argv[1:6]
race = '-race ' if 'race' in sys.argv[6:] else ''
spec, demo = sys.stdin.read().split('%%DEMO\n')
S='/tmp/seedcopy'
if os.path.exists(S): shutil.rmtree(S)
subprocess.check_call(['cp','-a','/repo',S])
cur=None
blocks=[]
for b in spec.split('@@ ')[1:]:
    f, rest = b.split('\n',1)
    old,new = rest.split('\n==\n',1)
    if new.endswith('\n'): new=new[:-1]
    blocks.append((f.strip(),old,new))
for f,old,new in blocks:
    p=S+'/'+f
    s=open(p).read()
    if s.count(old)!=1: sys.exit('%s: old text found %d times:\n%s'%(f,s.count(old),old))
    open(p,'w').write(s.replace(old,new))
env=dict(os.environ,HOME='/root',GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',GOCACHE='/root/.cache/go-build')
def run(cmd,cwd=S):
    return subprocess.run(cmd,shell=True,cwd=cwd,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
d='/verif/seeded/'+sid
os.makedirs(d,exist_ok=True)
diff=run('git diff').stdout
open(d+'/patch.diff','w').write(diff)
open(d+'/demo_test.go','w').write(demo)
open(d+'/demo.sh','w').write('''#!/bin/bash
# runs TestDemo inside the package %s
d=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%szz_demo_test.go" "$d/demo_test.go" > "$t/o.json"
go test %s-vet=off -overlay "$t/o.json" -run '^TestDemo$' -count=1 -timeout 120s ./%s
''' % (pkg or '.', pkg+'/' if pkg else '', race, pkg))
os.chmod(d+'/demo.sh',0o755)
json.dump({'property':prop,'needs':needs,'what_it_breaks':what},open(d+'/meta.json','w'),indent=1)
ok=True
x=run('go vet ./... 2>&1 | tail -5; go build ./... && go test -vet=off -count=1 ./...')
if x.returncode: ok=False; print('BUILD/TESTS FAIL', x.stdout[-1500:])
for i in range(3):
    x=run('bash %s/demo.sh'%d)
    if x.returncode==0: ok=False; print('DEMO PASSES WITH PATCH', x.stdout[-500:])
    elif i==0: print('with patch:', x.stdout[-600:])
for i in range(3):
    x=run('bash %s/demo.sh'%d,'/repo')
    if x.returncode: ok=False; print('DEMO FAILS ON HEAD', x.stdout[-1500:])
subprocess.check_call(['rm','-rf','/tmp/seedcopy'])
print('seed',sid,'OK' if ok else 'NOT OK')
