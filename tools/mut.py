#!/usr/bin/env python3
"""mut.py PROP[,PROP] FILE:LINE:del | FILE:LINE:s/old/new | FILE:LINE:ins:text ...
Applies one textual change to a scratch copy of /repo, builds, tests and runs checks on it."""
import sys,subprocess,shutil,os,tempfile,json
def run(cmd,cwd,env=None):
    e=dict(os.environ); e.update(GOTOOLCHAIN='local',GOPROXY='off'); e.update(env or {})
    p=subprocess.run(cmd,cwd=cwd,env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    return p.returncode,p.stdout
def mutate(props,edits,tests=False,quiet=False):
    d=tempfile.mkdtemp(prefix='mut',dir='/tmp')
    try:
        shutil.copytree('/repo',d+'/r',ignore=shutil.ignore_patterns('.git'))
        for f,ln,op in edits:
            p=d+'/r/'+f; L=open(p).read().split('\n'); i=ln-1
            if op=='del': L[i]=''
            elif op.startswith('s/'):
                _,a,b=op.split('/',2); assert a in L[i],(f,ln,L[i],a); L[i]=L[i].replace(a,b,1)
            elif op.startswith('ins:'): L.insert(i,op[4:])
            open(p,'w').write('\n'.join(L))
        rc,o=run(['go','vet','./...'] if False else ['go','build','./...'],d+'/r')
        if rc: return 'NOBUILD '+o[-300:]
        res=[]
        os.makedirs(d+'/v',exist_ok=True)
        for f in ('KNOWN_FINDINGS.txt',):
            if os.path.exists('/verif/'+f): shutil.copy('/verif/'+f,d+'/v/')
        for pr in props:
            rc,o=run(['/verif/bin/checker',pr],'/verif',{'VERIF_REPO':d+'/r','VERIF_DIR':d+'/v'})
            first=[l for l in o.split('\n') if l and not l.startswith('VIOLATION') and not l.startswith('KNOWN')][:3]
            res.append((pr,rc,first))
        return res
    finally: shutil.rmtree(d)
if __name__=='__main__':
    ed=[]
    for a in sys.argv[2:]:
        f,l,op=a.split(':',2); ed.append((f,int(l),op))
    r=mutate(sys.argv[1].split(','),ed)
    if isinstance(r,str): print(r)
    else:
        for pr,rc,first in r:
            print('MISSED' if rc==0 else 'caught',pr,*first,sep='\n   ')
