#!/usr/bin/env python3
"""mp.py PROPS < spec : spec = blocks '@@ file' / old / '==' / new ; several mutations separated by '%%'. Tests each in a scratch copy."""
import sys,subprocess,shutil,os,tempfile
from mut import run
def apply(spec,root):
    for blk in spec.split('@@ ')[1:]:
        fn,rest=blk.split('\n',1)
        old,new=rest.split('\n==\n') if '\n==\n' in rest else rest.split('==\n')
        new=new.rstrip('\n')
        p=root+'/'+fn.strip(); s=open(p).read()
        assert s.count(old)>=1,('not found',fn,old)
        s=s.replace(old,new,1); open(p,'w').write(s)
def test(props,spec):
    d=tempfile.mkdtemp(prefix='mp',dir='/tmp')
    try:
        shutil.copytree('/repo',d+'/r',ignore=shutil.ignore_patterns('.git'))
        apply(spec,d+'/r')
        rc,o=run(['go','build','./...'],d+'/r')
        if rc: return 'NOBUILD '+o[-300:]
        os.makedirs(d+'/v')
        if os.path.exists('/verif/KNOWN_FINDINGS.txt'): shutil.copy('/verif/KNOWN_FINDINGS.txt',d+'/v/')
        res=[]
        for pr in props:
            rc,o=run([os.environ.get('CHECKER','/verif/bin/checker'),pr],'/verif',{'VERIF_REPO':d+'/r','VERIF_DIR':d+'/v'})
            if rc: res.append('caught '+pr+'  '+' || '.join([l[:150] for l in o.split('\n') if l and not l.startswith(('VIOLATION','KNOWN','OK'))][:1]))
        return '\n  '.join(res) if res else 'MISSED'
    finally: shutil.rmtree(d)
if __name__=='__main__':
    for i,s in enumerate(sys.stdin.read().split('%%\n')):
        print('#%d'%i, s.split('\n')[0][:40], '\n ', test(sys.argv[1].split(','),s),flush=True)
