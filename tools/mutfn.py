#!/usr/bin/env python3
"""mutfn.py PROPS GREP: for every function of the library delete all its lines matching GREP at once."""
import sys,re,os
sys.path.insert(0,os.path.dirname(__file__))
from mut import mutate
from concurrent.futures import ThreadPoolExecutor
props=sys.argv[1].split(','); pat=re.compile(sys.argv[2])
jobs=[]
for root,ds,fs in os.walk('/repo'):
    if '.git' in root or 'examples' in root: continue
    for f in fs:
        if f.endswith('.go') and not f.endswith('_test.go'):
            p=os.path.relpath(os.path.join(root,f),'/repo'); cur=None; L=[]
            for i,l in enumerate(open('/repo/'+p).read().split('\n')):
                if l.startswith('func '):
                    if L: jobs.append((p,cur,L))
                    cur=l; L=[]
                if cur and pat.search(l): L.append(i+1)
            if L: jobs.append((p,cur,L))
def go(j): return j,mutate(props,[(j[0],n,'del') for n in j[2]])
with ThreadPoolExecutor(4) as ex:
    for j,r in ex.map(go,jobs):
        if isinstance(r,str): print('nobuild',j,r[-100:] ); continue
        c=[pr for pr,rc,_ in r if rc]
        print('caught' if c else 'MISSED',j[0],j[2],j[1],','.join(c), [x[2] for x in r if x[1]][0][0][:150] if c else '')
