#!/usr/bin/env python3
"""mutlines.py PROPS GREP [op]: apply op (default del) to every line of /repo (non-test, non-example) matching GREP."""
import sys,re,subprocess,os
sys.path.insert(0,os.path.dirname(__file__))
from mut import mutate
from concurrent.futures import ThreadPoolExecutor
props=sys.argv[1].split(','); pat=re.compile(sys.argv[2]); op=sys.argv[3] if len(sys.argv)>3 else 'del'
jobs=[]
for root,ds,fs in os.walk('/repo'):
    if '.git' in root or 'examples' in root: continue
    for f in fs:
        if f.endswith('.go') and not f.endswith('_test.go'):
            p=os.path.relpath(os.path.join(root,f),'/repo')
            for i,l in enumerate(open('/repo/'+p).read().split('\n')):
                if pat.search(l): jobs.append((p,i+1,l.strip()))
def go(j):
    return j,mutate(props,[(j[0],j[1],op)])
with ThreadPoolExecutor(4) as ex:
    for j,r in ex.map(go,jobs):
        if isinstance(r,str): print('nobuild',j,r[-100:] ); continue
        c=[pr for pr,rc,_ in r if rc]
        print('caught' if c else 'MISSED',j[0],j[1],j[2],','.join(c), r[0][2][0][:150] if c and r[0][2] else '')
