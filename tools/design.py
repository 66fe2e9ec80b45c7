#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from the texts here, props, claims, the evidence of the last run and the planted bugs."""
import json, os, sys, glob
sys.path.insert(0,'/verif/tools')
import claims
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
ev={}
for f in glob.glob('/verif/evidence/*.json'):
    d=json.load(open(f)); ev[d['property']]=d
seeds={}
MISSED={'timer-heap-parent'}
for d in sorted(os.listdir('/verif/seeded')):
    if d in MISSED: continue
    m=json.load(open('/verif/seeded/%s/meta.json'%d)); seeds.setdefault(m['property'],[]).append((d,m))
head=open('/verif/tools/design_head.md').read()
out=[head.rstrip(),'','## Property by property','']
from design_notes import NOTES
for p in props:
    i=p['id']; out.append('### %s — %s'%(i,p['title'])); out.append('')
    if i in claims.NOT:
        out += ['Not applicable: '+claims.NOT[i],'']; continue
    d=ev[i]; c=d['coverage']
    out.append('*Decided by* '+claims.CLAIMS[i][0]+'.'); out.append('')
    ex=c.get('explanation','').strip()
    out.append('*Specified and examined:* '+ex[:1].upper()+ex[1:]+'.'); out.append('')
    out.append('*Within:* '+claims.CLAIMS[i][1]+'.'); out.append('')
    if d.get('assumptions'): out.append('*Taken as given:* '+'; '.join(d['assumptions'])+'.'); out.append('')
    if i in NOTES: out.append(NOTES[i].strip()); out.append('')
    s='; '.join('`%s` (%s)'%(n,m['what_it_breaks']) for n,m in seeds.get(i,[]))
    out.append('*Cost on the unchanged tree:* about %d s, %d functions, %s obligations.%s'%(max(1,round(d['wall_s'])), c['functions_analysed'], c['obligations_examined'], ' *Planted bugs it catches:* '+s+'.' if s else '')); out.append('')
open('/verif/DESIGN.md','w').write('\n'.join(out)+'\n')
