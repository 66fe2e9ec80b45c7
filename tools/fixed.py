#!/usr/bin/env python3
"""Writes the fixed: lines of KNOWN_FINDINGS.txt (keeps the known: lines)."""
import subprocess,os
M="""598f2e8 W03
2c4f4af W01
dff27a5 W04
dda0f18 W04
31d3b6f S02
a081a0c S03
a8d4781 S03
19ed0e3 S03
9666aaf C06
b6050a5 C05
15dbecb C01
1cc4178 C03
6213d4c C04
bfe4f1e C03
7201d24 C04
0794fdc R02
7281a41 R02
70a8c44 R07
1baf9a7 R02
8bf3a61 R02
4624ad0 R06
ed960a4 R06
5e02e03 R08
6858b51 R06
f3965fb R08
b22fd09 R07
72f9c27 M01
32ef11b M01
e9b2266 M07
06f1e1c M02
c36c94d M01
26a1d41 M01
d010955 M01
a57f3c3 M01
2a72cba M01
a0fbc3a M04
61fd6ac M01
38bad09 M01
5d0db88 M03
953cdba M01
44c7422 M01
f8994d4 M04
6f5cdc2 M02
247bddf M02
495fa51 M02
e3a7fec M01
e765501 M01
43086ae M01
4e152df B03
c893c42 B02
a0899b4 B02
39ceb25 B02
f318411 B01
b11658a B04
3ab092b B05
601d98a L02
3e56bf3 T01
0daaa31 R01
2006579 R07
4e50221 W04
f4af227 C02
51b2d3e C04
5d7118f M03
f7026cf M03
3e7ac31 B03
2993b6e B03
785a1c6 B02
adb6da4 B03"""
log={l.split(' ',1)[0]:l.split(' ',1)[1] for l in subprocess.check_output(['git','-C','/repo','log','--format=%h %s','fa98669..HEAD'],text=True).splitlines()}
p='/verif/KNOWN_FINDINGS.txt'
keep=[l for l in (open(p).read().split('\n') if os.path.exists(p) else []) if l.startswith('known:')]
out=["# Defects of go-iproto found while building the checks.","# known: property=<id> | <rule> | <function> | <what>   recorded, not repaired; suppresses exactly that report","# fixed: property=<id> <commit> <what failed>            repaired in /repo; suppresses nothing"]+keep
for l in M.split('\n'):
    h,pr=l.split(); out.append('fixed: property=%s %s %s'%(pr,h,log[h][5:]))
assert len(log)==len(M.split('\n')),(len(log),)
open(p,'w').write('\n'.join(out)+'\n')
