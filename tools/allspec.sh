#!/bin/bash
# every mutation of mspec/ against the checks named by its file (B145 -> B01,B04,B05 etc.); prints the missed ones
cd /verif/tools
for f in mspec/*.txt; do n=$(basename $f .txt); echo "$n"; done | xargs -P 4 -I{} bash -c '
case {} in B145) p=B01,B04,B05;; B23) p=B02,B03;; C12) p=C01,C02;; M) p=M02,M03;; S) p=S01,S02,S04;; W12) p=W01,W02;; W567) p=W05,W06,W07;; R02rows) p=R02;; *) p={};; esac
python3 mp.py $p < mspec/{}.txt > /tmp/as_{}.out 2>&1; echo "{} $(grep -c caught /tmp/as_{}.out) caught; missed: $(grep -B1 MISSED /tmp/as_{}.out | grep "^#" | tr "\n" " ")"'
