#!/bin/bash
# every refactoring must stay quiet for every check given (default: all)
P=${1:-$(../bin/checker list | paste -sd,)}
cd /verif/tools
for f in ref/*.txt; do echo "== $f"; python3 mp.py $P < $f | grep -E "^#|caught|NOBUILD" ; done
