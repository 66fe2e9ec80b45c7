#!/bin/bash
# mkscratch.sh SPECFILE N: scratch copy with mutation N applied -> /tmp/ms
rm -rf /tmp/ms; cp -a /repo /tmp/ms; cd /verif/tools; python3 - "$1" "$2" <<'P'
import sys; from mp import apply
apply(open(sys.argv[1]).read().split('%%\n')[int(sys.argv[2])],'/tmp/ms')
P
