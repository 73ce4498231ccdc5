#!/bin/bash
# runmany.sh Cxx [seeds] [--thorough]: run a check on several seeds, print only what is wrong
p=$1; shift
for s in $1; do VERIF_SEED=$s ./check $p $2 >/tmp/w/o.$p.$s 2>&1; r=$?; head -1 /tmp/w/o.$p.$s; [ $r = 0 ] || { echo "rc=$r seed=$s"; grep -v -e ' observed ' /tmp/w/o.$p.$s | cut -c1-${W:-400}; }; done
