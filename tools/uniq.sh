#!/bin/bash
# unique violations of a check: tools/uniq.sh c01 [cols]
cd /verif; VERIF_ALL=1 python3 checks/$1.py > /tmp/$1.out 2>/tmp/$1.err; tail -3 /tmp/$1.err
grep '^  \[' /tmp/$1.out | awk '!s[$1]++' > /tmp/$1.u; wc -l < /tmp/$1.u; tail -1 /tmp/$1.out; cut -c1-${2:-220} /tmp/$1.u | head -${3:-60}
