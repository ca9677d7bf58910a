#!/bin/bash
# t.sh LL budget entry:cfg ... : run entries in parallel, one summary line each
export VQ=1; L=$1; B=$2; shift 2
for x in "$@"; do echo "$x"; done | xargs -P 8 -I{} bash -c 'x={}; e=${x%%:*}; c=${x##*:}; python3-vt /verif/engine/run.py '$L' $e $c "${OPTS:-{\}}" '$B' > /verif/build/t/$e.$c.out 2>&1; python3 /verif/tsum.py /verif/build/t/$e.$c.out'
