#!/bin/bash
# build.sh SRC OUT.ll [extra flags]: harness + /repo sources -> LLVM IR
S=$1; O=$2; shift 2
INC="-I/verif/stubsym -I/verif/stub -I/verif/include -I/repo/include -I/repo/lib -I/usr/include/hdf5/openmpi $(mpicxx --showme:compile 2>/dev/null)"
FL="-O1 -Xclang -disable-llvm-passes -gline-tables-only -S -emit-llvm -DV_SYM -DUSE_PROP_RKN4 -ffp-contract=off -mavx2 -mfma -std=c++14 -fno-strict-aliasing -fno-math-errno -w -Wno-argument-outside-range -fno-caret-diagnostics -ftemplate-backtrace-limit=1 -fmacro-backtrace-limit=1"
rm -f $O.vfs/map.json $O.vfs/o.yaml
for i in 1 2 3 4; do
  clang++-18 $FL -ferror-limit=400 -fdiagnostics-print-source-range-info $INC "$@" -o $O.0 $S $OV 2> $O.err && break
  if grep -q "error: arithmetic on a pointer to void\|error: static_cast from .char" $O.err && python3 /verif/voidfix.py $O.vfs $O.err; then OV="-ivfsoverlay $O.vfs/o.yaml"; continue; fi
  head -c 2500 $O.err; exit 1
done
opt-18 -S -passes='always-inline,function(sroa,early-cse,simplifycfg,instsimplify,loop-simplify)' $O.0 -o $O || exit 1
rm -f $O.0 $O.err
