#!/bin/bash
# Compiles demo.cpp against the built library and runs it in a scratch directory.
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none OMP_NUM_THREADS=2
L=/usr/lib/x86_64-linux-gnu
g++ -fopenmp -mavx2 -mfma -DUSE_PROP_RKN4 -mcmodel=medium -std=c++14 -O1 -w -rdynamic -I"$R/include" -I"$R/lib" -I/usr/include/hdf5/openmpi $(mpicxx --showme:compile) \
  "$D/demo.cpp" -o "$T/demo" -Wl,-rpath,$L/openmpi/lib:$L/hdf5/openmpi "$R/_build/lib/libAxions.a" $L/openmpi/lib/libmpi_cxx.so $L/openmpi/lib/libmpi.so \
  -lfftw3 -lfftw3f -lfftw3_omp -lfftw3f_omp -lfftw3_mpi -lfftw3f_mpi $L/hdf5/openmpi/libhdf5.so -lcrypto -lcurl -lsz -lz -ldl -lm -lgsl -lgslcblas || exit 2
cd "$T" && mkdir -p out/m && ./demo ARGS > log.txt 2>&1; rc=$?
grep DEMO log.txt | head -5; [ $rc = 0 ] || tail -2 log.txt
exit $rc
