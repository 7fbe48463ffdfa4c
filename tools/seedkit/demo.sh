#!/bin/bash
# builds demo.cpp against the library built from /repo and runs it in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
O=/usr/lib/x86_64-linux-gnu/openmpi
g++-11 -std=c++17 -g -w -pthread @FLAGS@ -DHXHIM_HAVE_LEVELDB=1 -DHXHIM_HAVE_ROCKSDB=1 -I/repo/include -isystem $O/include -isystem $O/include/openmpi \
    "$here/demo.cpp" -o "$w/demo" /repo/_build/src/libhxhim.a -L$O/lib -lmpi_cxx -lmpi -lleveldb -lsnappy -lrocksdb -lpthread -lm -ldl || exit 2
cd "$w" || exit 2
for v in $(env | grep -o '^HXHIM_[A-Z_]*'); do unset "$v"; done
export HOME="$w" TMPDIR="$w" OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_pml=ob1 OMPI_MCA_btl=self,vader \
    OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_mpi_yield_when_idle=1 OMPI_MCA_plm=isolated
np=@NP@
if [ "$np" -gt 1 ]; then
    timeout 120 mpirun -np $np --oversubscribe --bind-to none ./demo
else
    export OMPI_MCA_ess_singleton_isolated=1 OMPI_MCA_btl=self
    timeout 120 ./demo
fi
