#!/bin/bash
# exit 0: the property holds; run with the repository (built in _build) as working directory
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
export HOME=/root OMPI_CXX=g++ OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_pml=ob1 OMPI_MCA_plm_rsh_agent=/bin/false OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_mpi_yield_when_idle=1
export DEMO_TMP=$T OMP_NUM_THREADS=@THREADS@ LD_LIBRARY_PATH=$R/_build/src/.libs
mpicxx -O1 -g -w -fopenmp @FLAGS@ -DUSE_MPI -I"$D" -I"$R/src" -I"$R/levels/c_utils" -I"$R/levels/libfftpack" -I"$R/levels/cxxsupport" -I"$R/levels/Healpix_cxx" "$D/demo.cpp" -o "$T/demo" -L"$R/_build/src/.libs" -lconviqt -lcfitsio -lm || exit 2
for n in @RANKS@; do timeout -k 5 100 mpirun -np $n "$T/demo" || { echo "property broken ($n tasks)"; exit 1; }; done
