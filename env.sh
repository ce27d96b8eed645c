# Environment of every simulation process.
export PETSC_DIR=/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=${SIM_HASHSEED:-0} OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export MPLBACKEND=Agg
unset PETSC_OPTIONS
