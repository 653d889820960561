#!/bin/bash
# run.sh PROPERTY [harness args]: builds the harness for PROPERTY from /repo's working tree and runs it.
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
prop="$1"; shift
h=$(echo "$prop" | tr 'C' 'c')
if [ -f "harness/$h.py" ]; then
  pkg=$(python3 pybuild.py) || exit 2
  export PYTHONPATH="$pkg:$PWD/lib" PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 RAYON_NUM_THREADS=1 QISKIT_PARALLEL=FALSE QISKIT_NUM_PROCS=1 VERIF_PKG="$pkg"
  export HOME="$PWD/build"
  exec /opt/vp/venv/bin/python "harness/$h.py" "$@"
fi
exe=$(python3 vbuild.py "$h") || exit 2
export ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:abort_on_error=1:handle_abort=0" UBSAN_OPTIONS="print_stacktrace=1:abort_on_error=1"
exec "$exe" "$@"
