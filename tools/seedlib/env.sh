# builds demo.x in a scratch directory; run N "ENV..." ARGS...: exit status of the program
export HOME=${HOME:-/root} OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 EXT_MPI_DEBUG=0
export OMPI_MCA_pml=ob1 OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_plm=isolated OMPI_CC=gcc
W=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$W"' EXIT
mpicc -O1 -Wno-all -o "$W/demo.x" "$D"/demo*.c -Iinclude lib/libext_mpi_collectives.a -lm -lrt $(grep -oh "__wrap_[a-z_]*" "$D"/demo*.c | sort -u | sed "s/__wrap_/-Wl,--wrap=/") 2>"$W/err" || { cat "$W/err"; echo "demo does not build"; exit 99; }
run() { n=$1; e=$2; shift 2; (cd "$W" && env $e timeout 150 mpirun --oversubscribe --bind-to none -n $n ./demo.x "$@" 2>&1 | tail -5; exit ${PIPESTATUS[0]}); }
