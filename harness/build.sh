#!/bin/bash
# build.sh OUTDIR [REPO]: compiles REPO's library sources (current working tree) with the stand-in MPI into OUTDIR/driver
set -e
H=$(cd "$(dirname "$0")" && pwd); O=$1; R=${2:-/repo}
mkdir -p "$O/obj"
INC="-I$H/fmpi -I$O/gen -I$R -I$R/include/core -I$R/include/mpi"
DEF="-DDEBUG -DM_MAP"
mkdir -p "$O/gen"
( cd "$R" && bash ./minclude.sh latency_bandwidth/ext_mpi_bm.txt ) > "$O/gen/latency_bandwidth.tmp"
pids=()
for f in "$R"/src/core/*.c "$R"/src/mpi/*.c "$R"/src/noopt/*.c; do
  b=$(basename $f .c); x=""
  [ $b = ext_mpi_native_exec ] && x="-Dext_mpi_exec_native=real_ext_mpi_exec_native -Dext_mpi_exec_blocking=real_ext_mpi_exec_blocking"
  opt=-O1; case $f in */noopt/*) opt=-O0;; esac
  echo "gcc -g $opt -w $DEF $INC $x -c $f -o $O/obj/$b.o"
done | xargs -P 8 -I{} sh -c "{}"
gcc -g -O1 -w -I"$H/fmpi" -c "$H/fmpi/fmpi.c" -o "$O/obj/vfmpi.o"
gcc -g -O1 -w -I"$H/fmpi" -c "$H/driver.c" -o "$O/obj/vdriver.o"
gcc -no-pie -g -Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=shmget,--wrap=shmat,--wrap=shmdt,--wrap=shmctl "$O"/obj/*.o -o "$O/driver" -lm -lpthread
nm "$O/driver" > "$O/driver.nm"
