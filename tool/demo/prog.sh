# sourced by demo.sh: run_prog <config> <source> <ranks> [args...] ; compiles against /repo's library and runs in a scratch directory
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_btl=self,vader
export OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_mpi_yield_when_idle=1 OMPI_MCA_plm_rsh_agent=/bin/true OMPI_MCA_hwloc_base_binding_policy=none
here=$(cd "$(dirname "$0")" && pwd)
run_prog() {
  local cfg=$1 src=$2 np=$3; shift 3
  local t; t=$(mktemp -d /tmp/vpdemo.XXXXXX) || return 2
  g++ -std=gnu++11 -O1 -w -fpermissive -I/repo -I/repo/src -DVPIC_USE_PTHREADS -I/usr/lib/x86_64-linux-gnu/openmpi/include "$here/$src" -o "$t/x" \
    /repo/_build/$cfg/libvpic.a -L/usr/lib/x86_64-linux-gnu/openmpi/lib -lmpi_cxx -lmpi -lpthread -ldl > "$t/build.log" 2>&1 || { tail -5 "$t/build.log"; rm -rf "$t"; return 2; }
  ( cd "$t" && timeout 100 mpiexec -n "$np" ./x "$@" > run.log 2>&1; rc=$?; grep -a DEMO run.log | head -5
    grep -aq 'DEMO-OK' run.log && [ $rc -eq 0 ] || { tail -3 run.log; exit 1; } )
  local rc=$?
  rm -rf "$t"
  return $rc
}
