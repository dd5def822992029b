# sourced by demo.sh: run_deck <config> <deck> <ranks> [args...] ; builds and runs in a scratch directory
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_btl=self,vader
export OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_mpi_yield_when_idle=1 OMPI_MCA_plm_rsh_agent=/bin/true OMPI_MCA_hwloc_base_binding_policy=none
here=$(cd "$(dirname "$0")" && pwd)
run_deck() {
  local cfg=$1 deck=$2 np=$3; shift 3
  local t; t=$(mktemp -d /tmp/vpdemo.XXXXXX) || return 2
  cp "$here"/*.deck "$t"/
  ( cd "$t" && /repo/_build/$cfg/bin/vpic "$deck" > build.log 2>&1 || { tail -5 build.log; exit 2; }
    x=$(ls *.Linux) && timeout 200 mpiexec -n "$np" "./$x" "$@" > run.log 2>&1; rc=$?; grep -a DEMO run.log | head -5
    grep -aq 'DEMO-OK' run.log && [ $rc -eq 0 ] || { tail -3 run.log; exit 1; } )
  local rc=$?
  rm -rf "$t"
  return $rc
}
