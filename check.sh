#!/bin/bash
# check.sh <property id>: rebuilds the harness against /repo's current working tree and decides one property.
# Exit 0: held on everything explored. 1: VIOLATION. Anything else: the check could not run.
cd "$(dirname "$0")" || exit 3
. ./env.sh
id=$1
# Servers and clients run in the process of the check. When that process is ended by a fault (illegal instruction, abort,
# bus error, floating point exception, segmentation fault), the code under test did what no input may make it do.
run() {
  "$VERIF_DIR/target/$1/debug/vh" "$id"
  local rc=$?
  case $rc in
    132|134|135|136|139)
      mkdir -p "$VERIF_DIR/out"
      local f="$VERIF_DIR/out/$id-crash.json"
      printf '{"property": "%s", "seed": "%s", "tier": "%s", "found": "the process of the servers and clients was ended by signal %d"}\n' "$id" "${VERIF_SEED:-1}" "${VERIF_TIER:-quick}" $((rc - 128)) > "$f"
      echo "VIOLATION property=$id replay=$f"
      exit 1 ;;
  esac
  exit $rc
}
case $id in
  # Where the private types are not what the hooks expect, what can be seen from outside is judged.
  C14|C23) if build_hook; then run hook; else build_main || exit 3; run main; fi ;;
  C27) build_main && build_san tsan && build_san asan || exit 3
    build_miri || export VH_NO_MIRI=1
    run main ;;
  C26) build_main && build_bins || exit 3; run main ;;
  *) build_main || exit 3; run main ;;
esac
