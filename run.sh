#!/bin/bash
# usage: run.sh <property> <binary> [--replay FILE]    builds the harness binary against /repo's tree, then runs it
here=$(cd "$(dirname "$0")" && pwd)
id=$1; bin=$2; shift 2
cd "$here/harness" || exit 2
log=$(mktemp)
if ! cargo build --release --offline --bin "$bin" >"$log" 2>&1; then
  cat "$log" >&2; rm -f "$log"
  echo "build of the harness failed" >&2
  exit 2
fi
rm -f "$log"
cd "$here" || exit 2
"$here/target/release/$bin" "$id" "$@"
code=$?
case $code in
  132|134|136|139) # the code under test took the process down (stack overflow, abort, illegal memory access)
    mkdir -p "$here/replays"
    f="$here/replays/$id-crash.txt"
    printf 'property: %s\nfailure: the process ended with signal %d\nrerun: VERIF_SEED=%s VERIF_TIER=%s bash run.sh %s %s\n' "$id" $((code - 128)) "${VERIF_SEED:-1}" "${VERIF_TIER:-quick}" "$id" "$bin" >"$f"
    echo "VIOLATION property=$id replay=$f"
    exit 1;;
esac
exit $code
