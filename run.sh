#!/bin/bash
# run.sh <check id> [-replay N | harness flags]: build the harness from /repo's
# working tree and run one check. Exit 0 held, 1 VIOLATION, 3 inconclusive/error.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
id=$1; shift
race=$(grep -qx "$id" "$here/race_checks.txt" && echo 1)
bin=$(build_harness "$race") || { echo "build of harness against /repo failed" >&2; exit 3; }
if grep -qx "$id" "$here/server_checks.txt"; then
  build_server || { echo "build of the server from /repo failed" >&2; exit 3; }
fi
if [ "$1" = "-replay" ]; then
  exec "$bin" case -check "$id" -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}" -case "$2"
fi
exec "$bin" run -check "$id" -dir "$here" "$@"
