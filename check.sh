#!/bin/bash
# check.sh PROPERTY [TIER]: builds the harness and decides one property against
# the working tree of ${BARON_REPO:-/repo}.
set -u
VERIF_DIR=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR
export BARON_REPO=${BARON_REPO:-/repo}
export VERIF_TIER=${2:-${VERIF_TIER:-quick}}
export VERIF_SEED=${VERIF_SEED:-1}
. "$VERIF_DIR/env.sh"
VERIF_W=$(mktemp -d "${TMPDIR:-/tmp}/verif-baron-XXXXXX") || exit 2
chmod 711 "$VERIF_W"
export VERIF_W
cleanup() {
  case "$VERIF_W" in
  */verif-baron-??????) chmod -R u+w "$VERIF_W" 2>/dev/null; rm -rf -- "$VERIF_W" ;;
  esac
}
trap cleanup EXIT
trap 'exit 2' INT TERM HUP
if ! (cd "$VERIF_DIR/harness" && go build -o "$VERIF_W/harness" .) >"$VERIF_W/build.log" 2>&1; then
  cat "$VERIF_W/build.log" >&2
  exit 2
fi
"$VERIF_W/harness" "$1"
