#!/bin/bash
# run.sh ID [quick|thorough] [harness args...]: build the check's harness from /repo's working tree and run it.
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=readonly GONOSUMDB=* GOFLAGS=-mod=readonly
export HOME="${HOME:-/root}" GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
export GOCACHE="${GOCACHE:-/root/.cache/go-build}"
export TZ=UTC
ID="$1"; shift
if [ "${1:-}" = quick ] || [ "${1:-}" = thorough ]; then export VERIF_TIER="$1"; shift; fi
export VERIF_TIER="${VERIF_TIER:-quick}" VERIF_SEED="${VERIF_SEED:-1}"
LOW=$(echo "$ID" | tr 'A-Z' 'a-z')
OUT=$(mktemp -d /tmp/verif-$LOW.XXXXXX) || exit 2
trap 'rm -rf "$OUT"' EXIT
export TMPDIR="$OUT" VK_OUT="$OUT"
rm -f "evidence/$ID.json" "evidence/replay/$ID.json"
if [ -f "checks/$LOW/BUILD" ]; then
  . "checks/$LOW/BUILD"      # sets up $OUT/check
else
  go build -o "$OUT/check" "./checks/$LOW" || { echo "build failed" >&2; exit 2; }
fi
export GORACE="halt_on_error=0 exitcode=0 log_path=$OUT/race0" # only the workers of lib/mc judge races
"$OUT/check" "$@"
exit $?
