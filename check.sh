#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough] [extra arguments]   builds the simulation from /repo's working tree and runs it
set -u
V="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
P=$1; TIER=${2:-${VERIF_TIER:-quick}}; shift; shift
case $P in F*) K=cli ;; L*) K=lsp ;; W*) K=codec ;; Z*) K=zed ;; V*) exec "$V/sim/vscode/check.sh" "$P" "$TIER" "$@" ;; *) echo "unknown property $P" >&2; exit 2 ;; esac
BIN="$("$V/sim/build.sh" $K)" || { echo "build of the simulation failed" >&2; exit 2; }
exec "$BIN" check "$P" --tier "$TIER" --verif "$V" "$@"
