#!/bin/bash
# usage: check.sh PROPERTY TIER [extra arguments]
set -u
D="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
P=$1; TIER=$2; shift; shift
exec node "$D/main.mjs" check "$P" --tier "$TIER" "$@"
