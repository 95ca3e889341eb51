#!/bin/bash
# copies the kit into the folders of the planted bugs that use it
set -eu
V="$(cd "$(dirname "$0")/.." && pwd)"
for d in "$V"/seeded/*/; do
    grep -q 'kit/lib.sh' "$d/demo.sh" || continue
    mkdir -p "$d/kit/shims"
    cp "$V/seedkit/lib.sh" "$d/kit/"; [ ! -f "$V/seedkit/lspclient.py" ] || cp "$V/seedkit/lspclient.py" "$d/kit/"
    [ ! -f "$d/main.rs" ] || cp "$V/seedkit/zhost.rs" "$d/kit/"; cp "$V/sim/mkws.py" "$d/kit/mkws.py"
    cp -r "$V"/sim/shims/. "$d/kit/shims/"
done
