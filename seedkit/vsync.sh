#!/bin/bash
# copies the extension kit into the folders of the planted bugs that use it
V="$(cd "$(dirname "$0")/.." && pwd)"
for d in "$V"/seeded/*/; do [ -f "$d/kit/vs.mjs" ] && cp "$V/seedkit/vs.mjs" "$V/sim/vscode/world.mjs" "$d/kit/"; done
