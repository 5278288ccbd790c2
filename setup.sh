#!/bin/bash
# Builds all harness binaries from the committed files and /repo's tree.
. "$(dirname "$0")/checks/common.sh"
bins=()
for f in "$VERIF_DIR"/harness/src/bin/*.rs; do bins+=("$(basename "$f" .rs)"); done
build "${bins[@]}"
echo "setup done: ${bins[*]}"
