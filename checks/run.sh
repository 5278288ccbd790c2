#!/bin/bash
# run.sh Cxx [args]: builds and runs the check of one property.
. "$(dirname "$0")/common.sh"
id="$1"; shift
bin=$(echo "$id" | tr 'A-Z' 'a-z')
if [ -f "$VERIF_DIR/checks/$bin.js" ]; then
  node "$VERIF_DIR/checks/$bin.js" "$@"
elif [ -f "$VERIF_DIR/checks/$bin.py" ]; then
  PYTHONDONTWRITEBYTECODE=1 python3 "$VERIF_DIR/checks/$bin.py" "$@"
else
  build "$bin"
  "$TARGET/debug/$bin" "$@"
fi
code=$?
case $code in 0|1) exit $code;; *) echo "ERROR: $id ended with $code; no verdict" >&2; exit 2;; esac
