#!/bin/bash
# Builds everything once; the checks rebuild what they need by themselves.
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
mkdir -p "$CARGO_TARGET_DIR" "$VERIF/evidence"
for c in harness progs; do
  [ -d "$VERIF/$c" ] || continue
  build "$c" || exit 1
done
