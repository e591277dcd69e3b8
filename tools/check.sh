#!/bin/bash
# bash tools/check.sh <ID> [quick|thorough]   decide one property for /repo's working tree
# bash tools/check.sh replay <file>           run one saved case
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.verif.lock"
flock 9
if [ "$1" = replay ]; then
  id=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$2") || exit 2
  args=(replay "$(realpath "$2")")
else
  id=$1
  args=(check "$1")
  [ -n "$2" ] && export VERIF_TIER=$2
fi
case $id in
  C12|C13|C14|C15|C16|C17|C24) crate=progs ;;
  *) crate=harness ;;
esac
build "$crate" || exit 3
"$CARGO_TARGET_DIR/debug/$crate" "${args[@]}"
