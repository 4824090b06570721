#!/bin/bash
# check.sh CNN [quick|thorough]   run the check of one property against /repo's working tree
# check.sh replay FILE            run one stored counterexample
# check.sh build                  only build
[ "$1" = replay ] && file=$(realpath "$2")
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR="$here"
. "$here/env.sh"
bin=$(mktemp -d "${TMPDIR:-/tmp}/vhbin.XXXXXX") || exit 2
trap 'rm -rf "$bin"' EXIT
cd "$here/harness" || exit 2
if ! go build -o "$bin/vh" . 2> "$bin/build.log"; then
  cat "$bin/build.log" >&2
  echo "check error (no verdict): the tree in /repo does not build with the harness" >&2
  exit 2
fi
case "$1" in
  build) exit 0 ;;
  replay) "$bin/vh" -replay "$file"; exit $? ;;
esac
id=$1; tier=${2:-${VERIF_TIER:-quick}}
shift; [ $# -gt 0 ] && shift
"$bin/vh" -tier "$tier" "$@" "$id"
