#!/bin/bash
# usage: check.sh <property> <quick|thorough>
# exit 0: held on everything explored; 1: violation (with a VIOLATION line); 2: no answer
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"; tier="${2:-quick}"
crate=mc
case "$id" in L*|X*|A*) crate=mcpool;; C*) crate=mccrank;; esac
mkdir -p "$here/target" "$here/evidence" "$here/replays"
bash "$here/build.sh" "$crate" || exit 2
export VERIF_DIR="$here"
"$here/target/$crate/release/$crate" check "$id" "$tier"
rc=$?
if [ $rc -gt 128 ] && [ $rc -ne 137 ] && [ $rc -ne 143 ] && [ $rc -ne 130 ]; then
  # the code under check brought the process down (abort, segmentation fault, stack overflow)
  f="$here/replays/$id.txt"
  echo "property=$id: the process was ended by signal $((rc-128)) while executing the code under check" >"$f"
  echo "VIOLATION property=$id replay=$f"
  exit 1
fi
[ $rc -eq 0 ] || [ $rc -eq 1 ] || rc=2
exit $rc
