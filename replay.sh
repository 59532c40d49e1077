#!/bin/bash
# replay.sh FILE: execute one replay file exactly once against /repo's current tree.
# Exit 1 and a line beginning RESULT violated when the violation is reproduced.
cd "$(dirname "$0")" || exit 2
f=$(realpath "${1:?usage: replay.sh FILE}")
case "$(grep -m1 -o '^mode C[0-9]*' "$f")" in
"mode C0"[1-6]) b=$(python3 sim/simbuild.py libsim) ;;
*) b=$(python3 sim/simbuild.py calcsim) ;;
esac
[ -x "$b" ] || exit 2
export CALCSIM_KNOWN="$(sed -n 's/^known: property=[^ ]* match=\([^ ]*\) .*/\1/p' known-findings.txt | tr '\n' ' ')"
"$b" exec "$f" | tee /dev/stderr | grep -q '^RESULT violated' && exit 1
exit 0
