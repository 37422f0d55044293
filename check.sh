#!/bin/bash
# ./check.sh <property> quick|thorough     decide one property on /repo's current tree
# ./check.sh <property> replay <file>      run a recorded violation again
set -u
here=$(cd "$(dirname "$0")" && pwd)
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
. "$here/env.sh"
work=$(mktemp -d /tmp/verif-check.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
cd "$here/mc" || exit 2
go build -o "$work/mc" ./cmd/mc || { echo "build failed"; exit 2; }
if [ "$tier" = replay ]; then
	"$work/mc" -dir "$here" -work "$work" -prop "$prop" -replay "$3"
else
	"$work/mc" -dir "$here" -work "$work" -prop "$prop" -tier "$tier"
fi
exit $?
