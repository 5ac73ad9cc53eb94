#!/bin/bash
# rechk.sh ID PROP : does the check catch the seeded bug
mkdir -p /tmp/plant; d=/tmp/plant/r-$1; rm -rf "$d"; cp -a /repo "$d"; git -C "$d" apply /verif/seeded/$1/patch.diff || exit 9
cd /verif; VERIF_REPO=$d ./check.sh $2 | grep -v '^    ' | head -${3:-8}; echo "$1 $2 rc=${PIPESTATUS[0]}"; rm -rf "$d"
