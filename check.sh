#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the verifier if needed and decides the property for /repo's working tree
cd "$(dirname "$0")" || exit 2
V=$(pwd)
./build.sh >/tmp/verif-build.$$ 2>&1 || { cat /tmp/verif-build.$$; exit 2; }
rm -f /tmp/verif-build.$$
exec "$V/bin/engine" -prop "$1" -tier "${2:-quick}" -verif "$V" -repo /repo
