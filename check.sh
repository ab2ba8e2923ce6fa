#!/bin/bash
# check.sh Cxx quick|thorough: decides one property of the code in /repo.
D=$(dirname "$(readlink -f "$0")")
bash "$D/build.sh" || { echo "cannot build" >&2; exit 3; }
exec 9>&-
MC_VERIF=$D exec "$D/mc/target/debug/mc" check "$1" --tier "${2:-quick}"
