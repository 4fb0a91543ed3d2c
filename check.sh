#!/bin/bash
# usage: check.sh PROPERTY [TIER]   (run in /verif)
here=$(cd "$(dirname "$0")" && pwd)
bash "$here/build.sh" || exit 2
exec "$here/sim/target/release/sim" check --prop "$1" --tier "${2:-${VERIF_TIER:-quick}}" --seed "${VERIF_SEED:-1}" --verif "$here"
