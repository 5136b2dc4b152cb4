#!/bin/bash
# check.sh PROPERTY: decide one property by simulation. VERIF_SEED and VERIF_TIER come from the environment.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
bash "$here/build.sh" || exit 2
export BMSIM_ROOT="$here"
exec "$here/sim/target/release/bmsim" check "$1"
