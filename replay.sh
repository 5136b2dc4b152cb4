#!/bin/bash
# replay.sh FILE: replay one execution exactly, call by call. Exit 1 and a VIOLATION line if it violates its property.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
bash "$here/build.sh" || exit 2
export BMSIM_ROOT="$here"
exec "$here/sim/target/release/bmsim" replay "$1"
