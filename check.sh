#!/bin/bash
# check.sh ID [quick|thorough] : decide property ID on /repo's working tree.
set -u
V=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
. "$V/env.sh"
bash "$V/build.sh" || exit 2
export VERIF_ROOT="$V"
exec "$CARGO_TARGET_DIR/release/pbt" check "$1" --tier "${2:-${VERIF_TIER:-quick}}"
