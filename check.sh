#!/bin/bash
# check.sh PROPERTY TIER: decide one property on /repo's current working tree.
# Exit 0: held within the bounds; 1: violated (VIOLATION line); 2: error of the check.
here=$(cd "$(dirname "$0")" && pwd)
source /opt/vp/env.sh
"$here/setup.sh" || exit 2
exec "$here/bin/ve" -verif "$here" -repo /repo -prop "$1" -tier "${2:-quick}" "${@:3}"
