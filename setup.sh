#!/bin/bash
# builds the symbolic engine when it is missing or older than its source
here=$(cd "$(dirname "$0")" && pwd)
source /opt/vp/env.sh
mkdir -p "$here/bin" "$here/evidence" "$here/replays"
if [ ! -x "$here/bin/ve" ] || [ -n "$(find "$here/engine" -newer "$here/bin/ve" -name '*.go' | head -1)" ]; then
  (cd "$here/engine" && go build -o "$here/bin/ve.$$" . && mv "$here/bin/ve.$$" "$here/bin/ve") || exit 2
fi
