#!/bin/bash
# development: rebuild the engine and run one harness: dev.sh pkg.Func params [opts-json]
source /opt/vp/env.sh
cd /verif/engine && go build -o /verif/bin/ve . || exit 2
exec /verif/bin/ve -fn "$1" -params "$2" -opts "${3:-{\}}"
