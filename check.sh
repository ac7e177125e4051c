#!/bin/bash
# check.sh PROPERTY quick|thorough : decides one property on /repo's working tree.
set -u
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
tier=${2:-${VERIF_TIER:-quick}}
mkdir -p bin evidence
if [ ! -x bin/engine ] || [ -n "$(find engine -newer bin/engine -name '*.go' -print -quit)" ]; then
  (cd engine && go build -o ../bin/engine.new . && mv ../bin/engine.new ../bin/engine) || exit 2
fi
exec bin/engine check -property "$1" -tier "$tier" -dir "$PWD/harness" -out "$PWD/evidence"
