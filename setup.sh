#!/bin/bash
# Builds the engine from the committed files (checks build it themselves when it is missing).
set -eu
cd "$(dirname "$0")"
. /opt/vp/env.sh
mkdir -p bin evidence
cd engine && go build -o ../bin/engine .
