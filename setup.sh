#!/bin/bash
# Builds the engine and warms the build cache used for native replays.
cd "$(dirname "$0")" || exit 2
. tools/env.sh
mkdir -p bin evidence
(cd engine && go build -o ../bin/engine .) || exit 2
bin/engine -n -budget 60s M07 || true
