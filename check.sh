#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" || exit 2
. tools/env.sh
mkdir -p bin evidence
(cd engine && go build -o ../bin/engine .) || exit 2
exec bin/engine -tier "${2:-${VERIF_TIER:-quick}}" "$1"
