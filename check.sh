#!/bin/bash
# check.sh PROPERTY [TIER] [further arguments of run.py]
cd "$(dirname "$0")" || exit 2
. ./env.sh
prop=$1; shift
if [ $# -gt 0 ]; then tier=$1; shift; else tier=${VERIF_TIER:-quick}; fi
# address space layout is a source of nondeterminism too; switch it off where that is allowed
noaslr=""; setarch "$(uname -m)" -R true 2>/dev/null && noaslr="setarch $(uname -m) -R"
exec $noaslr /opt/venv/bin/python -B harness/run.py --property "$prop" --tier "$tier" "$@"
