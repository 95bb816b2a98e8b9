#!/bin/bash
# check.sh <property>: runs the check of one property (VERIF_TIER, VERIF_SEED from the environment)
cd "$(dirname "$0")/.." || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_NET_OFFLINE=true
exec python3 tools/check.py "$@"
