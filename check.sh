#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1
# usage: check.sh PROPERTY [--case N]   (tier from VERIF_TIER, seed from VERIF_SEED)
cd "$(dirname "$0")" || exit 2
exec python3 tools/driver.py "$@"
