#!/bin/bash
# check.sh <property> [quick|thorough]
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec python3 -m sa.main "$1" --tier "${2:-${VERIF_TIER:-quick}}"
