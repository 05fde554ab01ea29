#!/bin/bash
# run every claimed check (quick) in parallel; print the failing ones
cd "$(dirname "$0")/.." || exit 1
ids=$(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")
[ -n "$*" ] && ids="$*"
echo $ids | tr ' ' '\n' | xargs -P 8 -I{} bash -c 'bash check.sh {} ${TIER:-quick} > /tmp/out.{} 2>&1; echo "{} rc=$? $(head -1 /tmp/out.{})"' | sort
