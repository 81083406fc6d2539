#!/bin/sh
# run every claimed check in parallel; ROOT may be given as $1
cd "$(dirname "$0")/.." || exit 2
for i in $(python3 -c "
from sa import props
print(' '.join(p['id'] for p in props.CLAIMED))"); do echo $i; done | MAREX_ROOT=${1:-/repo} xargs -P8 -I{} sh -c 'python3 -m sa.check {} >/tmp/ra.{} 2>&1; rc=$?; [ $rc = 0 ] || { echo "{} rc=$rc"; grep -v "^{}:" /tmp/ra.{} | cut -c1-260 | head -${LINES_:-3}; }'
