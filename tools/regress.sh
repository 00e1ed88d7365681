#!/bin/bash
# runs every check once; one line per property
cd "$(dirname "$0")/.."
for f in contracts/C*.py; do p=$(basename $f .py); s=$(date +%s); VC_NOEVID=1 timeout 900 python3-vt -m vc.check $p --tier quick > /tmp/all.$p.log 2>&1; echo "$p rc=$? $(( $(date +%s)-s ))s $(tail -1 /tmp/all.$p.log | cut -c1-120)"; done
