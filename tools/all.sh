#!/bin/bash
# runs every check on a root (default /repo) without touching the evidence: tools/all.sh [root] [ids...]
root=${1:-/repo}; shift
ids="$@"; [ -z "$ids" ] && ids=$(python3 -c "import json;print(*[c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']])")
for i in $ids; do s=$(date +%s); o=$(python3 /verif/run.py $i --root $root --no-evidence 2>&1); r=$?; echo "$i rc=$r $(( $(date +%s)-s ))s $(echo "$o" | tail -1 | cut -c1-200)"; done
