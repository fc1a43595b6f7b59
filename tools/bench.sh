#!/bin/bash
# bench.sh "ENTRY PARAMS" ... : runs entries by hand, one after another, and prints what matters.
cd "$(dirname "$0")/.."
for a in "$@"; do set -- $a; s=$(date +%s.%N); o=$(mktemp); T=${T:-200} tools/run1.sh $1 "$2" $3 $4 $5 $6 --out $o > $o.txt 2>&1; rc=$?
echo "== $a: rc $rc $(printf %.1f $(echo "$(date +%s.%N)-$s"|bc)) s"; python3 - $o <<'E2'
import json,sys
try:
    d=json.load(open(sys.argv[1])); print('  ',{k:(v if len(str(v))<1300 else str(v)[:1300]) for k,v in d.items() if k in('paths','violations','errors','covers','queries','pending','instructions','unknown') and v!=[]})
except Exception as e: print('  ',e, open(sys.argv[1]+'.txt').read()[-600:])
E2
rm -f $o $o.txt; done
