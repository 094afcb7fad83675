#!/bin/bash
# Run the repository's tests and compare with the baseline.
out=$(mktemp); bash /opt/vp/test.sh $out >/dev/null 2>&1
python3 - $out <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
miss=set(b['stable'])-set(o['passed'])
print('tests passed %d, baseline tests not passing: %s'%(len(o['passed']),sorted(miss)))
P
rm -f $out
