#!/bin/bash
# Run the repository's tests and report stable tests that no longer pass.
O=$(mktemp); bash /opt/vp/test.sh $O >/dev/null 2>&1
python3 - $O <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open(sys.argv[1]))
p=set(o['passed']); bad=[t for t in b if t not in p]
print('stable',len(b),'broken',bad)
sys.exit(1 if bad else 0)
P
r=$?; rm -f $O; exit $r
