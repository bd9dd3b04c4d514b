#!/bin/bash
# run the repository's stable tests; print the ones that do not pass
bash /opt/vp/build.sh || exit 1
O=$(mktemp /tmp/stable.XXXX.json)
bash /opt/vp/test.sh "$O" >/dev/null 2>&1
python3 - "$O" <<'PY'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']
r=json.load(open(sys.argv[1]))
p=set(r.get('passed',r.get('pass',[])))
miss=[t for t in b if t not in p]
print('stable passing:',len(b)-len(miss),'of',len(b)); print('\n'.join(miss))
sys.exit(1 if miss else 0)
PY
R=$?; rm -f "$O"; exit $R
