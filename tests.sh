#!/bin/bash
# tests.sh: run the stable suite on /repo and compare with the baseline (developer helper)
out=$(mktemp); bash /opt/vp/test.sh $out > /tmp/tests.log 2>&1
python3 - $out <<'P'
import json,sys
r=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
def ids(x):
    for k in ('passed','pass','stable'):
        if k in x: return set(x[k]) if not isinstance(x[k],int) else None
    return None
p=ids(r); base=ids(b)
print({k:(len(v) if hasattr(v,'__len__') else v) for k,v in r.items()})
if base is not None and p is not None:
    miss=sorted(base-p); print("baseline not passing:",len(miss)); print("\n".join(miss[:20]))
P
rm -f $out
