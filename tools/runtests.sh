#!/bin/bash
# run the repository's stable tests; prints the stable ones that do not pass
out=$(mktemp /tmp/t.XXXXXX.json)
bash /opt/vp/test.sh $out >/dev/null 2>&1
python3 - $out <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1]))
print({k:(len(v) if hasattr(v,'__len__') else v) for k,v in b.items()})
def passed(r):
    if 'passed' in r: return set(r['passed'])
    return {k for k,v in r.items() if v in ('pass','passed',True)}
key=[k for k in b if 'stable' in k or 'pass' in k]
st=set(b[key[0]]); print('missing:',sorted(st-passed(r)))
P
rm -f $out
