#!/bin/bash
# build + stable tests of /repo; prints missing ones
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { echo BUILD FAIL; tail -20 /tmp/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/tmp/test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
def names(x,k):
    v=x.get(k)
    return v
st=b.get('stable') or b.get('passed') or b.get('tests')
ok=t.get('passed') or []
ok=set(ok if isinstance(ok,list) else [k for k,v in ok.items() if v])
st=set(st if isinstance(st,list) else st.keys())
print(len(st), "stable;", "missing:", sorted(st-ok))
P
