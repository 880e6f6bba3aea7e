#!/bin/bash
# sum.sh mode seed
python3 - <<P
import json
from collections import Counter
d=json.load(open('/tmp/x-$1-$2.json'))
v=d.get('violations') or []
print({k:(x if not isinstance(x,list) else len(x)) for k,x in d.items() if k!='violations'})
print(Counter(x.get('key') for x in v)); 
seen=set()
for x in v:
    if x['key'] in seen: continue
    seen.add(x['key']); print(x['key'],x['caseseed'],x['msg'][:300].replace(chr(10),' '))
P
