import json,sys
d=json.load(open('/verif/target/vx/extract.json'))
from collections import Counter
print(Counter(f['status'] for f in d['functions']))
for f in d['functions']:
    if f['status'] not in ('verified',): print(f['status'],f['key'],f['reason'])
