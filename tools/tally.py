import json, sys
from collections import Counter
d = json.load(open('/verif/out/%s-replay.json' % sys.argv[1]))
c = Counter()
ex = {}
for v in d['violations']:
    rec = v.get('recorded') or {}
    k = (tuple(v.get('clauses', [v['kind']])), rec.get('op'), rec.get('do') or rec.get('call'), v.get('scenario', {}).get('R', 1) > 1,
         tuple(o.get('exc') for o in rec.get('outs', []))[:2])
    c[k] += 1
    ex.setdefault(k, v)
for k, n in c.most_common(15):
    print(n, k)
if len(sys.argv) > 2:
    k = list(c.most_common())[int(sys.argv[2])][0]
    v = ex[k]
    print(json.dumps(v['scenario'])[:3000]); print(json.dumps(v['recorded'])[:3000])
