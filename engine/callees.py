import json
from collections import Counter
d=json.load(open('/verif/.work/dump.json'))
def find(x):
    while isinstance(x,dict) and 'path' not in x:
        nx=None
        for q in ('fn','const','c','v'):
            if q in x and isinstance(x[q],dict): nx=x[q];break
        if nx is None: return None
        x=nx
    return x if isinstance(x,dict) else None
T=d['types']
# reachable from local
seen=set(k for k,b in d['bodies'].items() if b['local'])
c=Counter(); ex={}
for k in seen:
    for bl in d['bodies'][k]['blocks']:
        if bl and bl['t']['k']=='call':
            f=find(bl['t']['f'])
            if f is None: c['?'+json.dumps(bl['t']['f'])[:80]]+=1; continue
            if f.get('key') in seen: continue
            n=(f.get('rpath') or f['path'])+' | '+str(f.get('rraw'))+' | '+f['ikind']+(' KEY' if f.get('key') in d['bodies'] else '')
            c[n]+=1; ex[n]=f
for n,v in sorted(c.items()): print(v,n)
