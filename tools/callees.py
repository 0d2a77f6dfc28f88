import json
from collections import Counter
m=json.load(open('/verif/.build/mir.json'))
c=Counter()
for k,b in m['bodies'].items():
    if not b['local']: continue
    for bl in b['blocks']:
        if bl['c']: continue
        t=bl['t']
        if t['k']=='call':
            f=t['f']
            if f[0]=='const' and 'fn' in f[1]:
                i=f[1]['fn']; c[(i['path'], i.get('respath') if i.get('respath')!=i['path'] else '', i.get('reskind'))]+=1
            else: c[('INDIRECT',str(f)[:100],'')]+=1
for k,v in sorted(c.items(),key=str): print(v,k)
