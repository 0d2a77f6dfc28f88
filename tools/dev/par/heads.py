import sys; sys.path.insert(0,'/verif')
import sa.engine as E, time
from sa.common import Ctx
import importlib
seenh={}
o=E.State.key
def key(self):
    k=o(self)
    f=self.top
    if f.body is not None and 'react' in f.body.key and len(self.frames)==1:
        seenh.setdefault(f.bb,{})[k]=self
    return k
E.State.key=key
c=Ctx('/verif/.build/mir.json','/verif/.build/models.json'); c.tier='quick'
getattr(importlib.import_module('sa.rules_io'),'analyse_react')(c)
for bb in sorted(seenh): print(bb,len(seenh[bb]))
bb=int(sys.argv[1]); S=list(seenh[bb].values())
var={}
for s in S:
    for nm in ("mem","eqf","nef","obs"):
        for q in getattr(s,nm): var.setdefault((nm,q),None)
def sh(x): 
    return E.show(x) if isinstance(x,E.V) else str(x)
for (nm,q) in var:
    vs=[getattr(s,nm).get(q) for s in S]
    if len(set(vs))>1: 
        print(nm,sh(q)[:200]); 
        for v in set(vs): print("     ",vs.count(v),sh(v)[:300])
ks=list(seenh[bb])
for i in range(7): print(i,len(set(k[i] for k in ks)))
import collections
print([len(k[0]) for k in ks[:3]], ks[0][0])
fs=collections.Counter(len(k[1]) for k in ks); print(fs)
# state variety per root in mem keys at time of keying
print("=======")
c=collections.Counter(); 
for i,nm in ((1,'mem'),(2,'eqf'),(3,'nef')):
    d={}
    for k in ks:
        for q,v in k[i]: d.setdefault(q,collections.Counter())[v]+=1
    for q,cc in d.items():
        if len(cc)>1 or sum(cc.values())<len(ks): print(nm,sh(q)[:250]); [print("      ",n,sh(v)[:200]) for v,n in cc.items()]
d={}
for k in ks:
    for q,v in k[4]: d.setdefault(q,collections.Counter())[v]+=1
for q,cc in d.items():
    if len(cc)>1 or sum(cc.values())<len(ks): print('obs',q); [print("      ",n,sh(v)[:900]) for v,n in cc.items()]
