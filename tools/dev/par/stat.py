# stat.py FILE NAME module fn : where the states are (env SLOT=n)
import sys,os
import sa.engine as E
from collections import Counter
E_=E.Engine
orig=E_.explore
def explore(self, st):
    work=[st]; seen=set(); n=0; cnt=Counter(); keys={}
    while work:
        st=work.pop(); n+=1
        if n>int(os.environ.get("NB","120000")):
            print("BUDGET", self.entry)
            for k,v in cnt.most_common(25): print(v,k)
            b=cnt.most_common(1)[0][0]
            import random
            ks=keys[b]; random.seed(1)
            x,y=random.sample(ks,2)
            for nm in ("mem","eqf","nef","obs"):
                a,c=getattr(x,nm),getattr(y,nm)
                for q in set(a)|set(c):
                    if a.get(q)!=c.get(q): print(" ",nm,str(q)[:150],"|",str(a.get(q))[:400],"|",str(c.get(q))[:400])
            print([f.key()[:4] for f in x.frames]); print([f.key()[:4] for f in y.frames])
            # per-key variety
            var={}
            for s in ks:
                for nm in ("mem","eqf","nef","obs"):
                    for q,v in getattr(s,nm).items(): var.setdefault((nm,q),set()).add(v)
            for (nm,q),v in sorted(var.items(),key=lambda x:-len(x[1]))[:12]: print("VAR",len(v),nm,str(q)[:160])
            ab=Counter()
            for s in ks:
                for nm in ("mem","eqf","nef","obs"):
                    for q in var:
                        if q[0]==nm and q[1] not in getattr(s,nm): ab[q]+=1
            print(len(ks)); 
            for q,v in ab.most_common(25): print("ABSENT",v,q[0],str(q[1])[:160])
            sys.exit()
        nxt=[st] if False else self.step(st)
        for s in nxt:
            fr=s.top if s.frames else None
            if fr is None: continue
            if fr.items is None and fr.body.join[fr.bb]:
                s.gc(); k=s.key()
                if k in seen: continue
                seen.add(k); cnt[(fr.body.key,fr.bb)]+=1; keys.setdefault((fr.body.key,fr.bb),[]).append(s)
            work.append(s)
    self.stats["states"]+=len(seen); self.stats["steps"]+=n
    return self
E_.explore=explore
