# like dbg but: analysis of heads with key variety at body B, bb N when steps>NB
import collections
import sa.engine as E
def sh(x): return E.show(x) if isinstance(x,E.V) else str(x)
def explore(self, st):
    work=[st]; seen={}; n=0
    while work:
        st=work.pop(); n+=1
        if n>int(os.environ.get("NB","120000")):
            print("BUDGET",self.entry,len(seen))
            cc=collections.Counter((k[0][-1][0],k[0][-1][1],len(k[0])) for k in seen)
            for a,b in cc.most_common(14): print(b,a)
            w=cc.most_common(30)[int(os.environ.get("NW","0"))][0]
            ks=[k for k in seen if (k[0][-1][0],k[0][-1][1],len(k[0]))==w]
            print(w)
            for i in range(7): print(i,len(set(k[i] for k in ks)))
            cf=collections.Counter(k[0] for k in ks)
            for f,nn in cf.most_common(6): print(nn,str(f)[:1500])
            for i,nm in ((1,'mem'),(2,'eqf'),(3,'nef')):
                d={}
                for k in ks:
                    for q,v in k[i]: d.setdefault(q,collections.Counter())[v]+=1
                for q,c2 in d.items():
                    if len(c2)>1 or sum(c2.values())<len(ks): print(nm,sh(q)[-250:]); [print("      ",m,sh(v)[-300:]) for v,m in c2.items()]
            d={}
            for k in ks:
                for q,v in k[4]: d.setdefault(q,collections.Counter())[v]+=1
            for q,c2 in d.items():
                if len(c2)>1 or sum(c2.values())<len(ks): print('obs',q); [print("      ",m,sh(v)[-500:]) for v,m in c2.items()]
            sys.exit()
        for s in self.step(st):
            fr=s.top
            if fr.items is None and fr.body.join[fr.bb]:
                s.gc(); k=s.key()
                if k in seen: continue
                seen[k]=1
            work.append(s)
    return self
E.Engine.explore=explore
