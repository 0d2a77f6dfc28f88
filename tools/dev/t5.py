import sys; sys.path.insert(0,'/verif')
from sa.common import *
c=Ctx(__import__("os").environ.get("MIR","/verif/.build/mir.json"),"/verif/.build/models.json")
b=c.body(sys.argv[1]); N=int(sys.argv[2])
skip=("write","wclone","borrow","unborrow")
class P:
    n=0
    def on(self,eng,st,ev):
        if ev[0] in skip: return
        self.n+=1
        if self.n<N: print(" "*len(st.frames),ev[0],[show(x)[:200] if isinstance(x,V) else x if isinstance(x,str) else [show(y)[:100] for y in x] if isinstance(x,tuple) else "?" for x in ev[1:]], st.frames[-1].body.path if st.frames and st.frames[-1].body else None)
cap=Capture(); p=P(); e=c.engine([cap,p]); e.run(b,fargs(b)); print(e.stats['states'])
seen=set()
for v,s in cap.vals:
    if v.t=='coro' and v not in seen:
        seen.add(v); print('POLL',show(v)); poll_states(c,'x',v,s.mem,lambda _:[P()])
