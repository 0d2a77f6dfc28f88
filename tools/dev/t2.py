import sys,time; sys.path.insert(0,'/verif')
from sa.common import *
import importlib
mod=importlib.import_module('sa.'+sys.argv[1])
c=Ctx(__import__("os").environ.get("MIR","/verif/.build/mir.json"),"/verif/.build/models.json")
c.mir=__import__("os").environ.get("MIR","/verif/.build/mir.json")
for f in sys.argv[2:]:
    if f=="-v": continue
    t=time.time()
    getattr(mod,f)(c)
    print(f, time.time()-t, "states", sum(e.stats["states"] for e in c.engines))
for k,v in c.fails.items():
    print(k, v["msg"]); 
    if "-v" in sys.argv:
      for x in v["path"][-14:]: print("      ", str(x)[:220])
for p,o in c.obl.items():
    print(p); [print("   ",n,x) for x,n in o.items()]
for x in getattr(c,'timer_states',[]): print(x)
