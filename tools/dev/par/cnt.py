import sys; sys.path.insert(0,'/verif')
import sa.engine as E, time
o=E.Engine.explore
def ex(self,st):
    t=time.time(); a=self.stats["states"],self.stats["steps"]
    r=o(self,st); 
    if time.time()-t>0.3: print("%-60s states %d steps %d %.1fs"%(self.entry,self.stats["states"]-a[0],self.stats["steps"]-a[1],time.time()-t))
    return r
E.Engine.explore=ex
from sa.common import Ctx
import importlib
c=Ctx('/verif/.build/mir.json','/verif/.build/models.json'); c.tier='quick'
getattr(importlib.import_module('sa.'+sys.argv[1]),sys.argv[2])(c); print(len(c.fails))
