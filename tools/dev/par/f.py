import sys; sys.path.insert(0,'/verif')
from sa.common import Ctx
import importlib,pprint
c=Ctx('/verif/.build/mir.json','/verif/.build/models.json'); c.tier='quick'
getattr(importlib.import_module('sa.'+sys.argv[1]),sys.argv[2])(c)
for k,v in c.fails.items(): print(k); pprint.pprint(v,width=200)
