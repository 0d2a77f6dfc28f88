import sys; sys.path.insert(0,'/verif')
from sa.common import *
import importlib,pprint,traceback,time
P={'fb':'/tmp/x-x86_64-unknown-freebsd.json','win':'/tmp/x-x86_64-pc-windows-msvc.json','mac':'/tmp/x-x86_64-apple-darwin.json'}
for p in sys.argv[1].split(','):
  for mf in sys.argv[2:]:
    m,f=mf.split('.')
    t=time.time()
    c=Ctx('/verif/.build/mir%s.json'%('-'+PLATFORMS[p].target if PLATFORMS[p].target else ''),'/verif/.build/models.json',PLATFORMS[p]); c.tier='quick'
    try: getattr(importlib.import_module('sa.rules_'+m),f)(c)
    except Exception as e: print(p,mf,repr(e)[:300]); 
    print(p,mf,'%.1f s'%(time.time()-t),sum(len(x) for x in c.obl.values()),'obl')
    for k,v in c.fails.items(): print('   ',k); print('      ',v['msg'][:300])
