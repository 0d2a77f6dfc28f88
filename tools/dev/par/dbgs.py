# dbg.py FILE NAME module fn -> prints the failures in full
import sys,subprocess,os
sys.path.insert(0,'/tmp/par')
if os.environ.get('IN')!='1':
    os.environ['IN']='1'; os.execvp('unshare',['unshare','-Urm','python3']+sys.argv)
sys.path.insert(0,'/verif')
import importlib
W='/tmp/par/wd'; os.makedirs(W,exist_ok=True)
if not os.path.exists(W+'/repo'): subprocess.check_call(['cp','-a','/repo',W+'/repo'])
subprocess.check_call(['rm','-rf',W+'/build']); subprocess.check_call(['cp','-a','/verif/.build',W+'/build'])
subprocess.check_call(['mount','--bind',W+'/repo','/repo']); subprocess.check_call(['mount','--bind',W+'/build','/verif/.build'])
subprocess.run('cd /repo && git checkout -q -- .',shell=True)
import sets
f,name,mod,fn=sys.argv[1:5]
a=sys.argv; sys.argv=['x']
J=[j for j in __import__('par').jobs(sets.load(f)) if j['name']==name][0]
sys.argv=a
for p,old,new,first in J['edits']:
    s=open('/repo/'+p).read(); assert old in s
    open('/repo/'+p,'w').write(s.replace(old,new))
x=subprocess.run('rm -rf '+W+'/rmeta; MIRDUMP_RMETA='+W+'/rmeta bash /verif/tools/dump.sh '+W+'/mir.json',shell=True,capture_output=True,text=True)
if x.returncode: print(x.stderr[-1500:]); sys.exit()
exec(open("/tmp/par/st2.py").read())
from sa.common import Ctx
c=Ctx(W+'/mir.json','/verif/.build/models.json'); c.tier='quick'; c.mir=W+'/mir.json'; c.rmeta=W+'/rmeta'
getattr(importlib.import_module('sa.'+mod),fn)(c)
want=sys.argv[5:]
for k,v in c.fails.items():
    if want and not any(w in str(k) for w in want): continue
    print(k)
    import pprint; pprint.pprint(v,width=180)
