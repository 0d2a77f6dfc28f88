import sys, subprocess, importlib, traceback, os, json, time, signal
sys.path.insert(0,'/verif')
i=sys.argv[1]
W='/tmp/par/w'+i
os.makedirs(W,exist_ok=True)
if not os.path.exists(W+'/repo'): subprocess.check_call(['cp','-a','/repo',W+'/repo'])
subprocess.check_call(['rm','-rf',W+'/build']); subprocess.check_call(['cp','-a','/verif/.build',W+'/build'])
subprocess.check_call(['mount','--bind',W+'/repo','/repo']); subprocess.check_call(['mount','--bind',W+'/build','/verif/.build'])
subprocess.run('cd /repo && git fetch -q origin 2>/dev/null; git checkout -q -- .',shell=True)
from sa.common import Ctx, Missing, PLATFORMS
from sa.engine import Unsupported
from sa import check
ANA=[]
for p,l in check.RULES.items():
    for a in l:
        if a not in ANA: ANA.append(a)
if 'PLATS' not in os.environ: ANA=[a for a in ANA if a[0]!='rules_plat']
for a in [("rules_ops","analyse_ops"),("rules_reg","analyse"),("rules_types","analyse_safety"),("rules_types","analyse_auto")]:
    if a not in ANA: ANA.append(a)
class TO(Exception): pass
def h(*a): raise TO('timeout')
signal.signal(signal.SIGALRM,h)
out=os.fdopen(os.dup(1),'w'); os.dup2(2,1)
for l in sys.stdin:
    j=json.loads(l)
    r={'name':j['name'],'fails':[], 'errs':[], 'time':{}}
    subprocess.run('cd /repo && git checkout -q -- .',shell=True)
    ok=True
    if 'patch' in j:
        x=subprocess.run(['git','-C','/repo','apply',j['patch']],capture_output=True,text=True)
        if x.returncode: ok=False; r['errs']=['PATCH '+x.stderr[-300:]]
    else:
        for f,old,new,first in j['edits']:
            s=open('/repo/'+f).read()
            if old not in s: ok=False; r['errs']=['NOT FOUND in '+f+': '+old[:60]]; break
            open('/repo/'+f,'w').write(s.replace(old,new,1) if first else s.replace(old,new))
    if ok:
        t=time.time()
        x=subprocess.run('rm -rf '+W+'/rmeta; MIRDUMP_RMETA='+W+'/rmeta bash /verif/tools/dump.sh '+W+'/mir.json',shell=True,capture_output=True,text=True)
        r['time']['dump']=round(time.time()-t,1)
        if x.returncode: r['errs']=['BUILD '+x.stderr[-1500:]]
        elif j.get('dumponly'): r['mir']=W+'/mir.json'
        else:
          fails=set()
          for plat in os.environ.get('PLATS','linux').split(','):
           mirf=W+'/mir.json'
           if plat!='linux':
            mirf=W+'/mir-'+plat+'.json'
            x=subprocess.run(['bash','/verif/tools/dump.sh',mirf,PLATFORMS[plat].target],capture_output=True,text=True)
            if x.returncode: r['errs'].append('BUILD '+plat+x.stderr[-1500:]); continue
           for m,fn in ANA:
             if (j.get('ana') or os.environ.get('ANA')) and fn not in (j.get('ana') or os.environ['ANA']) and m not in (j.get('ana') or os.environ['ANA']): continue
             t=time.time()
             c=Ctx(mirf,'/verif/.build/models.json',PLATFORMS[plat]); c.tier='quick'; c.mir=W+'/mir.json'; c.rmeta=W+'/rmeta'
             try:
                 signal.alarm(600); getattr(importlib.import_module('sa.'+m),fn)(c)
             except (Missing,Unsupported,TO) as e: r['errs'].append('%s: %r'%(fn,e))
             except Exception as e: r['errs'].append(fn+': '+traceback.format_exc()[-600:])
             signal.alarm(0)
             for f in c.fails: fails.add(str(f))
             if os.environ.get('FIRST') and fails: break
             r['time'][fn]=round(time.time()-t,1)
          r['fails']=sorted(fails)
    subprocess.run('cd /repo && git checkout -q -- .',shell=True)
    print(json.dumps(r),file=out,flush=True)
