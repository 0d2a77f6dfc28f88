import sys, subprocess, importlib, traceback; sys.path.insert(0,'/verif')
def run(muts, analyses, repo='/repo'):
    from sa.common import Ctx, Missing
    from sa.engine import Unsupported
    for name, f, old, new in muts:
        if len(sys.argv)>1 and not any(a in name for a in sys.argv[1:]): continue
        p=repo+'/'+f; s=open(p).read()
        if s.count(old)<1: print(name,'NOT FOUND'); continue
        try:
            open(p,'w').write(s.replace(old,new) if not name.startswith('1') else s.replace(old,new,1))
            r=subprocess.run(['bash','/verif/tools/dump.sh','/tmp/mut.json'],capture_output=True,text=True)
        finally:
            open(p,'w').write(s)
        if r.returncode: print(name,'BUILD FAILS',r.stderr[-1500:]); continue
        c=Ctx('/tmp/mut.json','/verif/.build/models.json'); c.tier='quick'; c.mir='/tmp/mut.json'
        errs=[]
        for m,fn in analyses:
            try: getattr(importlib.import_module('sa.'+m),fn)(c)
            except (Missing,Unsupported) as e: errs.append('%s: %r'%(fn,e))
            except Exception as e: errs.append(traceback.format_exc())
        print('==',name,sorted(c.fails) or 'QUIET',*errs)
