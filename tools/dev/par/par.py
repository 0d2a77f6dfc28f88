import sys, subprocess, json, threading, queue
def run(jobs,n=7,show=True):
    q=queue.Queue()
    for j in jobs: q.put(j)
    res={}
    lk=threading.Lock()
    def w(i):
        p=None
        while True:
            try: j=q.get_nowait()
            except queue.Empty: break
            if p is None: p=subprocess.Popen(['unshare','-Urm','python3','/tmp/par/worker.py',str(i)],stdin=subprocess.PIPE,stdout=subprocess.PIPE,text=True,stderr=open('/tmp/par/err%d'%i,'w'))
            p.stdin.write(json.dumps(j)+'\n'); p.stdin.flush()
            l=p.stdout.readline()
            if not l: r={'name':j['name'],'fails':[],'errs':['worker died'],'time':{}}; p=None
            else: r=json.loads(l)
            with lk:
                res[r['name']]=r
                if show: print('==',r['name'],r['fails'] or 'QUIET',*[e for e in r['errs']],flush=True)
        if p: p.stdin.close(); p.wait()
    ts=[threading.Thread(target=w,args=(i,)) for i in range(n)]
    [t.start() for t in ts]; [t.join() for t in ts]
    return res
def jobs(muts):
    out=[]
    for m in muts:
        if len(m)==2:
            name=m[0]
            if len(sys.argv)>1 and not any(a in name for a in sys.argv[1:]): continue
            out.append({'name':name,'edits':[tuple(e)+(False,) if len(e)==3 else e for e in m[1]]}); continue
        name,f,old,new=m
        if len(sys.argv)>1 and not any(a in name for a in sys.argv[1:]): continue
        out.append({'name':name,'edits':[(f,old,new,name.startswith('1'))]})
    return out
