# apply one mutant from a file and dump to /tmp/mx.json
import sys,re
src=open(sys.argv[1]).read().split('\nrun(M')[0].replace("exec(open('/tmp/mut.py').read())","")
exec(src)
import subprocess
for name,f,old,new in M:
    if name==sys.argv[2]:
        p='/repo/'+f; s=open(p).read()
        open(p,'w').write(s.replace(old,new))
        r=subprocess.run(['bash','/verif/tools/dump.sh','/tmp/mx.json'],capture_output=True,text=True)
        open(p,'w').write(s); print(r.returncode)
