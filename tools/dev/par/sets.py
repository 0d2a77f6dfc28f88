import sys; sys.path.insert(0,'/tmp/par')
import par
def load(f):
    s=open(f).read().replace("exec(open('/tmp/mut.py').read())","")
    g={'run':lambda m,a,*k:None}
    exec(s,g); return g['M'] if 'M' in g else None
if __name__=='__main__':
    J=[]
    files=sys.argv[1].split(','); sys.argv=[sys.argv[0]]+sys.argv[2:]
    for f in files:
        M=load(f)
        J+=par.jobs(M)
    par.run(J)
