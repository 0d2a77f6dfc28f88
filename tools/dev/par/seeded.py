import sys; sys.path.insert(0,'/tmp/par')
import par,os
ids=sys.argv[1:] or sorted(os.listdir('/verif/seeded'))
par.run([{'name':i,'patch':f'/verif/seeded/{i}/patch.diff'} for i in ids],n=7)
