import json,sys
m=json.load(open('/verif/.build/mir.json'))
T=m['types']
def main():
    if len(sys.argv)<2:
        for k,b in m['bodies'].items(): print(b['local'],k,b['path'],len(b['blocks']))
        print(m['dup']); return
    for k,b in m['bodies'].items():
        if sys.argv[1]==k or (len(sys.argv)>2 and sys.argv[1] in k):
            print('##',k,{x:b[x] for x in b if x not in('blocks','locals','names')})
            print('names',b['names'])
            for i,l in enumerate(b['locals']): print('  _%d: %s'%(i,json.dumps(l)))
            for i,bl in enumerate(b['blocks']):
                if bl['c']: continue
                print(' bb%d:'%i)
                for s in bl['s']: print('    ',json.dumps(s))
                print('    ->',json.dumps(bl['t']))
main()
