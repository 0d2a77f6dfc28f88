"""second set of systematic mutants: conditions made constant, arm guards dropped, guards dropped at once, statements doubled, blocks swapped, variables exchanged"""
import re
g={'__name__':'x'}
exec(open('/tmp/gm.py').read(),g)
code_lines,FILES=g['code_lines'],g['FILES']
M=g['M']=[]
add=g['add']
def block_end(L,i,lim=40):
    d=0
    for j in range(i,min(i+lim,len(L))):
        d+=L[j].count('{')+L[j].count('(')+L[j].count('[')-L[j].count('}')-L[j].count(')')-L[j].count(']')
        if d<0: return None
        if d==0 and L[j].rstrip().endswith((';','}')): return j
    return None
for f in FILES:
    L,skip=code_lines(f)
    for i,l in enumerate(L):
        if skip[i]: continue
        s=l.strip(); ind=len(l)-len(l.lstrip())
        m=re.match(r'(\s*)((?:\} else )?if )(?!let)(.+) \{$',l)
        if m:
            for v in ('true','false'): add(f,L,i,i,[m.group(1)+m.group(2)+v+' {'],'if'+v)
        m=re.match(r'(\s*.+) if (.+) => (.*)$',l)
        if m: add(f,L,i,i,[m.group(1)+' => '+m.group(3)],'noguard')
        m=re.match(r'(\s*)let _\w+ = (.*)$',l)
        if m: add(f,L,i,i,[m.group(1)+'let _ = '+m.group(2)],'drop')
        if re.search(r'= Some\(.*\);$',l): add(f,L,i,i,[re.sub(r'= Some\(.*\);$','= None;',l)],'none')
        if re.search(r'= \w+;$',l) and not s.startswith('let'): pass
        if ind>=8 and not s.startswith(('let ','return','}','fn','pub','.','else','match','break','continue','#','//')):
            e=block_end(L,i)
            if e is not None and (L[i-1].strip().endswith((';','{','}')) or L[i-1].strip().startswith('//') or not L[i-1].strip()):
                if not L[i].strip().endswith(',') : add(f,L,i,e,L[i:e+1]+L[i:e+1],'dup')
        # swap of neighbouring statements, blocks included
        if ind>=8 and not s.startswith(('}','fn','pub','.','else','#','//','return','break','continue')):
            e=block_end(L,i)
            if e is not None and e-i<30 and (L[i-1].strip().endswith((';','{','}')) or L[i-1].strip().startswith('//') or not L[i-1].strip()):
                k=e+1
                while k<len(L) and (not L[k].strip() or L[k].strip().startswith('//')): k+=1
                if k<len(L) and not skip[k] and len(L[k])-len(L[k].lstrip())==ind and not L[k].strip().startswith(('}','return','break','continue')):
                    e2=block_end(L,k)
                    if e2 is not None and e2-k<30 and (e>i or e2>k): add(f,L,i,e2,L[k:e2+1]+L[i:e+1],'bswap')
        # hoisting out: last statement of a block moved behind it
        if ind>=12 and s.endswith(';') and i+1<len(L) and L[i+1].strip()=='}' and not s.startswith(('let','return','}','break','continue')):
            add(f,L,i,i+1,[L[i+1],l],'out')
        # first statement of a block moved before it
        if ind>=12 and s.endswith(';') and L[i-1].strip().endswith('{') and not s.startswith(('let','return','}','break','continue')) and re.match(r'\s*(if|for|while|loop)',L[i-1]):
            add(f,L,i-1,i,[l,L[i-1]],'hoist')
        # exchange of variables
        for a,b in (('when','next'),('next','when'),('instant','now'),('start','now'),('id','0'),('waker','cx.waker().clone()'),('tick','0'),('ticker','0'),('self.key','0'),('interest.readable','interest.writable'),
                    ('ev.readable','ev.writable'),('timeout','None'),('period','Duration::MAX'),('next_timer','None'),('addr','addr'),('true','false')):
            for k,mm in enumerate(re.finditer(r'(?<![\w.])'+re.escape(a)+r'(?=[,)\]; .])(?! =)',l)):
                if a==b or s.startswith('let '+a) : continue
                add(f,L,i,i,[l[:mm.start()]+b+l[mm.end():]],'v_%s_%s%s'%(re.sub(r'\W','',a),re.sub(r'\W','',b)[:4],k or ''))
        m=re.match(r'(\s*)(.+)\?;$',l)
        if m and s.startswith('let'): pass
        # early exits
        if s.startswith('return') and s.endswith(';') : add(f,L,i,i,[],'noreturn')
        if s in('break;','continue;'): add(f,L,i,i,[],'nojump')
        if re.search(r'\.unwrap_or\(',l): add(f,L,i,i,[re.sub(r'\.unwrap_or\([^)]*\)','.unwrap_or_default()',l)],'uodef')
        if '.filter(' in l: add(f,L,i,i,[re.sub(r'\.filter\([^)]*\)','',l)],'nofilter')
        if 'checked_add' in l: add(f,L,i,i,[l.replace('checked_add','checked_sub')],'csub')
        if 'saturating_duration_since' in l: add(f,L,i,i,[re.sub(r'(\w+)\.saturating_duration_since\((\w+)\)',r'\2.saturating_duration_since(\1)',l)],'sds')
G=set((m[1],m[2],m[3]) for m in [])
seen=set(); M2=[]
for m in M:
    if (m[1],m[2],m[3]) in seen: continue
    seen.add((m[1],m[2],m[3])); M2.append(m)
M=[('1'+a,b,c,d) for a,b,c,d in M2]
if __name__=='__main__':
    from collections import Counter
    print(len(M),Counter(re.sub(r'\d+$','',m[0].rsplit(':',1)[1]) for m in M)); print(Counter(m[1] for m in M))
