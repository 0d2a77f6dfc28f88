"""systematic first-order mutants of the Linux code: M = [(name, file, old, new)]; old is made unique by context"""
import re
R='/repo/'
FILES=['src/lib.rs','src/reactor.rs','src/driver.rs','src/reactor/unix.rs','src/os/unix.rs']
def code_lines(f):
    L=open(R+f).read().split('\n')
    skip=[False]*len(L)
    # skip doc/comment lines, cfg(windows)/kqueue items are rare: skip by attribute until the matching brace or ;
    i=0
    while i<len(L):
        s=L[i].strip()
        if s.startswith('//') or s.startswith('#[') or s.startswith('use ') or not s: skip[i]=True
        if re.match(r'#\[cfg\((windows|any\(\s*target_os = "macos"|feature = "tracing")',s) :
            j=i+1; d=0; started=False
            while j<len(L):
                d+=L[j].count('{')+L[j].count('(')-L[j].count('}')-L[j].count(')')
                skip[j]=True
                if d<=0 and (L[j].rstrip().endswith((';','}',',')) ): break
                j+=1
            i=j
        i+=1
    return L,skip
M=[]
def add(f,L,i,j,new,tag):
    """replace lines i..j by new (list)"""
    text='\n'.join(L)
    a=i; b=j
    while True:
        old='\n'.join(L[a:b+1])
        if text.count(old)==1 and ('\n'+old in text): break
        if a>0: a-=1
        elif b<len(L)-1: b+=1
        if a>0 and b-a>60: return
    n='\n'.join(L[a:i]+new+L[j+1:b+1])
    if n==old: return
    M.append(('%s:%d:%s'%(f.split('/',1)[1],i+1,tag),f,old,n))
SUB=[(r'\bREAD\b','WRITE','r2w'),(r'\bWRITE\b','READ','w2r'),(r'\btrue\b','false','t2f'),(r'\bfalse\b','true','f2t'),
 (r' == ',' != ','ne'),(r' != ',' == ','eq'),(r' <= ',' < ','lt'),(r' >= ',' > ','gt'),(r' < ',' <= ','le'),(r' > ',' >= ','ge'),(r' < ',' > ','lg'),(r' > ',' < ','gl'),
 (r' \|\| ',' && ','and'),(r' && ',' || ','or'),(r' \+ ',' - ','minus'),(r'\.is_some\(\)','.is_none()','isn'),(r'\.is_none\(\)','.is_some()','iss'),
 (r'\.is_empty\(\)','.is_empty() == false','notempty'),(r'\bNone\b','None','x'),(r'\bif (?!let)(.+) \{$',r'if !(\1) {','neg'),(r'\bwhile (?!let)(.+) \{$',r'while !(\1) {','neg'),
 (r'(?<![!\w])!(?=[a-z])','','nonot'),(r'\b0\b','1','one'),(r'\b1\b','0','zero'),(r'SeqCst','Relaxed','relaxed'),(r'\bOk\(\(\)\)','Ok(())','x'),
 (r'Poll::Pending','Poll::Ready(Ok(()))','ready'),(r'Poll::Ready\(Ok\(\(\)\)\)','Poll::Pending','pend'),(r'return Ok\(\(\)\);','','noret'),
 (r'fetch_add','fetch_sub','sub'),(r'fetch_sub','fetch_add','addx'),(r'saturating_duration_since','saturating_duration_since','x'),(r'Duration::from_secs\(0\)','Duration::from_secs(1)','sec'),
 (r'\.min\(','.max(','max'),(r'\.take\(\)','.clone()','clone'),(r'\.swap\(','.store(','x'),(r'wake\(\)','wake_by_ref()','x'),(r'Some\((\w+)\)(?= =>)',r'Some(\1)','x'),
 (r'\bcontinue\b','break','brk'),(r'\bbreak\b','continue','cont'),(r'get_ref','get_ref','x'),(r'\breadable\b','writable','rw'),(r'\bwritable\b','readable','wr'),
 (r'poll_readable','poll_writable','rw2'),(r'poll_writable','poll_readable','wr2'),(r'read_with\(','write_with(','rw3'),(r'write_with\(','read_with(','wr3'),
 (r'recv_from','peek_from','pk'),(r'\.peek\(','.recv(','pk2'),(r'\.recv\(','.peek(','pk3'),(r'\.unwrap_or\(','.unwrap_or(','x'),(r'Ordering::Less','Ordering::Greater','lgx')]
for f in FILES:
    L,skip=code_lines(f)
    for i,l in enumerate(L):
        if skip[i]: continue
        for pat,rep,tag in SUB:
            if tag=='x': continue
            for k,mm in enumerate(re.finditer(pat,l)):
                n=l[:mm.start()]+mm.expand(rep)+l[mm.end():]
                add(f,L,i,i,[n],tag+(str(k) if k else ''))
        # deletion of a one-line statement
        s=l.strip()
        ind=len(l)-len(l.lstrip())
        if s.endswith(';') and not s.startswith(('let ','return','use ','pub ','fn ','type ','const ','static ','impl','}',')','.','break','continue')) and ind>=8:
            prev=L[i-1].strip()
            if prev.endswith((';','{','}')) or prev.startswith('//') or not prev:
                add(f,L,i,i,[],'del')
        # deletion of a multi-line statement starting here (balanced)
        if ind>=8 and not s.endswith((';',',','{}')) and not s.startswith(('let ','fn ','pub ','impl','}','.',')','else','//','#','match ','loop','Ok','Err','Some','None','Poll')):
            d=0
            for j in range(i,min(i+14,len(L))):
                d+=L[j].count('{')+L[j].count('(')-L[j].count('}')-L[j].count(')')
                if d==0 and (L[j].rstrip().endswith(';') or (L[j].strip()=='}' and s.startswith(('if ','for ','while ')))):
                    if j>i and (L[i-1].strip().endswith((';','{','}')) or L[i-1].strip().startswith('//') or not L[i-1].strip()): add(f,L,i,j,[],'delm')
                    break
                if d<0: break
        # ? swallowed
        if s.endswith('?;') and not s.startswith('let'):
            add(f,L,i,i,[l.replace('?;','.ok();')],'swallow')
        # swap with the next statement
        if i+1<len(L) and not skip[i+1] and s.endswith(';') and L[i+1].strip().endswith(';') and ind>=8 and len(L[i+1])-len(L[i+1].lstrip())==ind and not s.startswith(('return','break','continue')) and not L[i+1].strip().startswith(('return','break','continue','}')) and not s.startswith('}'):
            add(f,L,i,i+1,[L[i+1],L[i]],'swap')
    # early exits: statements with a comment between
seen=set(); M2=[]
for m in M:
    if (m[1],m[2],m[3]) in seen: continue
    seen.add((m[1],m[2],m[3])); M2.append(m)
M=[('1'+a,b,c,d) for a,b,c,d in M2]
if __name__=='__main__':
    print(len(M))
    from collections import Counter
    print(Counter(m[0].rsplit(':',1)[1] for m in M)); print(Counter(m[1] for m in M))
