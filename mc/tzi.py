"""The short form of tz source (tzdata.zi, public domain) written out in its long form."""
M={'Ja':'Jan','F':'Feb','Mar':'Mar','Ap':'Apr','May':'May','Jun':'Jun','Jul':'Jul','Au':'Aug','S':'Sep','O':'Oct','N':'Nov','D':'Dec'}
MN='Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec'.split()
def mon(s):
    c=[m for m in MN if m.lower().startswith(s.lower())]
    assert c,s
    return c[0]
W=['Sun','Mon','Tue','Wed','Thu','Fri','Sat']
def day(s):
    if s.startswith('last'):
        return 'last'+[w for w in W if w.lower().startswith(s[4:].lower())][0]
    for op in ('>=','<='):
        if op in s:
            a,b=s.split(op); return [w for w in W if w.lower().startswith(a.lower())][0]+op+b
    return s
def tm(s):
    sp=''
    if s[-1] in 'sugzw': sp=s[-1]; s=s[:-1]
    if ':' not in s: s=s+':00'
    return s+sp
def conv(path):
    out=[]
    for l in open(path):
        l=l.rstrip('\n')
        if not l or l[0]=='#': continue
        f=l.split()
        if f[0]=='R':
            _,n,a,b,t,m,d,at,sv,let=f
            b={'o':'only','ma':'max'}.get(b,b)
            out.append('Rule\t'+'\t'.join([n,a,b,t,mon(m),day(d),tm(at),sv,let]))
        elif f[0]=='L': out.append('Link\t%s\t%s'%(f[1],f[2]))
        else:
            pre='\t\t\t'
            if f[0]=='Z': pre='Zone\t%s\t'%f[1]; f=f[2:]
            u=f[3:]
            if len(u)>1: u[1]=mon(u[1])
            if len(u)>2: u[2]=day(u[2])
            if len(u)>3: u[3]=tm(u[3]) if u[3].count(':')<2 else u[3]
            out.append(pre+'\t'.join(f[:3]+([' '.join(u)] if u else [])))
    return '\n'.join(out)+'\n'
