from sym import *
def show(A,p,depth=0):
    def sa(a):
        k=A.kind[a]
        if k[0]=='var': return k[1]
        if k[0]=='div': return 'D%d'%a
        return '%s%d'%(k[0],a)
    def sc(c):
        if isvec(c): return 'V'
        if c and c&(abs(c)-1)==0 or (c<0 and (-c)&(-c-1)==0): return ('-' if c<0 else '')+'2^%d'%(abs(c).bit_length()-1) if abs(c)>1 else str(c)
        return hex(c)
    return ' + '.join('*'.join([sc(c)]+[sa(a) for a in m]) for m,c in p.items()) or '0'
def dump(A):
    for i,k in enumerate(A.kind):
        if k[0]=='div': print('  D%d = (%s) / %s'%(i,show(A,k[1]), k[2] if isvec(k[2]) else '2^%d'%(k[2].bit_length()-1)), 'in',A.lo[i],A.hi[i])
