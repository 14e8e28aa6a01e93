import build, sys
from execu import *
A=Atoms()
for cfg in ('x64','i686'):
    for w,fn,widths,post in [(1,'h_umul64',(32,32),lambda x,y:(pmul(x,y),1)),
        (2,'h_umul128_hi',(64,64),lambda x,y:(pmul(x,y),1<<64)),
        (2,'h_umul128_lo',(64,64),lambda x,y:(pmul(x,y),1)),
        (3,'h_umul128_upper64',(64,64),lambda x,y:(pmul(x,y),1<<64)),
        (4,'h_umul192_upper64',(64,64,64),lambda x,yh,yl:(pmul(x,padd(pscale(yh,1<<64),yl)),1<<128)),
        (5,'h_umul96_upper32',(32,64),lambda x,y:(pmul(x,y),1<<64))]:
        m=build.compile_ir('helpers.cpp',cfg,('-DWHICH=%d'%w,))
        A=Atoms()
        ex=Exec(m,A,1); ex.demangle=m.demangle
        st=ex.init_state()
        xs=[patom(A.var('x%d'%i,0,(1<<n)-1)) for i,n in enumerate(widths)]
        fn='@'+fn
        ex.call_entry(st,fn,[IntV(x,n) for x,n in zip(xs,widths)])
        for r in ex.run(st):
            p,dv=post(*xs)
            N=r.ret.n
            want=ex.canon(r,ex.mkdiv(r,p,dv),N)
            got=ex.canon_u(r,r.ret)
            d=psub(got,want)
            print(cfg,fn,len(d), ex.oblcount, [o[0] for o in ex.failed])
            if len(d):
                import dbg
                if fn in('@h_umul96_upper32','@h_umul128_upper64'): print(dbg.show(A,d)); dbg.dump(A)
