"""M05: machine integers and byte strings."""
from dig import *
SR=lambda x,n:shift('lshr',x,n)
# ---------------------------------------------------------------- machine integers
def t_set():
    w=DW(); ex=w.ex; ex.nounroll=False; A=w.num('a'); v=sym(64,'v'); neg_=ext(v,63,63); mag=ite(neg_,neg(v),v)
    for s2,res in outcomes(w,'cry_mpi_set_int',[A['p'],v],A,fail=lambda s2,res:w.same(s2,A)):
        ex.ob('ensures: success',ex.proves(s2,is0(res))); u=w.get(s2,A,'used'); z=s2.fork(); z.add(eq(v,c64(0))); s2.add(not_(eq(v,c64(0)))); d=w.data(s2,A)
        if ex.feasible(z): ex.ob('ensures: zero',ex.proves(z,and_(eq(u,c64(0)),eq(w.get(z,A,'sign'),C(32,0)))))
        if ex.feasible(s2): ex.ob('ensures: one digit, sign and magnitude',ex.proves(s2,and_(eq(u,c64(1)),and_(eq(w.get(s2,A,'sign'),zext(neg_,32)),eq(ex.load(s2,d,64),mag)))))
task('set_int',t_set)
def toplen(b):
    """the number of bits of the top digit, when it has b significant bytes"""
    return zext(sym(7,'toplen'),64) if b is None else addc(zext(sym(3,'toplen'),64),8*b-7)
def h_bits(w,b=None):
    """contract of cry_mpi_count_bits (proved in M04)"""
    def h(ex,st,args):
        A=next(N for N in w.n.values() if ex.sameptr(st,N['p'],args[0])); u=A['used']; L=toplen(b); z=st.fork(); z.add(eq(u,c64(0))); st.add(not_(eq(u,c64(0)))); st.add(ule(c64(1),L)); st.add(ule(L,c64(64))); st.add(eq(SR(A['D'](addc(u,-1)),addc(L,-1)),c64(1)))
        return [x for x in ((z,c64(0)),(st,add(mul(addc(u,-1),c64(64)),L))) if ex.feasible(x[0])]
    return h
class GetInv(Inv):
    name='digits collected'
def t_get():
    w=DW(); ex=w.ex; ex.nounroll=False; A=w.num('a',const=True); o=ex.region(w.st,'val',c64(8),ufbytes('val')); ex.hooks['cry_mpi_count_bits']=h_bits(w); u=A['used']; d=A['D'](c64(0)); ng=eq(A['sign'],C(32,1)); lim=ite(ng,c64(1<<63),c64((1<<63)-1)); n=0
    fits=or_(eq(u,c64(0)),and_(eq(u,c64(1)),ule(d,lim)))
    for s2,res in outcomes(w,'cry_mpi_get_int',[A['p'],Ptr(o,c64(0))],None):
        ex.ob('ensures: success exactly when it fits',ex.proves(s2,eq(is0(res),fits)),str(res)); t=s2.fork(); t.add(fits); s2.add(not_(fits))
        if ex.feasible(t): n+=1; m=ite(eq(u,c64(0)),c64(0),d); ex.ob('ensures: value',ex.proves(t,eq(ex.load(t,Ptr(o,c64(0)),64),ite(ng,neg(m),m))))
        if ex.feasible(s2): ex.equal_content(s2,o,ex.cont(s2,o),Cont(),'ensures: nothing stored when it does not fit')
    ex.ob('reachable',n>0)
task('get_int',t_get)
# ---------------------------------------------------------------- bytes
def abyte(A,k):
    """byte k of the digits (least significant first)"""
    w=A['D'](lshr(k,3)); r=ext(w,7,0)
    for i in range(1,8): r=ite(eq(ext(k,2,0),C(3,i)),ext(w,8*i+7,8*i),r)
    return r
class Store(Inv):
    name='bytes stored'
    def __init__(s,buf,f): s.buf=buf; s.f=f; s.o=None
    def applies(s,ex,f,h,env,st): s.o=None; return True
    def tune(s,ex,steps,init):
        s.o=None
        for n,v in init.items():
            if isinstance(v,Ptr) and v.r is s.buf: s.o=v.o
    def mem(s,ex,st0,st,k):
        if s.o is not None: ex.addlam(st,s.buf,s.o,add(s.o,k),lambda ex,st,o,b=s.o:s.f(sub(o,b)))
        return {s.buf}
def t_store(b):
    zero=b is None
    w=DW(); ex=w.ex; A=w.num('a',const=True); u=A['used']; w.st.add(eq(u,c64(0)) if zero else not_(eq(u,c64(0)))); size=zext(sym(44,'size'),64); pad=sym(32,'pad'); buf=ex.region(w.st,'buf',size,ufbytes('buf')); ex.hooks['cry_mpi_count_bits']=h_bits(w,b)
    nb=c64(0) if zero else addc(mul(addc(u,-1),c64(8)),b); fits=ule(nb,size); pd=not_(eq(pad,C(32,0))); n=ite(pd,size,nb)
    f=lambda j:abyte(A,addc(sub(nb,j),-1)); ex.invs=[Store(buf,f)]; cnt=0
    for s2,res in outcomes(w,'cry_mpi_store_bin',[A['p'],Ptr(buf,c64(0)),size,pad],None):
        ex.ob('ensures: an error exactly when it does not fit',ex.proves(s2,eq(is0(res),fits)),str(res)); t=s2.fork(); t.add(not_(fits)); s2.add(fits)
        if not zero and ex.feasible(t): ex.equal_content(t,buf,ex.cont(t,buf),Cont(),'ensures: nothing stored when it does not fit')
        for c,m in((pd,size),(not_(pd),nb)):
            x=s2.fork(); x.add(c)
            if not ex.feasible(x): continue
            cnt+=1; z=sub(m,nb); ex.equal_content(x,buf,ex.cont(x,buf),Cont((Lam(c64(0),z,lambda ex,st,o:C(8,0)),Lam(z,m,lambda ex,st,o,m=m:abyte(A,addc(sub(m,o),-1))))),'ensures: big-endian bytes')
    ex.ob('reachable',cnt>0)
for b in range(1,9): task('store_bin, %d bytes in the top digit'%b,t_store,b)
task('store_bin of zero',t_store,None)
# ---------------------------------------------------------------- from bytes
class Skip(Inv):
    """the bytes seen are zero: fewer than z+1 are seen, z being the index of the first that is not"""
    name='leading zero bytes skipped'
    def __init__(s,z,S): s.z=z; s.S=S; s.exact=z
    def defs(s,ex,st,k): return [or_(not_(ult(k,s.z)),eq(uf(8,'buf',k),C(8,0)))]
    def facts(s,ex,st,k): return [ule(k,s.z)]
class Load(Inv):
    """after k of S bytes: the digits above the one being collected are complete"""
    name='digits filled from the top'
    def __init__(s,w,R,S,byte): s.w=w; s.R=R; s.S=S; s.byte=byte   # byte(t): byte t of the value, least significant first
    def applies(s,ex,f,h,env,st): s.rd=s.w.data(st,s.R).r; s.u=s.w.get(st,s.R,'used'); return True
    def m(s,k): return and_(addc(sub(s.S,k),-1),c64(7))
    def i(s,k): return lshr(addc(sub(s.S,k),7),3)
    def d(s,k):
        R=sub(s.S,k); c=sub(c64(7),s.m(k)); c=ite(ult(k,c),k,c) # c bytes of the current digit are in
        return cat([C(8,0)]+[ite(ult(c64(j),c),s.byte(add(R,c64(j))),C(8,0)) for j in range(6,-1,-1)])
    def phis(s,ex,st,k): return [s.m(k),s.i(k),s.d(k)]
    def mem(s,ex,st0,st,k): ex.addlam(st,s.rd,x8(s.i(k)),x8(s.u),lambda ex,st,o:ite(ult(o,s.S),s.byte(o),C(8,0))); return {s.rd}
def t_load(r):
    w=DW(); ex=w.ex; A=w.num('a'); z=zext(sym(40,'z'),64); S=addc(x8(zext(sym(36,'q'),64)),r) if r else c64(0); n=add(z,S); buf=ex.region(w.st,'buf',n,ufbytes('buf'),ro=True)
    if r: w.st.add(not_(eq(uf(8,'buf',z),C(8,0))))
    byte=lambda t:uf(8,'buf',addc(sub(n,t),-1)); ex.invs=[Skip(z,S),Load(w,A,S,byte)]; nd=lshr(addc(S,7),3)
    for s2,res in outcomes(w,'cry_mpi_load_bin',[A['p'],Ptr(buf,c64(0)),n],A,fail=lambda s2,res:w.same(s2,A)):
        ex.ob('ensures: success',ex.proves(s2,is0(res))); u=w.get(s2,A,'used'); ex.ob('ensures: number of digits',ex.proves(s2,eq(u,nd)),str(u)); ex.ob('ensures: not negative',ex.proves(s2,eq(w.get(s2,A,'sign'),C(32,0))))
        if not r: continue
        p=w.data(s2,A); ex.equal_content(s2,p.r,ex.cont(s2,p.r),Cont((Lam(c64(0),x8(nd),lambda ex,st,o:ite(ult(o,S),byte(o),C(8,0))),)),'ensures: big-endian value of the bytes',x8(nd))
        ex.ob('ensures: no leading zero digit',ex.proves(s2,not_(eq(ex.load(s2,Ptr(p.r,x8(addc(nd,-1))),64),c64(0)))))
for r in range(1,9): task('load_bin, %d bytes in the top digit'%r,t_load,r)
task('load_bin, all zero',t_load,0)
