"""B03: counter mode over an arbitrary block cipher."""
from clib import *
def ctr_val(m,j):
    """counter after j increments: big-endian addition modulo 2^(8 bl)"""
    w=8*m.bl; return add(cat(m.iv),zext(j,w) if w>=64 else j)
def be(v,n): return [ext(v,8*(n-1-i)+7,8*(n-1-i)) for i in range(n)]
def at(v,j):
    """byte j (constant) of a list"""
    return v[val(j)]
class CtrFill(Inv):
    """the counter of the context counts up from its value at the entry, the successive values are stored"""
    name='counter values stored'; eager=True
    def __init__(s,m): s.m=m; s.tgt=None
    def applies(s,ex,f,h,env,st): s.tgt=None; s.off=None; s.ents=[(r) for r in st.mem]; return True
    def tune(s,ex,steps,init):
        for d,v in init.items():
            if isinstance(v,Ptr) and isinstance(steps[d],T) and val(steps[d])==s.m.bl and v.r is not s.m.ctx: s.tgt=v
    def mem(s,ex,st0,st,k):
        m=s.m; iv=ex.peek(st0,Ptr(m.ctx,c64(m.ivo)),m.bl); v0=cat(iv); w=8*m.bl
        val_=lambda j:be(add(v0,zext(j,w)),m.bl)
        ex.storeb(st,Ptr(m.ctx,c64(m.ivo)),val_(k))
        if s.tgt is None: return {m.ctx}
        p0=s.tgt.o; lg=m.bl.bit_length()-1
        def f(ex,st2,o):
            x=sub(o,p0); j=ext(x,lg-1,0)
            q=lshr(x,lg)
            b=val_(q)
            if isc(j): return b[val(j)]
            r=b[0]
            for i in range(1,m.bl): r=ite(eq(j,C(lg,i)),b[i],r)
            return r
        ex.addlam(st,s.tgt.r,p0,add(p0,mul(k,c64(m.bl))),f)
        return {m.ctx,s.tgt.r}
class CtrChunk(Inv):
    """p bytes done"""
    name='p bytes done, counter advanced by p/block'
    def __init__(s,m): s.m=m; s.step=m.bl
    def tune(s,ex,steps,init): s.step=chunk(steps,s.m.bl) or s.step
    def ks(s,o):
        m=s.m; b,j=udm(o,m.bl); return E_('E',be(ctr_val(m,lshr(b,m.bl.bit_length()-1)),m.bl),val(j) if isc(j) else zext(j,8))
    def out(s,ex,st,o): return xor(s.m.D(o),s.ks(o))
    def mem(s,ex,st0,st,k):
        m=s.m; p=mul(k,c64(s.step)); ex.storeb(st,Ptr(m.ctx,c64(m.ivo)),be(ctr_val(m,mul(k,c64(s.step//m.bl))),m.bl)); ex.addlam(st,m.dst,c64(0),p,s.out); return {m.ctx,m.dst}
def t_ctr(bl,inplace):
    ex=Ex(XORS); ex.forksel=True; ex.summaries=[IncBE()]; m=Mode(ex,'cry/ctr.h','cry_ctr_ctx',bl,'ctr','ctrlen'); d,p,n=m.buffers(inplace,False)
    inv=CtrChunk(m); ex.invs=[CtrFill(m),inv,Auto()]
    rs=ex.call(m.st,'cry_ctr_encrypt',[Ptr(m.ctx,c64(0)),d,p,n],top=True); nf=0
    for s2,v in rs:
        if not ex.feasible(s2): continue
        nf+=1; ex.ensures(s2,m.dst,inv.out,'ensures output == CTR',n)
        s3=s2.fork(); lg=bl.bit_length()-1; s3.add(eq(ext(n,lg-1,0),C(lg,0)))
        if ex.feasible(s3):
            g=ex.peek(s3,Ptr(m.ctx,c64(m.ivo)),bl); w=be(ctr_val(m,lshr(n,lg)),bl)
            for i in range(bl): ex.ob('ensures counter advanced by the number of blocks',ex.same(s3,g[i],w[i]),'%s, expected %s'%(g[i],w[i]))
        m.frame(s2,'encrypt')
    ex.ob('reachable',nf>0)
for bl in (8,16):
    for ip in (False,True): task('CTR, %d byte blocks, %s'%(bl,'in place' if ip else 'disjoint'),t_ctr,bl,ip)
    task('CTR setup, %d byte blocks'%bl,t_setup,'ctr','cry/ctr.h','cry_ctr_ctx','ctr','ctrlen',bl)
