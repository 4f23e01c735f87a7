"""B02: cipher feedback, full-block and 8-bit segments, over an arbitrary block cipher."""
from clib import *
class CfbEnc(Inv):
    """k whole blocks done: output block j is S(j+1) = data ^ E(S(j)), feedback S(k)"""
    name='S(k) fed back, output S(1..k)'
    def __init__(s,m):
        s.m=m; s.S=Rec(m.ex,'S',m.bl,m.iv,lambda k,v:[xor(d,E_('E',v,i)) for i,d in enumerate(m.blk(mul(k,c64(m.bl))))])
    def out(s,ex,st,o):
        b,j=udm(o,s.m.bl); q=lshr(b,s.m.bl.bit_length()-1); return s.S.at(addc(q,1),zext(j,64))
    def outd(s,ex,st,o):
        """by definition: data ^ E(previous)"""
        m=s.m; b,j=udm(o,m.bl); q=lshr(b,m.bl.bit_length()-1); return xor(m.D(o),E_('E',s.S.vec(q),val(j) if isc(j) else zext(j,8)))
    def mem(s,ex,st0,st,k):
        m=s.m; ex.storeb(st,Ptr(m.ctx,c64(m.ivo)),s.S.vec(k)); ex.addlam(st,m.dst,c64(0),mul(k,c64(m.bl)),s.out); return {m.ctx,m.dst}
    def unfold(s,ex,st,k): s.S.unfold(k)
def t_enc(bl,inplace):
    """in whole blocks, then a last partial block"""
    ex=Ex(XORS); ex.forksel=True; m=Mode(ex,'cry/cfb.h','cry_cfb_ctx',bl,'v','vlen'); d,p,n=m.buffers(inplace,False); lg=bl.bit_length()-1
    inv=CfbEnc(m); ex.invs=[inv,Auto()]
    whole=lshr(n,lg)
    rs=ex.call(m.st,'cry_cfb_crypt',[Ptr(m.ctx,c64(0)),d,p,n],top=True); nf=0
    for s2,v in rs:
        if not ex.feasible(s2): continue
        nf+=1
        def out(ex,st,o): # the last partial block is given by the definition
            b,j=udm(o,bl); return ite(ult(lshr(b,lg),whole),inv.out(ex,st,o),inv.outd(ex,st,o))
        ex.ensures(s2,m.dst,out,'ensures output == CFB',n)
        s3=s2.fork(); s3.add(eq(ext(n,lg-1,0),C(lg,0)))
        if ex.feasible(s3):
            g=ex.peek(s3,Ptr(m.ctx,c64(m.ivo)),bl); w=inv.S.vec(whole)
            for i in range(bl): ex.ob('ensures feedback == last ciphertext block',ex.same(s3,g[i],w[i]),'%s, expected %s'%(g[i],w[i]))
        m.frame(s2,'encrypt')
    ex.ob('reachable',nf>0)
class CfbDec(Inv):
    """k blocks done (the last one may be partial): output is data ^ E(previous ciphertext block)"""
    name='k blocks decrypted'
    def __init__(s,m): s.m=m
    def done(s,k):
        m=s.m; p=mul(k,c64(m.bl)); return ite(ult(m.size,p),m.size,p)
    def prev(s,b):
        m=s.m; return [ite(eq(b,c64(0)),m.iv[i],m.D(addc(b,i-m.bl))) for i in range(m.bl)]
    def out(s,ex,st,o):
        m=s.m; b,j=udm(o,m.bl); return xor(m.D(o),E_('E',s.prev(b),val(j) if isc(j) else zext(j,8)))
    def mem(s,ex,st0,st,k):
        m=s.m; p=s.done(k); c=ule(mul(k,c64(m.bl)),m.size)
        v=s.prev(mul(k,c64(m.bl))); nm='feedback_after_partial'
        ex.storeb(st,Ptr(m.ctx,c64(m.ivo)),[ite(c,v[i],uf(8,nm,k,C(8,i))) for i in range(m.bl)]); ex.addlam(st,m.dst,c64(0),p,s.out); return {m.ctx,m.dst}
    def dontcare(s,ex,st,r,k):
        m=s.m
        if r is not m.ctx: return None
        c=ult(m.size,mul(k,c64(m.bl)))
        return lambda o:and_(c,and_(ule(c64(m.ivo),o),ult(o,c64(m.ivo+m.bl))))
    def phis(s,ex,st,k):
        m=s.m; p=s.done(k); return [Ptr(m.src,p),sub(m.size,p)]+([Ptr(m.dst,p)] if m.dst is not m.src else [])
    def facts(s,ex,st,k): return [or_(eq(k,c64(0)),ult(mul(addc(k,-1),c64(s.m.bl)),s.m.size))]
def t_dec(bl,inplace):
    ex=Ex(XORS); ex.forksel=True; m=Mode(ex,'cry/cfb.h','cry_cfb_ctx',bl,'v','vlen'); d,p,n=m.buffers(inplace,False); lg=bl.bit_length()-1
    inv=CfbDec(m); ex.invs=[inv,Auto()]
    rs=ex.call(m.st,'cry_cfb_decrypt',[Ptr(m.ctx,c64(0)),d,p,n],top=True); nf=0
    for s2,v in rs:
        if not ex.feasible(s2): continue
        nf+=1; ex.ensures(s2,m.dst,inv.out,'ensures output == CFB',n)
        s3=s2.fork(); s3.add(eq(ext(n,lg-1,0),C(lg,0)))
        if ex.feasible(s3):
            g=ex.peek(s3,Ptr(m.ctx,c64(m.ivo)),bl); w=inv.prev(n)
            for i in range(bl): ex.ob('ensures feedback == last ciphertext block',ex.same(s3,g[i],w[i]),'%s, expected %s'%(g[i],w[i]))
        m.frame(s2,'decrypt')
    ex.ob('reachable',nf>0)
# ---------------------------------------------------------------- 8 bit segments
def X(m,i):
    """the shift register history: X(0..bl) is the IV, X(bl+k) the k-th ciphertext byte"""
    if isc(i) and val(i)<m.bl: return m.iv[val(i)]
    return uf(8,'X',i)
def Xdef(m,k,enc):
    """definition of X(bl+k) for the generic k"""
    bl=m.bl; return eq(uf(8,'X',addc(k,bl)),xor(m.D(k),E_('E',[X(m,addc(k,i)) for i in range(bl)],0)) if enc else m.D(k))
def Xiv(m): return [eq(uf(8,'X',c64(i)),m.iv[i]) for i in range(m.bl)]
class Cfb8Enc(Inv):
    """k bytes done; the window holds the last bytes of the history"""
    name='window over the history'
    def __init__(s,m): s.m=m; s.win=None
    def applies(s,ex,f,h,env,st): s.bufs=[r for r in st.mem if r.kind=='alloca']; return True
    def pos(s,k):
        m=s.m; k1=addc(k,-1); lg=m.bl.bit_length()-1
        return ite(eq(k,c64(0)),c64(0),addc(zext(ext(k1,lg-1,0),64),1))
    def phis(s,ex,st,k): return [s.pos(k)]
    def mem(s,ex,st0,st,k):
        m=s.m; pos=s.pos(k)
        ex.storeb(st,Ptr(m.ctx,c64(m.ivo)),[uf(8,'v_in_loop',k,C(8,i)) for i in range(m.bl)])
        ex.addlam(st,m.dst,c64(0),k,lambda ex,st2,o:uf(8,'X',addc(o,m.bl)))
        rs={m.ctx,m.dst}
        for b in s.bufs:
            if isc(b.size) and val(b.size)>=2*m.bl:
                rs.add(b); base=sub(k,pos); ex.addlam(st,b,c64(0),addc(pos,m.bl),lambda ex,st2,o:uf(8,'X',add(base,o)))
                nm='stale_'+b.name; ex.addlam(st,b,addc(pos,m.bl),b.size,lambda ex,st2,o:uf(8,nm,k,o))
        return rs
    def dontcare(s,ex,st,r,k):
        m=s.m
        if r is m.ctx: return lambda o:and_(ule(c64(m.ivo),o),ult(o,c64(m.ivo+m.bl)))
        if r in s.bufs: return lambda o:ule(addc(s.pos(k),m.bl),o)
    def unfold(s,ex,st,k): st.add(Xdef(s.m,k,True))
def t_enc8(bl,inplace):
    ex=Ex(XORS); ex.nomerge=True; m=Mode(ex,'cry/cfb.h','cry_cfb_ctx',bl,'v','vlen'); d,p,n=m.buffers(inplace,False); m.src.gran=m.dst.gran=1
    for c in Xiv(m): m.st.add(c)
    ex.invs=[Cfb8Enc(m),Auto()]
    rs=ex.call(m.st,'cry_cfb8_encrypt',[Ptr(m.ctx,c64(0)),d,p,n],top=True); nf=0
    for s2,v in rs:
        if not ex.feasible(s2): continue
        nf+=1; ex.ensures(s2,m.dst,lambda ex,st,o:uf(8,'X',addc(o,bl)),'ensures output == CFB8',n)
        g=ex.peek(s2,Ptr(m.ctx,c64(m.ivo)),bl)
        for i in range(bl): ex.ob('ensures feedback == last bytes of the history',ex.same(s2,g[i],uf(8,'X',addc(n,i))),'%s'%g[i])
        m.frame(s2,'encrypt8')
    ex.ob('reachable',nf>0)
class Cfb8Dec(Inv):
    """p bytes done in chunks of a block: output is data ^ E(history window)[0]"""
    name='chunks of the history decrypted'
    def __init__(s,m): s.m=m; 
    def applies(s,ex,f,h,env,st): s.bufs=[r for r in st.mem if r.kind=='alloca' and isc(r.size) and val(r.size)>=2*s.m.bl]; return True
    def done(s,k):
        m=s.m; p=mul(k,c64(m.bl)); return ite(ult(m.size,p),m.size,p)
    def phis(s,ex,st,k):
        m=s.m; p=s.done(k); return [Ptr(m.src,p),sub(m.size,p)]+([Ptr(m.dst,p)] if m.dst is not m.src else [])
    def facts(s,ex,st,k): return [or_(eq(k,c64(0)),ult(mul(addc(k,-1),c64(s.m.bl)),s.m.size))]
    def hist(s,i):
        m=s.m
        if isc(i): return m.iv[val(i)] if val(i)<m.bl else m.D(addc(i,-m.bl))
        r=m.D(addc(i,-m.bl))
        return hist_ite(m,i,r)
    def out(s,ex,st,o):
        m=s.m; return xor(m.D(o),E_('E',[uf(8,'X',addc(o,i)) for i in range(m.bl)],0))
    def mem(s,ex,st0,st,k):
        m=s.m; p=s.done(k); rs={m.dst}
        ex.addlam(st,m.dst,c64(0),p,s.out)
        left=sub(m.size,p); nx=ite(ult(left,c64(m.bl)),left,c64(m.bl))
        for b in s.bufs[:1]:
            rs.add(b); ex.addlam(st,b,c64(0),addc(nx,m.bl),lambda ex,st2,o:uf(8,'X',add(p,o)))
            nm='stale_'+b.name; ex.addlam(st,b,addc(nx,m.bl),b.size,lambda ex,st2,o:uf(8,nm,k,o))
        return rs
    def dontcare(s,ex,st,r,k):
        m=s.m
        if r in s.bufs[:1]:
            left=sub(m.size,s.done(k)); nx=ite(ult(left,c64(m.bl)),left,c64(m.bl))
            return lambda o:ule(addc(nx,m.bl),o)
def t_dec8(bl,inplace):
    ex=Ex(XORS); ex.forksel=True; m=Mode(ex,'cry/cfb.h','cry_cfb_ctx',bl,'v','vlen'); d,p,n=m.buffers(inplace,False); m.src.gran=m.dst.gran=1
    # the data is the history: X(i) = IV for i < bl, data(i-bl) after
    m.src.base=lambda o:uf(8,'X',addc(o,bl)); m.D=lambda o:uf(8,'X',addc(o,bl))
    for c in Xiv(m): m.st.add(c)
    inv=Cfb8Dec(m); ex.invs=[inv,Auto()]
    rs=ex.call(m.st,'cry_cfb8_decrypt',[Ptr(m.ctx,c64(0)),d,p,n],top=True); nf=0
    for s2,v in rs:
        if not ex.feasible(s2): continue
        nf+=1; ex.ensures(s2,m.dst,inv.out,'ensures output == CFB8',n)
        g=ex.peek(s2,Ptr(m.ctx,c64(m.ivo)),bl)
        for i in range(bl): ex.ob('ensures feedback == last bytes of the history',ex.same(s2,g[i],uf(8,'X',addc(n,i))),'%s'%g[i])
        m.frame(s2,'decrypt8')
    ex.ob('reachable',nf>0)
for bl in (8,16):
    for ip in (False,True):
        w='%d byte blocks, %s'%(bl,'in place' if ip else 'disjoint')
        task('CFB encrypt, '+w,t_enc,bl,ip); task('CFB decrypt, '+w,t_dec,bl,ip); task('CFB8 encrypt, '+w,t_enc8,bl,ip); task('CFB8 decrypt, '+w,t_dec8,bl,ip)
    task('CFB setup, %d byte blocks'%bl,t_setup,'cfb','cry/cfb.h','cry_cfb_ctx','v','vlen',bl)
