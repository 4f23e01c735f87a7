"""B01: CBC over an arbitrary block cipher."""
from clib import *
class CbcEnc(Inv):
    """k blocks done: output block j is S(j+1), the chaining value is S(k)"""
    name='S(k) chained, output S(1..k)'
    def __init__(s,m): 
        s.m=m; s.S=Rec(m.ex,'S',m.bl,m.iv,lambda k,v:[E_('E',[xor(a,b) for a,b in zip(m.blk(mul(k,c64(m.bl))),v)],i) for i in range(m.bl)])
    def out(s,ex,st,o): 
        b,j=udm(o,s.m.bl); return s.S.at(addc(lshr(b,s.m.bl.bit_length()-1),1),zext(j,64))
    def mem(s,ex,st0,st,k):
        m=s.m; ex.storeb(st,Ptr(m.ctx,c64(m.ivo)),s.S.vec(k)); ex.addlam(st,m.dst,c64(0),mul(k,c64(m.bl)),s.out); return {m.ctx,m.dst}
    def unfold(s,ex,st,k): s.S.unfold(k)
def t_enc(bl,inplace):
    ex=Ex(XORS); m=Mode(ex,'cry/cbc.h','cry_cbc_ctx',bl,'ctr','ctrlen'); d,p,n=m.buffers(inplace)
    inv=CbcEnc(m); ex.invs=[inv,Auto()]
    rs=ex.call(m.st,'cry_cbc_encrypt',[Ptr(m.ctx,c64(0)),d,p,n],top=True); nf=0
    for s2,v in rs:
        if not ex.feasible(s2): continue
        nf+=1; ex.ensures(s2,m.dst,inv.out,'ensures output == CBC',n)
        g=ex.peek(s2,Ptr(m.ctx,c64(m.ivo)),bl); w=inv.S.vec(m.N)
        for i in range(bl): ex.ob('ensures chaining value == last ciphertext block',ex.same(s2,g[i],w[i]),'%s, expected %s'%(g[i],w[i]))
        m.frame(s2,'encrypt')
    ex.ob('reachable',nf>0)
class CbcDec(Inv):
    """p bytes done: output is D(block) ^ previous ciphertext block, the chaining value is the last ciphertext block"""
    name='p bytes decrypted'
    def __init__(s,m): s.m=m; s.step=m.bl
    def tune(s,ex,steps,init): 
        c=chunk(steps,s.m.bl)
        if c: s.step=c
    def prev(s,o,j):
        m=s.m; r=m.iv[0]
        if isc(j): iv=m.iv[val(j)]
        else:
            iv=m.iv[0]
            for i in range(1,m.bl): iv=ite(eq(j,C(j.w,i)),m.iv[i],iv)
        return ite(ult(o,c64(m.bl)),iv,m.D(addc(o,-m.bl)))
    def out(s,ex,st,o):
        m=s.m; b,j=udm(o,m.bl); return xor(E_('D',m.blk(b),val(j) if isc(j) else zext(j,8)),s.prev(o,j))
    def vec(s,p):
        m=s.m
        return [ite(eq(p,c64(0)),m.iv[i],m.D(addc(p,i-m.bl))) for i in range(m.bl)]
    def mem(s,ex,st0,st,k):
        m=s.m; p=mul(k,c64(s.step)); ex.storeb(st,Ptr(m.ctx,c64(m.ivo)),s.vec(p)); ex.addlam(st,m.dst,c64(0),p,s.out); return {m.ctx,m.dst}
def t_dec(bl,inplace):
    ex=Ex(XORS); ex.forksel=True; m=Mode(ex,'cry/cbc.h','cry_cbc_ctx',bl,'ctr','ctrlen'); d,p,n=m.buffers(inplace)
    inv=CbcDec(m); ex.invs=[inv,Auto()]
    rs=ex.call(m.st,'cry_cbc_decrypt',[Ptr(m.ctx,c64(0)),d,p,n],top=True); nf=0
    for s2,v in rs:
        if not ex.feasible(s2): continue
        nf+=1; ex.ensures(s2,m.dst,inv.out,'ensures output == CBC',n)
        g=ex.peek(s2,Ptr(m.ctx,c64(m.ivo)),bl); w=inv.vec(n)
        for i in range(bl): ex.ob('ensures chaining value == last ciphertext block',ex.same(s2,g[i],w[i]),'%s, expected %s'%(g[i],w[i]))
        m.frame(s2,'decrypt'); ex.noleak(s2)
    ex.ob('reachable',nf>0)
for bl in (8,16):
    for ip in (False,True):
        task('CBC encrypt, %d byte blocks, %s'%(bl,'in place' if ip else 'disjoint'),t_enc,bl,ip)
        task('CBC decrypt, %d byte blocks, %s'%(bl,'in place' if ip else 'disjoint'),t_dec,bl,ip)
    task('CBC setup, %d byte blocks'%bl,t_setup,'cbc','cry/cbc.h','cry_cbc_ctx','ctr','ctrlen',bl)
