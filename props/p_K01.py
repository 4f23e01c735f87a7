"""K01: cyclic redundancy checks: reflected bitwise polynomial division."""
from pv import *
from layout import layout
import terms; terms.OPT['bits']=True
# width, reflected polynomial, initial value, complement, byte swap of the result
V={'crc16_ccitt':(16,0x8408,0xffff,1,1),'crc16_dnp':(16,0xa6bc,0,1,1),'crc16_ibm':(16,0xa001,0xffff,0,0),'crc32_eth':(32,0xedb88320,0xffffffff,1,0)}
def step(v,crc,byte):
    """one byte: xor into the low bits, then eight divisions by x"""
    w,poly=V[v][:2]; crc=xor(crc,zext(byte,w))
    for _ in range(8):
        lsb=ext(crc,0,0); crc=xor(lshr(crc,1),and_(cat([lsb]*w),C(w,poly)))
    return crc
def final(v,crc):
    w,_,_,comp,swap=V[v]
    if comp: crc=not_(crc)
    if swap: crc=cat([ext(crc,8*i+7,8*i) for i in range(w//8)])
    return crc
class K:
    def __init__(s,ex,v):
        s.ex=ex; s.v=v; s.w,_,s.init,_,_=V[v]; s.fam='crc%d'%s.w; L=s.L=layout('cry/crc.h','struct cry_%s_ctx'%s.fam,('tab','crc','flags')); s.st=St()
        s.ctx=ex.region(s.st,'ctx',L[''][1],None); s.N=zext(sym(48,'n'),64); s.dat=ex.region(s.st,'data',s.N,ufbytes('data'),ro=True); s.P=Ptr(s.ctx,c64(0))
        s.S=Rec(ex,'S',1,lambda:[s.c0],lambda k,x:[step(v,x[0],uf(8,'data',k))],s.w)
class Done(Inv):
    name='k bytes divided'
    def __init__(s,m): s.m=m
    def phis(s,ex,st,k): return [s.m.S.vec(k)[0],zext(s.m.S.vec(k)[0],32)] if s.m.w<32 else [s.m.S.vec(k)[0]]
    def unfold(s,ex,st,k): s.m.S.unfold(k)
    def mem(s,ex,st0,st,k): s.m.put(st,s.m.S.vec(k)[0]); return {s.m.ctx}
class DoneReg(Done):
    name='k bytes divided, value in a register'
    def mem(s,ex,st0,st,k): return set()
def put(s,st,crc): s.ex.store(st,Ptr(s.r,s.off),crc)
def t_update(v):
    ex=Ex(); m=K(ex,v); m.r=m.ctx; m.off=c64(m.L['crc'][0]); m.put=lambda st,c:ex.store(st,Ptr(m.ctx,m.off),c)
    (st,_),=ex.call(m.st,'cry_%s_init'%v,[m.P],top=True)
    ex.ob('ensures initial value',ex.same(st,ex.load(st,Ptr(m.ctx,m.off),m.w),C(m.w,m.init)))
    m.c0=sym(m.w,'crc0'); m.put(st,m.c0); c0=st.mem[m.ctx]; c0.shared=True
    ex.invs=[Done(m),DoneReg(m)]; nf=0
    for s2,_ in ex.call(st,'cry_%s_update'%m.fam,[m.P,Ptr(m.dat,c64(0)),m.N],top=True):
        if not ex.feasible(s2): continue
        nf+=1; g=ex.load(s2,Ptr(m.ctx,m.off),m.w); w=m.S.vec(m.N)[0]; s3=s2
        ex.ob('ensures crc == remainder after n bytes',ex.same(s2,g,w),'%s, expected %s'%(g,w))
        for o in range(m.L[''][1]):
            if not m.L['crc'][0]<=o<m.L['crc'][0]+m.w//8: ex.ob('frame: rest of the context',ex.same(s2,ex.rbyte(s2,s2.mem[m.ctx],m.ctx,c64(o)),ex.rbyte(s2,c0,m.ctx,c64(o))),'offset %d'%o)
    ex.ob('reachable',nf>0)
    for dig in (0,1):
        s1=st.fork(); out=ex.region(s1,'out',m.w//8,ufbytes('out')); want=final(v,m.c0)
        for s2,r in ex.call(s1,'cry_%s_%s'%(m.fam,'digest' if dig else 'final'),[m.P]+([Ptr(out,c64(0))] if dig else []),top=True):
            if not ex.feasible(s2): continue
            if dig: r=cat(ex.peek(s2,Ptr(out,c64(0)),m.w//8))
            ex.ob('ensures final value',ex.same(s2,r,want),'%s, expected %s'%(r,want))
def t_oneshot(v):
    ex=Ex(); m=K(ex,v); n0=[0]
    def upd(ex,st,args):
        p,d,l=args; o=Ptr(p.r,addc(p.o,m.L['crc'][0])); c=ex.load(st,o,m.w)
        ex.ob('requires: initial value, whole message',ex.same(st,c,C(m.w,m.init)) and ex.sameptr(st,d,Ptr(m.dat,c64(0))) and ex.same(st,l,m.N),'%s %s %s'%(c,d,l))
        ex.store(st,o,uf(m.w,'REM',m.N)); return [(st,None)]
    ex.hooks['cry_%s_update'%m.fam]=upd; rs=ex.call(m.st,'cry_'+v,[Ptr(m.dat,c64(0)),m.N],top=True)
    for s2,r in rs: ex.ob('ensures value of the whole message',ex.same(s2,ext(r,m.w-1,0),final(v,uf(m.w,'REM',m.N))),str(r))
    ex.ob('reachable',len(rs)>0)
for v in V: task(v+' update and final',t_update,v); task(v+' one-shot',t_oneshot,v)
