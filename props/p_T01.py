"""T01: Trivium, 32 steps at a time.  The state is S(j) after j words; S(j+1) is 32 steps of the standard
   on the bits of S(j), the key stream word is the 32 output bits (first step most significant, little endian)."""
from pv import *
from layout import layout
def bits(ws):
    """words of a register -> bits s_1.. (newest first); bit 0 of the first word is the newest"""
    return [ext(w,i,i) for w in ws for i in range(32)]
def words(bs): return [cat(bs[i:i+32][::-1]) for i in range(0,len(bs),32)]
def steps(S):
    """32 steps -> (state words, output word)"""
    a,b,c=bits(S[0:3]),bits(S[3:6]),bits(S[6:10]); z=[]
    for _ in range(32):
        t1=xor(a[65],a[92]); t2=xor(b[68],b[83]); t3=xor(c[65],c[110]); z.append(xor(t1,t2,t3))
        t1=xor(t1,and_(a[90],a[91]),b[77]); t2=xor(t2,and_(b[81],b[82]),c[86]); t3=xor(t3,and_(c[108],c[109]),a[68])
        a=[t3]+a[:-1]; b=[t1]+b[:-1]; c=[t2]+c[:-1]
    return words(a)+words(b)+words(c),cat(z)
class Tr:
    def __init__(s,ex):
        s.ex=ex; st=s.st=St(); L=s.L=layout('cry/trivium.h','struct cry_trivium_ctx',('key','s')); s.ctx=ex.region(st,'ctx',L[''][1],ufbytes('ctx')); s.P=Ptr(s.ctx,c64(0))
        s.init=None; s.junk=False; s.S=Rec(ex,'S',10,lambda:s.init,lambda k,v:steps(v)[0],32)
    def put(s,st,ws):
        for i,w in enumerate(ws): s.ex.store(st,Ptr(s.ctx,c64(s.L['s'][0]+4*i)),w)
    def get(s,st): return [s.ex.load(st,Ptr(s.ctx,c64(s.L['s'][0]+4*i)),32) for i in range(10)]
class InvT(Inv):
    def __init__(s,m,mem,dst=None,src=None):
        s.m=m; s.mm=mem; s.dst=dst; s.src=src; s.eager=True; s.name='k words done, state in '+('memory' if mem else 'registers')
    def phis(s,ex,st,k): return s.m.S.vec(k)
    def unfold(s,ex,st,k): s.m.S.unfold(k)
    def applies(s,ex,f,h,env,st):
        if s.m.junk: # the 17 bits beyond the third register are never used: whatever is there
            t=ex.peek(st,Ptr(s.m.ctx,c64(s.m.L['s'][0]+38)),2); s.m.init[9]=cat([t[1],t[0],ext(s.m.init[9],15,0)])
        return True
    def tune(s,ex,step,init): 
        if not s.mm and sum(1 for d in step if step[d] is None)<3: raise Fail('no state in the header')
    def out(s,ex,st,o):
        j=ext(o,1,0); z=s.z(lshr(o,2)); b=[ext(z,8*i+7,8*i) for i in range(4)]; d=uf(8,'data',o)
        if isc(j): return xor(d,b[val(j)])
        r=b[0]
        for i in range(1,4): r=ite(eq(j,C(2,i)),b[i],r)
        return xor(d,r)
    def z(s,k): return steps(s.m.S.vec(k))[1]
    def mem(s,ex,st0,st,k):
        r=set()
        if s.mm: s.m.put(st,s.m.S.vec(k)); r.add(s.m.ctx)
        if s.dst is not None: ex.addlam(st,s.dst,c64(0),mul(k,c64(4)),s.out); r.add(s.dst)
        return r
def t_setup():
    ex=Ex(); m=Tr(ex); st=m.st; K=m.L['key'][0]
    for s1,_ in ex.call(st,'cry_trivium_init',[m.P],top=True): pass
    ks=zext(sym(5,'ks'),64); key=ex.region(s1,'key',ks,ufbytes('key'),ro=True); ex.invs=[Auto()]; nf=0
    for s2,_ in ex.call(s1,'cry_trivium_key_set',[m.P,Ptr(key,c64(0)),ks],top=True):
        if not ex.feasible(s2): continue
        nf+=1; g=ex.peek(s2,Ptr(m.ctx,c64(K)),10)
        for i in range(10): ex.ob('ensures: key, padded with zeros',ex.same(s2,g[i],ite(ult(c64(i),ks),uf(8,'key',c64(i)),C(8,0))),str(g[i]))
    ex.ob('reachable',nf>0)
def t_iv():
    ex=Ex(); m=Tr(ex); st=m.st; n=zext(sym(5,'ivs'),64); iv=ex.region(st,'iv',n,ufbytes('iv'),ro=True)
    key=[sym(8,'key%d'%i) for i in range(10)]; ex.storeb(st,Ptr(m.ctx,c64(m.L['key'][0])),key)
    ivb=[ite(ult(c64(i),n),uf(8,'iv',c64(i)),C(8,0)) for i in range(10)]
    def reg(bs,nb):
        bs=bs+[C(8,0)]*(nb-len(bs)); return [cat(bs[i:i+4][::-1]) for i in range(0,nb,4)]
    one=[C(1,0)]*108+[C(1,1)]*3+[C(1,0)]*17
    m.init=reg(key,12)+reg(ivb,12)+words(one)
    m.junk=True
    ex.invs=[InvT(m,0),InvT(m,1),Auto()]; nf=0
    for s2,_ in ex.call(st,'cry_trivium_iv_set',[m.P,Ptr(iv,c64(0)),n],top=True):
        if not ex.feasible(s2): continue
        nf+=1; g=m.get(s2); w=m.S.vec(c64(36))
        for i in range(10): ex.ob('ensures: state after 1152 steps',ex.same(s2,g[i],w[i]),'%s, expected %s'%(g[i],w[i]))
        g=ex.peek(s2,Ptr(m.ctx,c64(m.L['key'][0])),10)
        for i in range(10): ex.ob('frame: key',g[i] is key[i])
    ex.ob('reachable',nf>0)
def t_crypt(inplace):
    ex=Ex(); m=Tr(ex); st=m.st; m.init=[sym(32,'s%d'%i) for i in range(10)]; m.put(st,m.init); m.S.init=lambda:m.init
    N=zext(sym(46,'N'),64); src=ex.region(st,'data',N,ufbytes('data'),ro=not inplace); dst=src if inplace else ex.region(st,'out',N,ufbytes('out')); src.gran=dst.gran=4
    inv=InvT(m,0,dst); ex.invs=[inv,InvT(m,1,dst),Auto()]; nf=0
    c0=st.mem[m.ctx]; c0.shared=True; K=m.L['key'][0]
    for s2,_ in ex.call(st,'cry_trivium_crypt',[m.P,Ptr(dst,c64(0)),Ptr(src,c64(0)),N],top=True):
        if not ex.feasible(s2): continue
        for t in range(4):
            s3=s2.fork(); s3.add(eq(ext(N,1,0),C(2,t)))
            if not ex.feasible(s3): continue
            nf+=1; q=lshr(N,2); m.S.unfold(q) if t else None
            w=m.S.vec(addc(q,1) if t else q); g=m.get(s3)
            for i in range(10): ex.ob('ensures: state advanced',ex.same(s3,g[i],w[i]),'%s, expected %s'%(g[i],w[i]))
            ex.ensures(s3,dst,inv.out,'ensures output == data xor key stream',N)
            for o in range(K,K+10): ex.ob('frame: key',ex.rbyte(s3,s3.mem[m.ctx],m.ctx,c64(o)) is ex.rbyte(s3,c0,m.ctx,c64(o)))
    ex.ob('reachable',nf>=4)
task('init and key_set',t_setup); task('iv_set',t_iv); task('crypt, disjoint',t_crypt,False); task('crypt, in place',t_crypt,True)
