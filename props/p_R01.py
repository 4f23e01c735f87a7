"""R01: ARC4.  The permutation after k steps is the spec function S(k,.), defined by recursion."""
from pv import *
from layout import layout
class Perm:
    """spec sequences P(k,i) (permutation), Y(k) (index): P(k+1) and Y(k+1) from P(k), Y(k)"""
    def __init__(s,name,init,y0,stepf): s.name=name; s.init=init; s.y0=y0; s.stepf=stepf; s.un={}
    def raw(s,k,i): return s.init(i) if isc(k) and val(k)==0 else uf(8,s.name,k,i)
    def P(s,k,i):
        if k in s.un:
            p=s.un[k]; x,y,a,b=s.stepf(s,p)[:4]
            return ite(eq(i,y),a,ite(eq(i,x),b,s.raw(p,i)))
        return s.raw(k,i)
    def yraw(s,k): return s.y0 if isc(k) and val(k)==0 else uf(8,s.name+'_y',k)
    def Y(s,k): return s.stepf(s,s.un[k])[1] if k in s.un else s.yraw(k)
    def unfold(s,k): s.un[addc(k,1)]=k
def lay(): return layout('cry/arc4.h','struct cry_arc4_ctx',('s','x','y'))
class InvP(Inv):
    eager=True
    def __init__(s,m,P,extra=(),dst=None,out=None,inmem=False): s.m=m; s.P=P; s.extra=extra; s.dst=dst; s.out=out; s.inmem=inmem; s.name='k steps'+(' (indices in memory)' if inmem else '')
    def unfold(s,ex,st,k): 
        s.P.unfold(k)
        for r in s.extra: r.unfold(k)
    def phis(s,ex,st,k):
        y=s.P.Y(k); r=[]
        for e in [y]+[e.vec(k)[0] for e in s.extra]: r+=[e]+[zext(e,w) for w in (32,64) if e.w<w]
        return r
    def facts(s,ex,st,k): return [f(k) for f in s.m.facts]
    def mem(s,ex,st0,st,k):
        so=s.m.so; P=s.P
        ex.addlam(st,s.m.ctx,c64(so),c64(so+256),lambda ex,st2,o:P.P(k,ext(addc(o,-so),7,0)))
        r={s.m.ctx}
        if s.inmem: ex.store(st,Ptr(s.m.ctx,c64(s.m.xo)),add(s.m.x0,ext(k,7,0))); ex.store(st,Ptr(s.m.ctx,c64(s.m.yo)),s.P.Y(k))
        if s.dst is not None: ex.addlam(st,s.dst,c64(0),k,s.out); r.add(s.dst)
        return r
    def dontcare(s,ex,st,r,k): return None
class M_:
    def __init__(s,ex): 
        L=lay(); s.so=L['s'][0]; s.xo=L['x'][0]; s.yo=L['y'][0]; s.st=St(); s.ctx=ex.region(s.st,'ctx',L[''][1],ufbytes('ctx')); s.P=Ptr(s.ctx,c64(0)); s.facts=[]; s.wx=L['x'][1]
def t_key():
    ex=Ex(); m=M_(ex); st=m.st; n=zext(sym(9,'n'),64); st.add(ule(c64(1),n)); st.add(ule(n,c64(256))); key=ex.region(st,'key',n,ufbytes('key'),ro=True)
    I=Rec(ex,'I',1,lambda:[c64(0)],lambda k,v:[ite(eq(addc(v[0],1),n),c64(0),addc(v[0],1))],64) # index into the key: cyclic
    m.facts=[lambda k:ult(I.vec(k)[0],n)]
    def stepf(P,k):
        x=ext(k,7,0); a=P.raw(k,x); y=add(add(P.yraw(k),a),uf(8,'key',I.vec_raw(k)[0])); return x,y,a,P.raw(k,y)
    K=Perm('KS',lambda i:i,C(8,0),stepf)
    I32=I; ex.invs=[InvP(m,K,[I]),InvK32(m,K,I),Auto()]; nf=0
    for s2,_ in ex.call(st,'cry_arc4_key_set',[m.P,Ptr(key,c64(0)),n],top=True):
        if not ex.feasible(s2): continue
        nf+=1; i=zext(sym(8,'i'),64); g=ex.rbyte(s2,s2.mem[m.ctx],m.ctx,addc(i,m.so)); w=uf(8,'KS',c64(256),sym(8,'i'))
        ex.ob('ensures: permutation of the key',ex.same(s2,g,w),'%s, expected %s'%(g,w))
        for o in range(m.xo,m.xo+m.wx): ex.ob('ensures: x == 0',ex.same(s2,ex.rbyte(s2,s2.mem[m.ctx],m.ctx,c64(o)),C(8,0)))
        for o in range(m.yo,m.yo+m.wx): ex.ob('ensures: y == 0',ex.same(s2,ex.rbyte(s2,s2.mem[m.ctx],m.ctx,c64(o)),C(8,0)))
    ex.ob('reachable',nf>0)
class InvK32(InvP):
    """the key index is a 32 bit value"""
    def __init__(s,m,K,I): InvP.__init__(s,m,K,[I]); s.name+=', 32 bit key index'
    def phis(s,ex,st,k):
        y=s.P.Y(k); return [y,zext(y,32),zext(y,64),ext(s.extra[0].vec(k)[0],31,0)]
def t_crypt(inplace):
    ex=Ex(); m=M_(ex); st=m.st; N=zext(sym(46,'N'),64); src=ex.region(st,'data',N,ufbytes('data'),ro=not inplace); dst=src if inplace else ex.region(st,'out',N,ufbytes('out'))
    x0=m.x0=sym(8,'x0'); y0=sym(8,'y0'); s0=lambda i:uf(8,'s0',i)
    ex.addlam(st,m.ctx,c64(m.so),c64(m.so+256),lambda ex,st2,o:s0(ext(addc(o,-m.so),7,0)))
    z=[C(8,0)]*(m.wx-1); ex.storeb(st,Ptr(m.ctx,c64(m.xo)),[x0]+z); ex.storeb(st,Ptr(m.ctx,c64(m.yo)),[y0]+z)
    def stepf(P,k):
        x=add(x0,addc(ext(k,7,0),1)); a=P.raw(k,x); y=add(P.yraw(k),a); return x,y,a,P.raw(k,y)
    G=Perm('S',s0,y0,stepf)
    def ks(o): # key stream byte o: P(o+1)[a+b]
        x,y,a,b=stepf(G,o); i=add(a,b); return ite(eq(i,y),a,ite(eq(i,x),b,G.raw(o,i)))
    out=lambda ex,st,o:xor(uf(8,'data',o),ks(o))
    ex.invs=[InvP(m,G,(),dst,out),InvP(m,G,(),dst,out,True),Auto()]; nf=0
    for s2,_ in ex.call(st,'cry_arc4_crypt',[m.P,Ptr(dst,c64(0)),Ptr(src,c64(0)),N],top=True):
        if not ex.feasible(s2): continue
        nf+=1; ex.ensures(s2,dst,out,'ensures: output == data xor key stream',N)
        i=zext(sym(8,'i'),64); g=ex.rbyte(s2,s2.mem[m.ctx],m.ctx,addc(i,m.so)); w=G.raw(N,sym(8,'i')); ex.ob('ensures: permutation advanced',ex.same(s2,g,w),'%s, expected %s'%(g,w))
        g=ex.load(s2,Ptr(m.ctx,c64(m.xo)),8); ex.ob('ensures: x',ex.same(s2,g,add(x0,ext(N,7,0))),str(g)); g=ex.load(s2,Ptr(m.ctx,c64(m.yo)),8); ex.ob('ensures: y',ex.same(s2,g,G.yraw(N)),str(g))
    ex.ob('reachable',nf>0)
task('key_set',t_key); task('crypt, disjoint',t_crypt,False); task('crypt, in place',t_crypt,True)
