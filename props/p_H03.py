"""H03: CMAC with an arbitrary cipher of 16 byte blocks."""
from pv import *
from clib import *
B=16
def lay(): return layout('cry/cmac.h','struct cry_cmac_ctx',('ciph_ctx','ciph_itf','blklen','blk','mac'))
class M_:
    def __init__(s,bl):
        ex=s.ex=Ex(); st=s.st=St(); L=s.L=lay(); I=layout('cry/ciph.h','struct cry_ciph_itf',('init','clear','key_set','encrypt','decrypt'))
        s.ctx=ex.region(st,'ctx',L[''][1],ufbytes('ctx')); s.ciph=ex.region(st,'ciph',64,ufbytes('ciph')); s.itf=ex.region(st,'itf',I[''][1],None)
        for f in I:
            if f: ex.storeptr(st,Ptr(s.itf,c64(I[f][0])),FnPtr('ciph_'+f))
        s.itf.ro=s.ciph.ro=True; ex.hooks['ciph_encrypt']=h_block('E',B)
        if bl is None: return
        ex.storeptr(st,s.P('ciph_ctx'),Ptr(s.ciph,c64(0))); ex.storeptr(st,s.P('ciph_itf'),Ptr(s.itf,c64(0))); ex.store(st,s.P('blklen'),c64(bl))
        s.mac=[sym(8,'mac%d'%i) for i in range(B)]; s.blk=[sym(8,'blk%d'%i) for i in range(B)]; ex.storeb(st,s.P('mac'),s.mac); ex.storeb(st,s.P('blk'),s.blk)
    def P(s,f,i=0): return Ptr(s.ctx,c64(s.L[f][0]+i))
def t_init():
    m=M_(None); ex=m.ex; st=m.st; ks=zext(sym(6,'ks'),64); key=ex.region(st,'key',ks,ufbytes('key'),ro=True); nf=0
    def h(ex,st,a): st.ghost['log']=st.ghost.get('log',())+((a[0],a[1],a[2]),); return [(st,C(32,0))]
    ex.hooks['ciph_key_set']=h
    for s2,_ in ex.call(st,'cry_cmac_init',[Ptr(m.ctx,c64(0)),Ptr(m.ciph,c64(0)),Ptr(m.itf,c64(0)),Ptr(key,c64(0)),ks],top=True):
        nf+=1; l=s2.ghost.get('log',()); ex.ob('ensures: the key is handed to the cipher',len(l)==1 and l[0][0].r is m.ciph and ex.sameptr(s2,l[0][1],Ptr(key,c64(0))) and ex.same(s2,l[0][2],ks))
        ex.ob('ensures: empty message',ex.same(s2,ex.load(s2,m.P('blklen'),64),c64(0)))
        for b in ex.peek(s2,m.P('mac'),B): ex.ob('ensures: chaining value is zero',ex.same(s2,b,C(8,0)),str(b))
        ex.ob('ensures: cipher recorded',ex.sameptr(s2,ex.loadptr(s2,m.P('ciph_ctx')),Ptr(m.ciph,c64(0))) and ex.sameptr(s2,ex.loadptr(s2,m.P('ciph_itf')),Ptr(m.itf,c64(0))))
    ex.ob('reachable',nf>0)
class Chain(Inv):
    def __init__(s,m,S,base,n): s.m=m; s.S=S; s.b=base; s.n=n; s.name='chaining value after %d+k blocks'%base
    def unfold(s,ex,st,k): s.S.unfold(addc(k,s.b))
    def mem(s,ex,st0,st,k):
        for i,x in enumerate(s.S.vec(addc(k,s.b))): ex.wcont(st,s.m.ctx).cells[s.m.L['mac'][0]+i]=x
        return {s.m.ctx}
def t_update(b,r):
    """b pending bytes, 16q+r bytes of data"""
    m=M_(b); ex=m.ex; st=m.st; q=zext(sym(40,'q'),64); N=addc(mul(q,c64(B)),r); src=ex.region(st,'data',N,ufbytes('data'),ro=True)
    byte=lambda o:m.blk[val(o)] if isc(o) and val(o)<b else uf(8,'data',addc(o,-b))
    S=Rec(ex,'S',B,lambda:list(m.mac),lambda k,v:[E_('E',[xor(v[j],byte(addc(mul(k,c64(B)),j))) for j in range(B)],i) for i in range(B)])
    S.unfold(c64(0)); ex.invs=[Chain(m,S,0,q),Chain(m,S,1,q),Auto()]; nf=0
    for s2,_ in ex.call(st,'cry_cmac_update',[Ptr(m.ctx,c64(0)),Ptr(src,c64(0)),N],top=True):
        if not ex.feasible(s2): continue
        nf+=1; t=b+r; bl=ex.load(s2,m.P('blklen'),64); mac=ex.peek(s2,m.P('mac'),B)
        if t==0 and ex.proves(s2,eq(q,c64(0))): nb=0; done=c64(0)
        elif t==0: nb=B; done=addc(q,-1)
        else: nb=(t-1)%B+1; done=addc(q,(t-1)//B)
        ex.ob('ensures: number of pending bytes',ex.same(s2,bl,c64(nb)),'%s, expected %d'%(bl,nb))
        for i in range(B):
            w=None
            for c in (0,1):
                if ex.proves(s2,eq(done,c64(c))): w=S.vec(c64(c))[i]
            w=S.vec_raw(done)[i] if w is None else w
            ex.ob('ensures: chaining value',ex.same(s2,mac[i],w),'%s, expected %s'%(mac[i],w))
        g=ex.peek(s2,m.P('blk'),nb) if nb else []
        for i in range(nb):
            o=addc(mul(done,c64(B)),i); s3=s2
            w=byte(c64(i)) if ex.proves(s2,eq(done,c64(0))) else byte(o); ex.ob('ensures: pending bytes',ex.same(s2,g[i],w),'%d: %s, expected %s'%(i,g[i],w))
        ex.ob('frame: cipher recorded',ex.sameptr(s2,ex.loadptr(s2,m.P('ciph_ctx')),Ptr(m.ciph,c64(0))) and ex.sameptr(s2,ex.loadptr(s2,m.P('ciph_itf')),Ptr(m.itf,c64(0))))
    ex.ob('reachable',nf>0)
def dbl(k):
    v=cat(k); w=xor(shl(v,1),and_(rep(ext(v,127,127),128),C(128,0x87))); return [ext(w,8*(15-i)+7,8*(15-i)) for i in range(B)]
def t_digest(b):
    m=M_(b); ex=m.ex; st=m.st; out=ex.region(st,'out',B,ufbytes('out')); nf=0
    L=[E_('E',[C(8,0)]*B,i) for i in range(B)]; k1=dbl(L); k2=dbl(k1)
    last=[xor(x,y) for x,y in zip(m.blk,k1)] if b==B else [xor(x,y) for x,y in zip(m.blk[:b]+[C(8,0x80)]+[C(8,0)]*(B-1-b),k2)]
    w=[xor(x,y) for x,y in zip(m.mac,last)]
    for s2,_ in ex.call(st,'cry_cmac_digest',[Ptr(m.ctx,c64(0)),Ptr(out,c64(0))],top=True):
        if not ex.feasible(s2): continue
        nf+=1; g=ex.peek(s2,Ptr(out,c64(0)),B)
        for i in range(B):
            # the block handed to the cipher, then the cipher output
            ok=g[i].op=='uf' and g[i].a[0]=='E' and len(g[i].a[1])==B+1 and val(g[i].a[1][B])==i and all(ex.same(s2,x,y) for x,y in zip(g[i].a[1],w)) 
            ex.ob('ensures: tag',ok,'%d: %s'%(i,str(g[i])[:400]))
    ex.ob('reachable',nf>0)
task('init',t_init)
for b in range(B+1):
    task('digest, %d pending bytes'%b,t_digest,b)
    for r in range(B): task('update, %d pending bytes, length mod 16 == %d'%(b,r),t_update,b,r)
