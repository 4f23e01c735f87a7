"""G01: the generators."""
from clib import *
from p_B03 import be
TASKS.clear()
def glob(ex,st,src,name): return ex.glob(st,ir.module(src),name).r
# ------------------------------------------------------------------ AES counter generator
SA='src/prng/prng_aes.c'
class A:
    def __init__(s,ex):
        s.ex=ex; st=s.st=St(); L=s.L=layout_c(SA,'struct prng_bc_ctx',('aes','ix','ctr','lo'))
        s.ctx=glob(ex,st,SA,'prng_ctx'); s.init=glob(ex,st,SA,'init'); s.aes,s.ctr,s.lo,s.ix=L['aes'],L['ctr'],L['lo'],L['ix']
        st.mem[s.ctx]=Cont(); s.ctx.base=ufbytes('g')
        def enc(ex,st,args):
            c,d,p,n=args
            ex.ob('requires: the context of the generator, unchanged since seeding',c.r is s.ctx and isc(c.o) and val(c.o)==s.aes[0] and all(ex.rbyte(st,st.mem[s.ctx],s.ctx,c64(s.aes[0]+i)) is uf(8,'g',c64(s.aes[0]+i)) for i in range(s.aes[1])))
            return E(ex,st,[Ptr(ciph,c64(0)),d,p,n])
        E=h_block('E',16); ciph=Region('ciph',64,None,'arg'); ex.hooks['cry_aes_encrypt']=enc
    def put(s,st,c,ix):
        """next counter value c; ix bytes of the block before it have been given"""
        ex=s.ex; ex.store(st,s.P(s.ctr),cat(be(c,16)[::-1])); ex.store(st,s.P(s.ix),c64(ix))
        if ix: ex.storeb(st,s.P(s.lo),[E_('E',be(addc(c,-1),16),i) for i in range(16)])
    def P(s,f): return Ptr(s.ctx,c64(f[0]))
def layout_c(src,struct,fields):
    return layout('%s/%s'%(ir.REPO,src),struct,fields)
class Blocks(Inv):
    """k blocks of the stream stored"""
    name='k blocks'
    def __init__(s,m,c,pos): s.m=m; s.c=c; s.pos=pos
    def cv(s,st0): return cat(s.m.ex.peek(st0,s.m.P(s.m.ctr),16))
    def mem(s,ex,st0,st,k):
        m=s.m; c=s.cv(st0); ex.storeb(st,m.P(m.ctr),be(add(c,zext(k,128)),16)); p0=c64(s.pos)
        def f(ex,st2,o):
            x=sub(o,p0); b,j=udm(x,16); return E_('E',be(add(c,zext(lshr(b,4),128)),16),val(j) if isc(j) else zext(j,8))
        ex.addlam(st,m.buf,p0,add(p0,mul(k,c64(16))),f); return {m.ctx,m.buf}
def t_rand(ix,seeded):
    ex=Ex(XORS); ex.forksel=True; ex.summaries=[IncBE()]; m=A(ex); st=m.st; c=sym(128,'c') if seeded else C(128,0); N=zext(sym(44,'N'),64); m.buf=ex.region(st,'buf',N,ufbytes('buf')); m.buf.gran=16
    ex.store(st,Ptr(m.init,c64(0)),C(32,1 if seeded else 0))
    if seeded: m.put(st,c,ix)
    else:
        def ini(ex,st,args):
            ex.ob('requires: default seed',isinstance(args[0],Ptr) and args[0].r is None and isc(args[1]) and val(args[1])==0); m.put(st,C(128,0),0); ex.store(st,Ptr(m.init,c64(0)),C(32,1)); return [(st,C(32,0))]
        ex.hooks['cry_prng_aes_init']=ini
    res=(16-ix)%16; ex.invs=[Blocks(m,c,res),Auto()]
    base=addc(c,-1) if ix else c
    def stream(o):
        b,j=udm(addc(o,ix),16); return E_('E',be(add(base,zext(lshr(b,4),128)),16),val(j) if isc(j) else zext(j,8))
    nf=0
    for s2,v in ex.call(st,'cry_prng_aes_rand',[Ptr(m.buf,c64(0)),N],top=True):
        if not ex.feasible(s2): continue
        ex.ob('ensures: success',isc(v) and val(v)==0); ex.ensures(s2,m.buf,lambda ex,st,o:stream(o),'ensures: bytes of the counter stream',N)
        for t in range(16): # bytes given of the last block
            s3=s2.fork(); s3.add(eq(ext(addc(N,ix),3,0),C(4,t)))
            if not ex.feasible(s3): continue
            nf+=1; g=ex.load(s3,m.P(m.ix),64); ex.ob('ensures: residual index',ex.same(s3,g,c64(t)),'%s, expected %d'%(g,t))
            nb=lshr(addc(N,ix+15 if t or True else 0),4); c1=add(base,zext(nb,128)); g=ex.peek(s3,m.P(m.ctr),16); w=be(c1,16)
            for i in range(16): ex.ob('ensures: counter',ex.same(s3,g[i],w[i]),'%s, expected %s'%(g[i],w[i]))
            if t:
                g=ex.peek(s3,m.P(m.lo),16)
                for i in range(t,16): w=E_('E',be(addc(c1,-1),16),i); ex.ob('ensures: residual block',ex.same(s3,g[i],w),'%s, expected %s'%(g[i],w))
            for i in range(m.aes[1]): ex.ob('frame: key',ex.rbyte(s3,s3.mem[m.ctx],m.ctx,c64(m.aes[0]+i)) is uf(8,'g',c64(m.aes[0]+i)))
            ex.ob('frame: seeded',ex.same(s3,ex.load(s3,Ptr(m.init,c64(0)),32),C(32,1)))
    ex.ob('reachable',nf>0)
def t_seed(null):
    ex=Ex(); m=A(ex); st=m.st; n=zext(sym(20,'n'),64) if not null else c64(0); seed=ex.region(st,'seed',n,ufbytes('seed'),ro=True); log=[]
    ex.forksel=True; sb=lambda i:ite(ult(c64(i),n),uf(8,'seed',c64(i)),C(8,0))
    def ks(ex,st,args):
        c,k,l=args; ex.ob('requires: context',c.r is m.ctx and isc(c.o) and val(c.o)==m.aes[0]); ex.ob('ensures: 16 byte key',isc(l) and val(l)==16); g=ex.load_bytes(st,k,16)
        for i in range(16): ex.ob('ensures: key from the seed',ex.same(st,g[i],sb(i)),str(g[i]))
        st.ghost['k']=1; return [(st,C(32,0))]
    ex.hooks['cry_aes_key_set']=ks; nf=0; ex.invs=[Auto()]
    for s2,v in ex.call(st,'cry_prng_aes_init',[NULL if null else Ptr(seed,c64(0)),n],top=True):
        if not ex.feasible(s2): continue
        nf+=1; ex.ob('ensures: key set once',s2.ghost.get('k')==1 and isc(v) and val(v)==0); g=ex.peek(s2,m.P(m.ctr),16)
        for i in range(16): ex.ob('ensures: counter from the seed',ex.same(s2,g[i],sb(16+i)),str(g[i]))
        ex.ob('ensures: no residual',ex.same(s2,ex.load(s2,m.P(m.ix),64),c64(0))); ex.ob('ensures: seeded',ex.same(s2,ex.load(s2,Ptr(m.init,c64(0)),32),C(32,1)))
    ex.ob('reachable',nf>0)
# ------------------------------------------------------------------ LFSR113
SL='src/prng/prng_lfsr113.c'
def lf_step(z):
    def f(z,a,b,msk,c): return xor(shl(and_(z,C(32,msk)),c),lshr(xor(shl(z,a),z),b))
    return [f(z[0],6,13,4294967294,18),f(z[1],2,27,4294967288,2),f(z[2],13,21,4294967280,7),f(z[3],3,12,4294967168,13)]
class L_:
    def __init__(s,ex):
        s.ex=ex; st=s.st=St(); s.z=glob(ex,st,SL,'z'); s.init=glob(ex,st,SL,'init'); s.z0=[sym(32,'z%d'%i) for i in range(4)]; s.Z=Rec(ex,'Z',4,lambda:s.z0,lambda k,v:lf_step(v),32)
    def put(s,st,v):
        for i,w in enumerate(v): s.ex.store(st,Ptr(s.z,c64(4*i)),w)
    def get(s,st): return [s.ex.load(st,Ptr(s.z,c64(4*i)),32) for i in range(4)]
class Words(Inv):
    name='k words'
    def __init__(s,m): s.m=m
    def unfold(s,ex,st,k): s.m.Z.unfold(k)
    def out(s,ex,st,o):
        s.m.Z.unfold(lshr(o,2)) if isc(ext(o,1,0)) else None
        z=lf_step(s.m.Z.vec(lshr(o,2))); w=xor(*z); j=ext(o,1,0); b=[ext(w,31-8*i,24-8*i) for i in range(4)]
        if isc(j): return b[val(j)]
        r=b[0]
        for i in range(1,4): r=ite(eq(j,C(2,i)),b[i],r)
        return r
    def mem(s,ex,st0,st,k):
        s.m.put(st,s.m.Z.vec(k)); ex.addlam(st,s.m.buf,c64(0),mul(k,c64(4)),s.out); return {s.m.z,s.m.buf}
def t_lfsr(seeded):
    ex=Ex(); m=L_(ex); st=m.st; N=zext(sym(46,'N'),64); m.buf=ex.region(st,'buf',N,ufbytes('buf')); m.buf.gran=4; ex.store(st,Ptr(m.init,c64(0)),C(32,1 if seeded else 0))
    if seeded: m.put(st,m.z0)
    else:
        def ini(ex,st,args): ex.ob('requires: default seed',args[0].r is None and isc(args[1]) and val(args[1])==0); m.put(st,m.z0); ex.store(st,Ptr(m.init,c64(0)),C(32,1)); return [(st,C(32,0))]
        ex.hooks['cry_prng_lfsr113_init']=ini
    inv=Words(m); ex.invs=[inv,Auto()]; nf=0
    for s2,v in ex.call(st,'cry_prng_lfsr113_rand',[Ptr(m.buf,c64(0)),N],top=True):
        if not ex.feasible(s2): continue
        ex.ob('ensures: success',isc(v) and val(v)==0)
        for t in range(4):
            s3=s2.fork(); s3.add(eq(ext(N,1,0),C(2,t)))
            if not ex.feasible(s3): continue
            nf+=1; q=lshr(N,2); m.Z.unfold(q); w=m.Z.vec(addc(q,1) if t else q); g=m.get(s3)
            for i in range(4): ex.ob('ensures: state advanced',ex.same(s3,g[i],w[i]),'%s, expected %s'%(g[i],w[i]))
            ex.ensures(s3,m.buf,inv.out,'ensures: bytes of the sequence',N)
    ex.ob('reachable',nf>=4)
class Fold(Inv):
    name='k bytes folded'
    def __init__(s,m,F): s.m=m; s.F=F
    def unfold(s,ex,st,k): s.F.unfold(k)
    def mem(s,ex,st0,st,k):
        v=s.F.vec(k); s.m.ex.storeb(st,Ptr(s.m.z,c64(0)),v); return {s.m.z}
def t_lseed(null):
    ex=Ex(); m=L_(ex); st=m.st; n=zext(sym(46,'n'),64) if not null else c64(0); seed=ex.region(st,'seed',n,ufbytes('seed'),ro=True); ex.forksel=False
    F=Rec(ex,'F',16,lambda:[C(8,0)]*16,lambda k,v:[ite(eq(ext(k,3,0),C(4,i)),xor(v[i],uf(8,'seed',k)),v[i]) for i in range(16)])
    ex.invs=[Fold(m,F),Auto()]; nf=0
    for s2,v in ex.call(st,'cry_prng_lfsr113_init',[NULL if null else Ptr(seed,c64(0)),n],top=True):
        if not ex.feasible(s2): continue
        nf+=1; f=F.vec(n); g=m.get(s2)
        for i,mn in enumerate((1,7,15,127)):
            w=cat(f[4*i:4*i+4][::-1]); w=ite(ule(w,C(32,mn)),C(32,987654321),w); ex.ob('ensures: state from the seed',ex.same(s2,g[i],w),'%s, expected %s'%(g[i],w))
        ex.ob('ensures: seeded',ex.same(s2,ex.load(s2,Ptr(m.init,c64(0)),32),C(32,1)) and isc(v) and val(v)==0)
    ex.ob('reachable',nf>0)
for ix in range(16): task('aes generator, %d bytes of the last block given'%ix,t_rand,ix,True)
task('aes generator, not seeded',t_rand,0,False); task('aes generator seed',t_seed,False); task('aes generator default seed',t_seed,True)
for s in (True,False): task('lfsr113, '+('seeded' if s else 'not seeded'),t_lfsr,s)
task('lfsr113 seed',t_lseed,False); task('lfsr113 default seed',t_lseed,True)
