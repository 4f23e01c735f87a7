"""Contracts of the callees used through function pointers or proved elsewhere."""
from pv import *
from layout import layout
BIG=64 # longer ranges are described by functions of the offset
def E_(name,blk,i):
    """byte i of the block function `name` applied to a block"""
    return uf(8,name,*(list(blk)+[C(8,i) if isinstance(i,int) else ext(i,7,0)]))
def h_block(name,bl):
    """contract of encrypt/decrypt of a block cipher: whole blocks, src == dst or disjoint;
       every block of dst is the (arbitrary) function `name` of the block of src"""
    def hook(ex,st,args):
        c,d,p,n=args
        ex.ob('requires: cipher context',isinstance(c,Ptr) and c.r is not None and c.r.name=='ciph','%s'%c)
        if isc(n) and val(n)==0: return [(st,None)]
        al=eq(ext(n,bl.bit_length()-2,0),C(bl.bit_length()-1,0))
        ex.ob('requires: whole blocks',ex.proves(st,al),'size %s'%n)
        if isc(n) and val(n)<=BIG:
            b=ex.load_bytes(st,p,val(n))
            if d.r is p.r: ex.ob('requires: same or disjoint buffers',same_or_disjoint(ex,st,d,p,n),'%s %s'%(d,p))
            out=[]
            for k in range(0,val(n),bl): out+=[E_(name,b[k:k+bl],i) for i in range(bl)]
            ex.storeb(st,d,out); return [(st,None)]
        if not ex.brange(st,p,n,'load'): raise Unsupported('cipher source out of bounds')
        ex.brange(st,d,n,'store')
        if d.r is p.r: ex.ob('requires: same or disjoint buffers',same_or_disjoint(ex,st,d,p,n),'%s %s'%(d,p))
        snap=ex.cont(st,p.r); snap.shared=True; r=p.r; do=d.o; po=p.o; lg=bl.bit_length()-1
        def f(ex,st2,o):
            x=sub(o,do); j=ext(x,lg-1,0); b=sub(x,zext(j,64)) if not isc(j) else addc(x,-val(j))
            blk=[ex.rbyte(st2,snap,r,addc(add(po,b),i)) for i in range(bl)]
            return E_(name,blk,val(j) if isc(j) else zext(j,8))
        ex.addlam(st,d.r,do,add(do,n),f)
        return [(st,None)]
    return hook
def same_or_disjoint(ex,st,d,p,n):
    if d.o is p.o: return True
    return ex.proves(st,or_(or_(ule(add(p.o,n),d.o),ule(add(d.o,n),p.o)),eq(d.o,p.o)))
def h_memxor(ex,st,args):
    """contract of cry_memxor (proved in X01): dst[i] ^= src[i], original contents"""
    d,p,n=args
    if isc(n) and val(n)<=BIG:
        if val(n)==0: return [(st,None)]
        a=ex.load_bytes(st,d,val(n)); b=ex.load_bytes(st,p,val(n)); ex.storeb(st,d,[xor(x,y) for x,y in zip(a,b)]); return [(st,None)]
    return xor_lam(ex,st,d,d,p,n)
def h_memxor2(ex,st,args):
    """contract of cry_memxor2 (proved in X01): dst[i] = src1[i] ^ src2[i], original contents"""
    d,p,q,n=args
    if isc(n) and val(n)<=BIG:
        if val(n)==0: return [(st,None)]
        a=ex.load_bytes(st,p,val(n)); b=ex.load_bytes(st,q,val(n)); ex.storeb(st,d,[xor(x,y) for x,y in zip(a,b)]); return [(st,None)]
    return xor_lam(ex,st,d,p,q,n)
def xor_lam(ex,st,d,p,q,n):
    for x,w in ((p,'load'),(q,'load'),(d,'store')): ex.brange(st,x,n,w)
    cp=ex.cont(st,p.r); cp.shared=True; cq=ex.cont(st,q.r); cq.shared=True; rp,rq=p.r,q.r; dp=sub(p.o,d.o); dq=sub(q.o,d.o)
    ex.addlam(st,d.r,d.o,add(d.o,n),lambda ex,st2,o:xor(ex.rbyte(st2,cp,rp,add(o,dp)),ex.rbyte(st2,cq,rq,add(o,dq))))
    return [(st,None)]
XORS={'cry_memxor':h_memxor,'cry_memxor2':h_memxor2}
class Mode:
    """a block mode context driving an arbitrary cipher of block length bl"""
    def __init__(s,ex,hdr,struct,bl,ivfield,lenfield,enc='E',dec='D'):
        s.ex=ex; s.bl=bl; st=s.st=St()
        L=s.L=layout(hdr,'struct '+struct,('ciph_ctx','ciph_itf',ivfield,lenfield))
        I=layout('cry/ciph.h','struct cry_ciph_itf',('init','clear','key_set','encrypt','decrypt'))
        s.ivo=L[ivfield][0]; s.ivn=L[ivfield][1]; s.leno=L[lenfield][0]
        s.ctx=ex.region(st,'ctx',L[''][1],ufbytes('ctx')); s.ciph=ex.region(st,'ciph',64,ufbytes('ciph')); s.itf=ex.region(st,'itf',I[''][1],None)
        for f in ('init','clear','key_set','encrypt','decrypt'): ex.storeptr(st,Ptr(s.itf,c64(I[f][0])),FnPtr('ciph_'+f))
        s.itf.ro=True; s.ciph.ro=True
        ex.storeptr(st,Ptr(s.ctx,c64(L['ciph_ctx'][0])),Ptr(s.ciph,c64(0))); ex.storeptr(st,Ptr(s.ctx,c64(L['ciph_itf'][0])),Ptr(s.itf,c64(0)))
        ex.store(st,Ptr(s.ctx,c64(s.leno)),C(8*L[lenfield][1],bl))
        s.iv=[sym(8,'iv%d'%i) for i in range(bl)]; ex.storeb(st,Ptr(s.ctx,c64(s.ivo)),s.iv)
        ex.hooks['ciph_encrypt']=h_block(enc,bl); ex.hooks['ciph_decrypt']=h_block(dec,bl)
    def frame(s,st,what,extra=()):
        """everything of the context but the chaining value (and the fields of extra) is unchanged"""
        ex=s.ex; n=s.L[''][1]; c0=s.st0
        skip=set(range(s.ivo,s.ivo+s.bl))
        for o,k in extra: skip|=set(range(o,o+k))
        for o in range(n):
            if o in skip: continue
            a=ex.rbyte(st,st.mem[s.ctx],s.ctx,c64(o)); b=ex.rbyte(st,c0,s.ctx,c64(o))
            ok=a is b or (isinstance(a,PB) and isinstance(b,PB) and a.i==b.i and (a.p==b.p if isinstance(a.p,FnPtr) else ex.sameptr(st,a.p,b.p))) or (isinstance(a,T) and isinstance(b,T) and ex.same(st,a,b))
            ex.ob('frame: rest of the context',ok,'%s: offset %d'%(what,o))
    def buffers(s,inplace,blocks=True,nbits=44):
        """data and output of N blocks (or bytes)"""
        ex=s.ex; st=s.st; s.st0=st.mem[s.ctx]; s.st0.shared=True; s.inplace=inplace
        N=s.N=zext(sym(nbits,'N'),64); size=s.size=mul(N,c64(s.bl)) if blocks else N
        s.src=ex.region(st,'data',size,ufbytes('data'),ro=not inplace)
        s.dst=s.src if inplace else ex.region(st,'out',size,ufbytes('out'))
        st.add(ult(N,c64(1<<nbits))); s.src.gran=s.dst.gran=s.bl
        return Ptr(s.dst,c64(0)),Ptr(s.src,c64(0)),size
    def D(s,o): return uf(8,'data',o)
    def blk(s,o): return [s.D(addc(o,i)) for i in range(s.bl)]
def udm(o,bl):
    """offset -> (block offset, index in the block)"""
    lg=bl.bit_length()-1; j=ext(o,lg-1,0)
    return (addc(o,-val(j)) if isc(j) else sub(o,zext(j,64))),j
def chunk(steps,bl):
    """bytes processed per iteration: the largest step of a header value that is a multiple of the block"""
    r=[]
    for d in steps.values():
        if isinstance(d,T) and isc(d):
            v=val(d); v=(1<<d.w)-v if v>>(d.w-1) else v
            if v and v%bl==0: r.append(v)
    return max(r) if r else None
def t_setup(pre,hdr,struct,ivf,lenf,bl):
    """init, key_set, iv_set: cipher and interface recorded, key handed to the cipher, chaining value set"""
    ex=Ex(); ex.forksel=True; m=Mode(ex,hdr,struct,bl,ivf,lenf); st=m.st; log=[]
    def rec(n):
        def h(ex,st,args): st.ghost['log']=st.ghost.get('log',())+((n,)+tuple(args),); return [(st,C(32,0) if n=='key_set' else None)]
        return h
    for f in ('init','clear','key_set'): ex.hooks['ciph_'+f]=rec(f)
    iv=ex.region(st,'ivarg',bl,ufbytes('ivarg'),ro=True); key=ex.region(st,'key',32,ufbytes('key'),ro=True); ks=zext(sym(5,'ks'),64)
    st.mem[m.ctx]=Cont()   # arbitrary garbage
    P=lambda o=0:Ptr(m.ctx,c64(o))
    for s1,_ in ex.call(st,'cry_%s_init'%pre,[P(),Ptr(m.ciph,c64(0)),Ptr(m.itf,c64(0))],top=True):
        L=s1.ghost.get('log',()); ex.ob('ensures: cipher initialised once',len(L)==1 and L[0][0]=='init' and L[0][1].r is m.ciph,str(L))
        ex.ob('ensures: cipher recorded',ex.sameptr(s1,ex.loadptr(s1,P(m.L['ciph_ctx'][0])),Ptr(m.ciph,c64(0))) and ex.sameptr(s1,ex.loadptr(s1,P(m.L['ciph_itf'][0])),Ptr(m.itf,c64(0))))
        s1.ghost={}
        for s2,_ in ex.call(s1,'cry_%s_key_set'%pre,[P(),Ptr(key,c64(0)),ks],top=True):
            L=s2.ghost.get('log',()); ex.ob('ensures: the key is handed to the cipher',len(L)==1 and L[0][0]=='key_set' and L[0][1].r is m.ciph and ex.sameptr(s2,L[0][2],Ptr(key,c64(0))) and ex.same(s2,L[0][3],ks),str(L))
            for s3,_ in ex.call(s2,'cry_%s_iv_set'%pre,[P(),Ptr(iv,c64(0)),c64(bl)],top=True):
                if not ex.feasible(s3): continue
                g=ex.peek(s3,P(m.ivo),bl)
                for i in range(bl): ex.ob('ensures: chaining value',g[i] is uf(8,'ivarg',c64(i)),str(g[i]))
                l=ex.load(s3,P(m.leno),8*m.L[lenf][1]); ex.ob('ensures: block length',ex.same(s3,l,C(l.w,bl)),str(l))
                ex.ob('frame: cipher recorded',ex.sameptr(s3,ex.loadptr(s3,P(m.L['ciph_ctx'][0])),Ptr(m.ciph,c64(0))) and ex.sameptr(s3,ex.loadptr(s3,P(m.L['ciph_itf'][0])),Ptr(m.itf,c64(0))))
