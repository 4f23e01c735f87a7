"""H01: digests equal the standards for every message and every way of splitting it into updates."""
from hashlib_ import *
def setup(h,ex,left=None):
    st=St(); L=h.lay(); ctx=ex.region(st,'ctx',L[''][1],ufbytes('ctx')); rep=Rep(ex,h,ctx)
    q=zext(sym(61-h.lg-2,'q'),64); lf=zext(sym(h.lg,'left'),64) if left is None else c64(left)
    return st,ctx,rep,q,add(mul(q,c64(h.B)),lf),lf
def mkex(h,invs=()):
    f=find_compress(h)
    if f is None: raise Unsupported('no function satisfies the contract of the %s compression'%h.name)
    return Ex(contracts={f[0]:hook_compress(h,f[1])},invs=list(invs))
def t_compress(n):
    h=HASH[n]; f=find_compress(h)
    if f is None:
        for f in candidates(h): compress(h,f.name)
        raise Unsupported('no function satisfies the contract of the %s compression'%n)
    compress(h,*f)
def t_update(n,left=None):
    h=HASH[n]; ex=mkex(h); st,ctx,rep,q,T_,lf=setup(h,ex,left)
    N=zext(sym(48,'n'),64); dat=ex.region(st,'data',N,lambda o:rep.M(add(T_,o)),ro=True)
    if left is None: st.add(not_(eq(lf,c64(0)))) # the other case is left==0
    rep.put(st,T_,q,lf)
    for c in rep.fact(q): st.add(c)
    ex.invs=[RepInv(rep,T_,True),RepInv(rep,T_,False),StateInv(rep,q),StateInv(rep,addc(q,1)),Auto()]
    rs=ex.call(st,'cry_%s_update'%('sha512' if n=='sha384' else n),[Ptr(ctx,c64(0)),Ptr(dat,c64(0)),N],top=True); nf=0
    for s2,v in rs:
        if not ex.feasible(s2): continue
        nf+=1; rep.check(s2,add(T_,N),'update')
    ex.ob('reachable',nf>0)
def digest_bytes(h,words):
    out=[]
    for w in words:
        b=[ext(w,8*i+7,8*i) for i in range(h.w//8)]; out+=b if h.le else b[::-1]
    return out[:h.out]
def spec_final(h,rep,q,T_,left):
    msg=[rep.M(addc(mul(q,c64(h.B)),i)) for i in range(left)]+[C(8,0x80)]
    ll=16 if h.B==128 else 8
    while (len(msg)+ll)%h.B: msg.append(C(8,0))
    bl=shl(T_,3) if ll==8 else cat([C(61,0),T_,C(3,0)])
    b=[ext(bl,8*i+7,8*i) for i in range(ll)]; msg+=b if h.le else b[::-1]
    s=rep.Hs(q)
    for i in range(0,len(msg),h.B): s=comp_uf(h,s,msg[i:i+h.B])
    return digest_bytes(h,s)
def t_digest(n,lefts):
    h=HASH[n]; ex=mkex(h,[Auto()])
    for left in lefts:
        st,ctx,rep,q,T_,lf=setup(h,ex,left); rep.put(st,T_,q,lf)
        out=ex.region(st,'out',h.out,ufbytes('out'))
        rs=ex.call(st,'cry_%s_digest'%('sha512' if n=='sha384' else n),[Ptr(ctx,c64(0)),Ptr(out,c64(0))],top=True); nf=0
        for s2,v in rs:
            if not ex.feasible(s2): continue
            nf+=1; got=ex.peek(s2,Ptr(out,c64(0)),h.out); want=spec_final(h,rep,q,T_,left)
            for i in range(h.out): ex.ob('ensures digest == standard',ex.same(s2,got[i],want[i]),'%s with %d buffered bytes: byte %d: %s, expected %s'%(n,left,i,got[i],want[i]))
        ex.ob('reachable',nf>0)
def t_init(n):
    h=HASH[n]; ex=Ex(); st=St(); L=h.lay(); ctx=ex.region(st,'ctx',L[''][1],ufbytes('ctx')); rep=Rep(ex,h,ctx)
    args=[Ptr(ctx,c64(0))]
    if h.B==128: args.append(C(8,1 if n=='sha384' else 0))
    rs=ex.call(st,'cry_%s_init'%('sha512' if n=='sha384' else n),args,top=True)
    for s2,v in rs:
        for a,b in zip(rep.Hs(c64(0)),HS.IV[n]): s2.add(eq(a,C(h.w,b)))
        rep.check(s2,c64(0),'init')
    ex.ob('reachable',len(rs)>0)
def t_oneshot(n):
    """init, update, digest, clear over the contracts"""
    h=HASH[n]; base='sha512' if n=='sha384' else n; st=St(); N=zext(sym(48,'n'),64)
    def upd(ex,st,args):
        p,d,l=args; rep=st.ghost['rep']=Rep(ex,h,p.r); ex.ob('requires: context represents the empty message',isc(p.o) and val(p.o)==0)
        for a,b in zip(rep.Hs(c64(0)),HS.IV[n]): st.add(eq(a,C(h.w,b)))
        rep.check(st,c64(0),'update'); ex.ob('requires: whole message',ex.sameptr(st,d,Ptr(dat,c64(0))) and ex.same(st,l,N),'%s %s'%(d,l))
        rep.put(st,N); st.ghost['T']=N; return [(st,None)]
    def dig(ex,st,args):
        p,o=args; ok='rep' in st.ghost and p.r is st.ghost['rep'].ctx; ex.ob('requires: updated context',ok)
        if ok: st.ghost['rep'].check(st,N,'digest')
        ex.storeb(st,o,[uf(8,'DIGEST',N,C(8,i)) for i in range(h.out)]); return [(st,None)]
    ex=Ex(contracts={'cry_%s_update'%base:upd,'cry_%s_digest'%base:dig})
    dat=ex.region(st,'data',N,lambda o:uf(8,'Msg',o),ro=True); out=ex.region(st,'out',h.out,ufbytes('out'))
    rs=ex.call(st,'cry_'+n,[Ptr(out,c64(0)),Ptr(dat,c64(0)),N],top=True)
    for s2,v in rs:
        got=ex.peek(s2,Ptr(out,c64(0)),h.out)
        for i in range(h.out): ex.ob('ensures digest of the whole message',got[i] is uf(8,'DIGEST',N,C(8,i)),str(got[i]))
    ex.ob('reachable',len(rs)>0)
for n in HASH:
    if n!='sha384': task('%s compression'%n,t_compress,n)
    task('%s init'%n,t_init,n); task('%s update, empty buffer'%n,t_update,n,0); task('%s update, partial block buffered'%n,t_update,n); task('%s one-shot'%n,t_oneshot,n)
    B=HASH[n].B
    for i in range(0,B,16): task('%s digest, %d..%d buffered bytes'%(n,i,i+15),t_digest,n,range(i,i+16))
