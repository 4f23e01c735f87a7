"""H02: HMAC over an arbitrary hash function with 64 byte blocks (used through its contract, H01)."""
from pv import *
from layout import layout
def flat(segs):
    """message as a list of bytes and symbolic segments, adjacent bytes joined"""
    r=[]
    for x in segs: r.append(x)
    return tuple(r)
def H(segs,i): return uf(8,'H(%s)'%repr([s if isinstance(s,str) else s.id for s in segs]),C(8,i))
class Hash:
    """an arbitrary hash: the digest is a function of the concatenation of the data since init"""
    def __init__(s,ex,st,hl,optional=False):
        s.hl=hl; s.ctx=ex.region(st,'hash',64,ufbytes('hash')); I=layout('cry/hash.h','struct cry_hash_itf',('init','clear','update','digest')); s.itf=ex.region(st,'itf',I[''][1],None)
        for f in ('init','clear','update','digest'): ex.storeptr(st,Ptr(s.itf,c64(I[f][0])),NULL if optional and f=='clear' else FnPtr('hash_'+f)); ex.hooks['hash_'+f]=getattr(s,f)
        s.itf.ro=True; s.ctx.ro=True
    def mine(s,ex,p): ex.ob('requires: hash context',isinstance(p,Ptr) and p.r is s.ctx and isc(p.o) and val(p.o)==0,str(p))
    def init(s,ex,st,a): s.mine(ex,a[0]); st.ghost['msg']=(); return [(st,None)]
    def clear(s,ex,st,a): s.mine(ex,a[0]); st.ghost['msg']=None; return [(st,None)]
    def update(s,ex,st,a):
        s.mine(ex,a[0]); m=st.ghost.get('msg'); ex.ob('requires: hash initialised',m is not None)
        if m is None: raise Infeasible()
        p,n=a[1],a[2]
        if isc(n): st.ghost['msg']=m+tuple(ex.load_bytes(st,p,val(n)) if val(n) else ())
        else:
            if ex.brange(st,p,n,'load'): st.ghost['msg']=m+('%s+%s,%s'%(p.r.name,p.o,n),)
        return [(st,None)]
    def digest(s,ex,st,a):
        s.mine(ex,a[0]); m=st.ghost.get('msg'); ex.ob('requires: hash initialised',m is not None)
        if m is None: raise Infeasible()
        ex.storeb(st,a[1],[H(m,i) for i in range(s.hl)]); st.ghost['msg']=None; return [(st,None)]
def lay(): return layout('cry/hmac.h','struct cry_hmac_ctx',('hash_ctx','hash_itf','hash_len','key','key_len'))
def base(hl,opt=False):
    ex=Ex(); st=St(); L=lay(); h=Hash(ex,st,hl,opt); ctx=ex.region(st,'ctx',L[''][1],ufbytes('ctx')); return ex,st,L,h,ctx
def padded(k,x): return [xor(b,C(8,x)) for b in k+[C(8,0)]*(64-len(k))]
def t_init(kl,hl,opt):
    ex,st,L,h,ctx=base(hl,opt); P=lambda f,i=0:Ptr(ctx,c64(L[f][0]+i))
    if kl is None: n=zext(sym(44,'kl'),64); st.add(ult(c64(64),n)); ex.invs=[Auto()]
    else: n=c64(kl)
    key=ex.region(st,'key',n,ufbytes('key'),ro=True); K=[uf(8,'key',c64(i)) for i in range(kl)] if kl is not None else [H(('key+%s,%s'%(c64(0),n),),i) for i in range(hl)]; nf=0
    for s2,_ in ex.call(st,'cry_hmac_init',[Ptr(ctx,c64(0)),Ptr(h.ctx,c64(0)),Ptr(h.itf,c64(0)),c64(hl),Ptr(key,c64(0)),n],top=True):
        if not ex.feasible(s2): continue
        nf+=1; m=s2.ghost.get('msg'); w=padded(K,0x36)
        ex.ob('ensures: the inner hash has absorbed the padded key xor ipad',m is not None and len(m)==64 and all(isinstance(x,T) and ex.same(s2,x,y) for x,y in zip(m,w)),str(m)[:300])
        g=ex.load(s2,P('key_len'),64); ex.ob('ensures: key length',ex.same(s2,g,c64(len(K))),str(g))
        for i,b in enumerate(ex.peek(s2,P('key'),len(K))): ex.ob('ensures: key',ex.same(s2,b,K[i]),'%d: %s'%(i,b))
        ex.ob('ensures: hash recorded',ex.sameptr(s2,ex.loadptr(s2,P('hash_ctx')),Ptr(h.ctx,c64(0))) and ex.sameptr(s2,ex.loadptr(s2,P('hash_itf')),Ptr(h.itf,c64(0))) and ex.same(s2,ex.load(s2,P('hash_len'),64),c64(hl)))
    ex.ob('reachable',nf>0)
def ready(hl,kl,opt=False):
    ex,st,L,h,ctx=base(hl,opt); P=lambda f,i=0:Ptr(ctx,c64(L[f][0]+i)); K=[sym(8,'k%d'%i) for i in range(kl)]
    ex.storeptr(st,P('hash_ctx'),Ptr(h.ctx,c64(0))); ex.storeptr(st,P('hash_itf'),Ptr(h.itf,c64(0))); ex.store(st,P('hash_len'),c64(hl)); ex.store(st,P('key_len'),c64(kl)); 
    if kl: ex.storeb(st,P('key'),K)
    st.ghost['msg']=('M',); return ex,st,L,h,ctx,K
def t_update():
    ex,st,L,h,ctx,K=ready(20,16); n=zext(sym(44,'n'),64); src=ex.region(st,'in',n,ufbytes('in'),ro=True); ctx.ro=True; nf=0
    for s2,_ in ex.call(st,'cry_hmac_update',[Ptr(ctx,c64(0)),Ptr(src,c64(0)),n],top=True):
        nf+=1; m=s2.ghost.get('msg'); w=('M',) if ex.proves(s2,eq(n,c64(0))) else ('M','in+%s,%s'%(c64(0),n)); ex.ob('ensures: exactly the data is absorbed',m==w,str(m))
    ex.ob('reachable',nf>0)
def t_digest(kl,hl,opt):
    ex,st,L,h,ctx,K=ready(hl,kl,opt); mac=ex.region(st,'mac',hl,ufbytes('mac')); nf=0; w=tuple(padded(K,0x5c)+[H(('M',),i) for i in range(hl)])
    for s2,_ in ex.call(st,'cry_hmac_digest',[Ptr(ctx,c64(0)),Ptr(mac,c64(0))],top=True):
        nf+=1; g=ex.peek(s2,Ptr(mac,c64(0)),hl)
        for i in range(hl): ex.ob('ensures: H(K^opad || H(K^ipad || M))',g[i] is H(w,i),'%d: %s'%(i,str(g[i])[:300]))
    ex.ob('reachable',nf>0)
task('update',t_update)
for hl in (16,20,32):
    task('init, key longer than a block, digest of %d bytes'%hl,t_init,None,hl,False); task('init, key longer than a block, digest of %d bytes, no clear'%hl,t_init,None,hl,True)
for kl in range(65):
    hl=(16,20,32)[kl%3]
    task('init, key of %d bytes'%kl,t_init,kl,hl,kl%2==1)
    for hl in (16,20,32): task('digest of %d bytes, key of %d bytes'%(hl,kl),t_digest,kl,hl,kl%2==1)
