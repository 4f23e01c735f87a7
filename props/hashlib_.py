"""Contracts of the hash functions, shared by H01, H02."""
from pv import *
import terms
import hashspec as HS
from layout import layout
class TAlg:
    def const(s,w,v): return C(w,v)
    def add(s,w,*a): return add_l(w,[(1,x) for x in a])
    def xor(s,w,*a): return xor_l(w,list(a))
    def and_(s,w,a,b): return and_(a,b)
    def or_(s,w,a,b): return or_(a,b)
    def not_(s,w,a): return not_(a)
    def rotl(s,w,a,n): return rotl(a,n)
    def rotr(s,w,a,n): return rotl(a,w-n)
    def shr(s,w,a,n): return lshr(a,n)
    def be(s,b): return cat(list(b))
    def le(s,b): return cat(list(b)[::-1])
A=TAlg()
class H:
    def __init__(s,name,src,hdr,struct,fields,B,w,nw,le,out):
        s.name=name;s.src=src;s.B=B;s.w=w;s.nw=nw;s.le=le;s.out=out; s.lg=B.bit_length()-1
        s.struct=struct;s.hdr=hdr;s.fields=fields
    def lay(s): return layout(s.hdr,'struct '+s.struct,s.fields)
HASH={
 'md5':H('md5','src/hash/md5.c','cry/md5.h','cry_md5_ctx',('state','len','data'),64,32,4,True,16),
 'sha1':H('sha1','src/hash/sha1.c','cry/sha1.h','cry_sha1_ctx',('state','len','data'),64,32,5,False,20),
 'sha256':H('sha256','src/hash/sha256.c','cry/sha256.h','cry_sha256_ctx',('state','bitlen','datalen','data'),64,32,8,False,32),
 'sha512':H('sha512','src/hash/sha512.c','cry/sha512.h','cry_sha512_ctx',('state','len','data','is384'),128,64,8,False,64),
}
HASH['sha384']=H('sha384','src/hash/sha512.c','cry/sha512.h','cry_sha512_ctx',('state','len','data','is384'),128,64,8,False,48)
def comp_fn(h): return 'sha512' if h.name=='sha384' else h.name
def comp_uf(h,state,blk):
    return [uf(h.w,'comp_%s_%d'%(comp_fn(h),i),*(list(state)+list(blk))) for i in range(h.nw)]
def comp_spec(h,state,blk): return HS.COMP[comp_fn(h)][0](A,list(state),list(blk))
def word(bs): return cat(list(bs)[::-1]) # memory words are little endian on the target
def candidates(h):
    m=ir.module(h.src)
    return [f for f in m.fns.values() if f.internal and len(f.args)==2 and all(t.k=='ptr' for _,t in f.args)]
def compress(h,fname,sp=False,ex=None):
    """contract of the compression function: (state or context, block)"""
    sv=terms.DEEP; terms.DEEP=0 # slices of sums are atoms
    try: compress_(h,fname,sp,ex or Ex())
    finally: terms.DEEP=sv
def compress_(h,fname,sp,ex):
    st=St(); L=h.lay(); n=L[''][1]; so=L['state'][0]; wb=h.w//8
    ctx=ex.region(st,'ctx',n,ufbytes('ctx')); dat=ex.region(st,'blk',h.B,ufbytes('blk'),ro=True)
    S=[sym(h.w,'s%d'%i) for i in range(h.nw)]
    for i in range(h.nw): ex.store(st,Ptr(ctx,c64(so+wb*i)),S[i])
    before=dict(st.mem[ctx].cells)
    m=ir.module(h.src)
    rs=ex.call(st,fname,[Ptr(ctx,c64(so if sp else 0)),Ptr(dat,c64(0))],m,top=True)
    ex.ob('deterministic',len(rs)==1,'forks'); s2=rs[0][0]
    want=comp_spec(h,S,[uf(8,'blk',c64(i)) for i in range(h.B)])
    exp=Cont((),before)
    for i in range(h.nw):
        got=word(ex.peek(s2,Ptr(ctx,c64(so+wb*i)),wb))
        ok=got is want[i]
        if not ok and not getattr(ex,'probe',0): ok=not refuted(eq(got,want[i])) and ex.same(s2,got,want[i])
        ex.ob('ensures state == compression of the standard',ok,'%s word %d'%(fname,i))
        for j in range(wb): exp.cells[so+wb*i+j]=ext(got,8*j+7,8*j)
    ex.equal_content(s2,ctx,s2.mem[ctx],exp,'frame: rest of the context unchanged')
    ex.ob('frame: block unchanged',not s2.mem[dat].cells and not s2.mem[dat].layers)
_find={}
def find_compress(h):
    """the function of the module that satisfies the contract of the compression"""
    k=comp_fn(h)
    if k in _find: return _find[k]
    r=None
    for f in candidates(h):
        for sp in (False,True): # the first argument is the context, or its state
            ex=Ex(); ex.probe=True; ex.tent=True
            try: compress(h,f.name,sp,ex)
            except (Unsupported,Infeasible,Fail): continue
            r=(f.name,sp); break
        if r: break
    _find[k]=r; return r
def hook_compress(h,sp=False):
    L=h.lay(); so=0 if sp else L['state'][0]; wb=h.w//8
    def hook(ex,st,args):
        c,d=args; blk=ex.load_bytes(st,d,h.B)
        base=addc(c.o,so)
        S=[word(ex.load_bytes(st,Ptr(c.r,addc(base,wb*i)),wb)) for i in range(h.nw)]
        new=comp_uf(h,S,blk)
        for i in range(h.nw): ex.store(st,Ptr(c.r,addc(base,wb*i)),new[i])
        return [(st,None)]
    return hook
class Rep:
    """the context represents a message Msg[0..T)"""
    def __init__(s,ex,h,ctx,base=0,msg='Msg'):
        s.ex=ex;s.h=h;s.ctx=ctx;s.L=h.lay();s.base=base;s.msg=msg
    def Hs(s,q): return [uf(s.h.w,'H_%s_%d'%(s.msg,i),q) for i in range(s.h.nw)]
    def M(s,o): return uf(8,s.msg,o)
    def fact(s,q):
        """definition of H at q+1"""
        h=s.h; blk=[s.M(addc(mul(q,c64(h.B)),i)) for i in range(h.B)]
        return [eq(a,b) for a,b in zip(s.Hs(addc(q,1)),comp_uf(h,s.Hs(q),blk))]
    def lens(s,T_):
        """field contents for total length T_: list of (offset, term)"""
        h=s.h;L=s.L;n=h.name
        if n=='md5': b=shl(T_,3); return [(L['len'][0],ext(b,31,0)),(L['len'][0]+4,ext(b,63,32))]
        if n=='sha1': return [(L['len'][0],ext(T_,31,0)),(L['len'][0]+4,ext(T_,63,32))]
        if n=='sha256':
            w=8*L['datalen'][1]; return [(L['datalen'][0],zext(ext(T_,5,0),w)),(L['bitlen'][0],shl(lshr(T_,6),9))]
        return [(L['len'][0],T_),(L['len'][0]+8,c64(0))]
    def put(s,st,T_,q=None,left=None,lens=True):
        """write the representation of length T_ into the context"""
        ex=s.ex;h=s.h;L=s.L;b=s.base
        q=lshr(T_,h.lg) if q is None else q; left=zext(ext(T_,h.lg-1,0),64) if left is None else left
        do=b+L['data'][0]; ms=s
        ex.addlam(st,s.ctx,c64(do),addc(left,do),lambda ex,st2,o:ms.M(add(mul(q,c64(h.B)),addc(o,-do))))
        wb=h.w//8
        for i,x in enumerate(s.Hs(q)): ex.store(st,Ptr(s.ctx,c64(b+L['state'][0]+wb*i)),x)
        if not lens: return
        for o,t in s.lens(T_): ex.store(st,Ptr(s.ctx,c64(b+o)),t)
        if 'is384' in L: ex.store(st,Ptr(s.ctx,c64(b+L['is384'][0])),C(8*L['is384'][1],1 if h.name=='sha384' else 0))
    def check(s,st,T_,what):
        """the context represents length T_"""
        ex=s.ex;h=s.h;L=s.L;b=s.base; q=lshr(T_,h.lg); left=zext(ext(T_,h.lg-1,0),64); wb=h.w//8
        for i,x in enumerate(s.Hs(q)):
            g=word(ex.peek(st,Ptr(s.ctx,c64(b+L['state'][0]+wb*i)),wb)); ex.ob('ensures: chaining value',ex.same(st,g,x),'%s: word %d is %s, expected %s'%(what,i,g,x))
        for o,t in s.lens(T_):
            g=word(ex.peek(st,Ptr(s.ctx,c64(b+o)),t.w//8)); ex.ob('ensures: length counter',ex.same(st,g,t),'%s: field at %d: %s, expected %s'%(what,o,g,t))
        if 'is384' in L:
            o,n=L['is384']; g=word(ex.peek(st,Ptr(s.ctx,c64(b+o)),n)); ex.ob('frame: variant',ex.same(st,g,C(8*n,1 if h.name=='sha384' else 0)),what)
        if isc(left) and val(left)==0: return
        i=zext(fresh(h.lg,'i'),64); s2=st.fork(); s2.add(ult(i,left))
        if ex.feasible(s2):
            g=ex.rbyte(s2,s2.mem[s.ctx],s.ctx,addc(i,b+L['data'][0])); w=s.M(add(mul(q,c64(h.B)),i))
            ex.ob('ensures: buffered bytes',ex.same(s2,g,w),'%s: %s, expected %s'%(what,g,w))
class RepInv(Inv):
    """the context holds the chaining value and the buffered bytes of Msg[0..T0+k) (and the counters)"""
    def __init__(s,rep,T0,lens): s.rep=rep;s.T0=T0;s.lens=lens;s.name='context represents T+k bytes'+(' with counters' if lens else '')
    def mem(s,ex,st0,st,k):
        r=s.rep; h=r.h; t=add(s.T0,k); do=r.base+r.L['data'][0]; nm='stale%d'%id(s)
        ex.addlam(st,r.ctx,c64(do),c64(do+h.B),lambda ex,st2,o:uf(8,nm,k,o))
        r.put(st,t,lens=s.lens); return {r.ctx}
    def dontcare(s,ex,st,r,k):
        if r is not s.rep.ctx: return None
        h=s.rep.h; do=s.rep.base+s.rep.L['data'][0]; left=zext(ext(add(s.T0,k),h.lg-1,0),64)
        return lambda o:and_(ule(addc(left,do),o),ult(o,c64(do+h.B)))
    def phis(s,ex,st,k):
        l=ext(add(s.T0,k),s.rep.h.lg-1,0); return [zext(l,32),zext(l,64)]
    def unfold(s,ex,st,k):
        for c in s.rep.fact(lshr(add(s.T0,k),s.rep.h.lg)): st.add(c)
class StateInv(Inv):
    """whole blocks: the chaining value is H(q0+k), nothing else changes"""
    def __init__(s,rep,q0): s.rep=rep;s.q0=q0;s.name='chaining value is H(%s+k)'%q0
    def mem(s,ex,st0,st,k):
        r=s.rep; wb=r.h.w//8
        for i,x in enumerate(r.Hs(add(s.q0,k))): ex.store(st,Ptr(r.ctx,c64(r.base+r.L['state'][0]+wb*i)),x)
        return {r.ctx}
    def unfold(s,ex,st,k):
        for c in s.rep.fact(add(s.q0,k)): st.add(c)
