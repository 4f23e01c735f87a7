"""W01: AES key wrap (RFC 3394) with AES as an arbitrary block function."""
from pv import *
from clib import *
A6=[C(8,0xA6)]*8
class Spec:
    """A(p,k): integrity register after k steps of pass p; R(p,b): 8 bytes of block b after p passes"""
    def __init__(s,n,a0,data,unwrap): s.n=n; s.a0=a0; s.data=data; s.u=unwrap; s.un=set(); s.unr={}; s.memo={}
    def t(s,p,b): # RFC 3394: t = n*j + i, i counted from one
        j=5-p if s.u else p; v=addc(add(mul(s.n,c64(j)),b),1); return [ext(v,8*(7-i)+7,8*(7-i)) for i in range(8)]
    def blk(s,k): return sub(addc(s.n,-1),k) if s.u else k      # block of step k, and back
    def raw(s,p,k):
        if isc(k) and val(k)==0: return s.a0 if p==0 else s.raw(p-1,s.n)
        return [uf(8,'A%d'%p,k,C(8,i)) for i in range(8)]
    def out(s,p,k):
        """output of the cipher at step k of pass p"""
        if (p,k) not in s.memo:
            b=s.blk(k); a=s.raw(p,k); r=s.R(p,b)
            if s.u: x=[xor(y,z) for y,z in zip(a,s.t(p,b))]+r; s.memo[p,k]=[E_('D',x,i) for i in range(16)]
            else: e=[E_('E',a+r,i) for i in range(16)]; s.memo[p,k]=[xor(y,z) for y,z in zip(e,s.t(p,b))]+e[8:]
        return s.memo[p,k]
    def A(s,p,k): return s.out(p,addc(k,-1))[:8] if (p,k) in s.un else s.raw(p,k)
    def R(s,p,b): return s.Ro(p,mul(b,c64(8)))
    def Ro(s,p,o):
        """the block at byte offset o"""
        if p==0: return s.data(o)
        if (p,o) in s.unr: return s.out(p-1,s.unr[p,o])[8:]
        return [uf(8,'R%d'%p,o,C(8,i)) for i in range(8)]
    def byte(s,p,o):
        j=ext(o,2,0)
        if isc(j): return s.Ro(p,addc(o,-val(j)))[val(j)]
        v=s.Ro(p,sub(o,zext(j,64))); r=v[0]
        for i in range(1,8): r=ite(eq(j,C(3,i)),v[i],r)
        return r
class Pass(Inv):
    def __init__(s,sp,p,out,base): s.sp=sp; s.p=p; s.out=out; s.base=base; s.exact=sp.n; s.name='pass %d'%p
    def unfold(s,ex,st,k): s.sp.un.add((s.p,addc(k,1))); s.sp.unr[s.p+1,mul(s.sp.blk(k),c64(8))]=k
    def applies(s,ex,f,h,env,st):
        want=s.sp.raw(s.p,c64(0)); s.locs=[]
        for r in list(st.mem):
            if r is not s.out and (r.kind!='alloca' or not isc(r.size) or not 8<=val(r.size)<=32): continue
            for o in range(0,8 if r is s.out else val(r.size)-7,8):
                if r is s.out and not s.base: continue
                b=ex.peek(st,Ptr(r,c64(o)),8)
                if all(x is y or (isinstance(x,T) and x.op=='uf'==y.op and x.a[0]==y.a[0] and ex.same(st,x,y)) for x,y in zip(b,want)): s.locs.append((r,o))
        return bool(s.locs)
    def mem(s,ex,st0,st,k):
        r=set(); n=s.sp.n; sp=s.sp
        if sp.u: lo,hi=mul(sub(n,k),c64(8)),mul(n,c64(8))
        else: lo,hi=c64(s.base),addc(mul(k,c64(8)),s.base)
        ex.addlam(st,s.out,lo,hi,lambda ex,st,o:sp.byte(s.p+1,addc(o,-s.base))); r.add(s.out)
        for g,o in s.locs:
            for i,x in enumerate(sp.A(s.p,k)): ex.wcont(st,g).cells[o+i]=x
            r.add(g)
        return r
    def facts(s,ex,st,k): return [ule(k,s.sp.n)]
def setup(unwrap):
    ex=Ex(); ex.short=9; st=St(); n=zext(sym(40,'n'),64); st.add(ule(c64(1),n)); ln=mul(n,c64(8)); ks=zext(sym(6,'ks'),64)
    src=ex.region(st,'in',addc(ln,8) if unwrap else ln,ufbytes('in'),ro=True); dst=ex.region(st,'out',ln if unwrap else addc(ln,8),ufbytes('out')); dst.gran=8; key=ex.region(st,'key',ks,ufbytes('key'),ro=True)
    def h_key(ex,st,args):
        ex.ob('ensures: the key is used',ex.sameptr(st,args[1],Ptr(key,c64(0))) and ex.same(st,args[2],ks),str(args)); st.ghost['key']=args[0]; return [(st,C(32,0))]
    def h_ciph(nm):
        def h(ex,st,args):
            c,d,p,m=args; ex.ob('requires: context with the key',st.ghost.get('key') is not None and ex.sameptr(st,c,st.ghost['key']),str(c)); ex.ob('requires: one block',isc(m) and val(m)==16,str(m)) 
            b=ex.load_bytes(st,p,16); ex.storeb(st,d,[E_(nm,b,i) for i in range(16)]); return [(st,None)]
        return h
    ex.hooks.update({'cry_aes_key_set':h_key,'cry_aes_encrypt':h_ciph('E'),'cry_aes_decrypt':h_ciph('D')})
    return ex,st,n,ln,ks,src,dst,key
def t_wrap():
    ex,st,n,ln,ks,src,dst,key=setup(False); sp=Spec(n,A6,lambda o:[uf(8,'in',addc(o,i)) for i in range(8)],False)
    ex.invs=[Pass(sp,p,dst,8) for p in range(6)]; nf=0
    for s2,v in ex.call(st,'cry_aes_wrap',[Ptr(dst,c64(0)),Ptr(src,c64(0)),ln,Ptr(key,c64(0)),ks],top=True):
        if not ex.feasible(s2): continue
        nf+=1; ex.ob('ensures: success',ex.same(s2,v,C(32,0)),str(v)); g=ex.peek(s2,Ptr(dst,c64(0)),8); w=sp.raw(5,n)
        for i in range(8): ex.ob('ensures: integrity register',ex.same(s2,g[i],w[i]),'%d: %s, expected %s'%(i,g[i],w[i]))
        def f(ex,st,o):
            c=ult(o,c64(8)); 
            if ex.proves(st,c): return ex.rbyte(st,s2.mem[dst],dst,o)
            return sp.byte(6,addc(o,-8))
        ex.ensures(s2,dst,f,'ensures: wrapped blocks',addc(ln,8))
    ex.ob('reachable',nf>0)
def t_unwrap():
    ex,st,n,ln,ks,src,dst,key=setup(True); sp=Spec(n,[uf(8,'in',c64(i)) for i in range(8)],lambda o:[uf(8,'in',addc(o,8+i)) for i in range(8)],True)
    ex.invs=[Pass(sp,p,dst,0) for p in range(6)]; nf=[0,0]
    for s2,v in ex.call(st,'cry_aes_unwrap',[Ptr(dst,c64(0)),Ptr(src,c64(0)),ln,Ptr(key,c64(0)),ks],top=True):
        if not ex.feasible(s2): continue
        a=sp.raw(5,n); good=and_(*[eq(x,A6[0]) for x in a])
        if ex.same(s2,v,C(32,0)):
            nf[0]+=1; ex.ob('ensures: accepted only with the expected integrity value',ex.proves(s2,good)); ex.ensures(s2,dst,lambda ex,st,o:sp.byte(6,o),'ensures: unwrapped blocks',ln)
        else:
            nf[1]+=1; ex.ob('ensures: error code',ex.proves(s2,not_(eq(v,C(32,0))))); ex.ob('ensures: rejected only with another integrity value',ex.proves(s2,not_(good)),str(s2.pc))
    ex.ob('reachable',nf[0]>0 and nf[1]>0)
def t_inv():
    """one step of unwrap inverts one step of wrap: with D(E(x)) = x (A01), for every register, block and t"""
    ex=Ex(); a=[sym(8,'a%d'%i) for i in range(8)]; r=[sym(8,'r%d'%i) for i in range(8)]; t=[sym(8,'t%d'%i) for i in range(8)]
    e=[E_('E',a+r,i) for i in range(16)]; A=[xor(x,y) for x,y in zip(e,t)]; R=e[8:]; x=[xor(y,z) for y,z in zip(A,t)]+R
    ex.ob('lemma: the cipher input of the inverse step is the cipher output of the step',all(p is q for p,q in zip(x,e)))
task('wrap',t_wrap); task('unwrap',t_unwrap); task('step inverse',t_inv)
