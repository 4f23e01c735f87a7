"""D03: ElGamal signatures."""
from ecl import *
def setup():
    ex=MEx(); w=World(ex); L=layout('cry/elgamal.h','struct cry_elgamal_ctx',('p','g','y','d')); ctx=w.struct('ctx',L,('p','g','y','d')); st=w.st
    p=w.v('ctx.p'); st.add(t_lt(const(2),p)); ex.primes.add(p)
    n=zext(sym(40,'len'),64); inb=ex.region(st,'in',n,ufbytes('in'),ro=True)
    return ex,w,ctx,Ptr(inb,c64(0)),n
def sig(w,nonneg):
    L=layout('cry/elgamal.h','struct cry_elgamal_sig',('r','s')); reg=w.ex.region(w.st,'sig',L[''][1],ufbytes('sig'))
    for f in 'rs': w.num('sig.'+f,inp('sig.'+f,nonneg),reg=reg,off=L[f][0])
    return Ptr(reg,c64(0))
def valid(ex,s2,res,p,g,y,r,s,n,data):
    """accepted exactly when the statement says so"""
    fits=not_(ult(nbytes(p),n)); m=bin_v(ex,s2,data,n)
    eqn=vmod(vmul(vexp(y,r),vexp(r,s)),p); e2=vmod(vexp(g,m),p)
    rng=z3.And(zv(r)>0,zv(r)<zv(p),zv(s)>=0)
    if ex.unsat(list(s2.pc)+[fits],[(rng,(r,p,s))]): ex.ob('ensures: out of range values are rejected',ex.proves(s2,not_(is0(res))),str(res)); return
    if not ex.ob('ensures: the length is checked',ex.proves(s2,fits)): return
    accepts(ex,s2,res,z3.And(rng,zv(eqn)==zv(e2)),(r,p,s,eqn,e2),'valid signature')
def t_verify2():
    ex,w,ctx,data,n=setup(); sg=sig(w,False); nf=0; p,g,y=(w.v('ctx.'+f) for f in 'pgy'); r,s=w.v('sig.r'),w.v('sig.s')
    for s2,res in ex.call(w.st,'cry_elgamal_verify2',[ctx,sg,data,n],top=True):
        if not ex.feasible(s2): continue
        nf+=1; w.valid(s2); w.unchanged(s2,list(w.before))
        if failed(s2): ex.ob('ensures: never accepted when an operation fails',ex.proves(s2,not_(is0(res))),str(res)); continue
        valid(ex,s2,res,p,g,y,r,s,n,data)
    ex.ob('reachable',nf>5)
def t_verify():
    ex,w,ctx,data,n=setup(); st=w.st; p,g,y=(w.v('ctx.'+f) for f in 'pgy'); nf=0; siz=nbytes(p); sg=ex.region(st,'sign',mul(siz,c64(2)),ufbytes('sign'),ro=True)
    for s2,res in ex.call(st,'cry_elgamal_verify',[ctx,Ptr(sg,c64(0)),data,n],top=True):
        if not ex.feasible(s2): continue
        nf+=1; w.valid(s2); w.unchanged(s2,list(w.before))
        if failed(s2): ex.ob('ensures: never accepted when an operation fails',ex.proves(s2,not_(is0(res))),str(res)); continue
        r=bin_v(ex,s2,Ptr(sg,c64(0)),siz); s=bin_v(ex,s2,Ptr(sg,siz),siz)
        valid(ex,s2,res,p,g,y,r,s,n,data)
    ex.ob('reachable',nf>5)
def signed(ex,w,s2,r,s,n,data):
    p,g,d=(w.v('ctx.'+f) for f in 'pgd'); t=vsub(p,ONE)
    ex.ob('ensures: the length is checked',ex.proves(s2,not_(ult(nbytes(p),n))))
    a=find_atom(r,lambda k,a:k=='exp' and a[0] is g)
    if not ex.ob('ensures: r is a power of g',a is not None,str(r)): return
    k=a[1]; z=bin_v(ex,s2,data,n); rr=vmod(vexp(g,k),p)
    ex.ob('ensures: k is random',find_atom(k,lambda kd,a:kd=='in' and str(a[0]).startswith('rand')) is not None,str(k))
    ex.ob('ensures: k is a unit',ex.proves(s2,t_cop(k,t)) or ex.holds(s2,zv(vgcd(k,t))==1,(vgcd(k,t),)),'%s %s'%(k,s2.pc))
    ex.ob('ensures: r',ex.veq(s2,r,rr),'%s, expected %s'%(r,rr)); es=vmod(vmul(vsub(z,vmul(d,rr)),vinv(k,t)),t)
    ex.ob('ensures: s',ex.veq(s2,s,es),'%s, expected %s'%(s,es))
def t_sign2():
    ex,w,ctx,data,n=setup(); sg=sig(w,True); nf=0
    for s2,res in ex.call(w.st,'cry_elgamal_sign2',[ctx,sg,data,n],top=True):
        if not ex.feasible(s2): continue
        w.valid(s2); w.unchanged(s2,[x for x in w.before if x.startswith('ctx')])
        if failed(s2): ex.ob('ensures: failure is reported',ex.proves(s2,not_(is0(res))),str(res)); continue
        if ex.proves(s2,not_(is0(res))): continue
        nf+=1; ex.ob('ensures: decided',ex.proves(s2,is0(res))); signed(ex,w,s2,w.after(s2,'sig.r'),w.after(s2,'sig.s'),n,data)
    ex.ob('reachable',nf>0)
def t_sign():
    ex,w,ctx,data,n=setup(); st=w.st; p=w.v('ctx.p'); nf=0; siz=nbytes(p); sg=ex.region(st,'sign',mul(siz,c64(2)),ufbytes('sign'))
    for s2,res in ex.call(st,'cry_elgamal_sign',[ctx,Ptr(sg,c64(0)),data,n],top=True):
        if not ex.feasible(s2): continue
        w.valid(s2); w.unchanged(s2,list(w.before))
        if failed(s2): ex.ob('ensures: failure is reported',ex.proves(s2,not_(is0(res))),str(res)); continue
        if ex.proves(s2,not_(is0(res))): continue
        nf+=1; ex.ob('ensures: decided',ex.proves(s2,is0(res)))
        ls=[L for L in s2.mem[sg].layers if hasattr(L,'bytesof')]
        if not ex.ob('ensures: both numbers are stored',len(ls)==2 and ex.same(s2,ls[0].lo,c64(0)) and ex.same(s2,ls[0].hi,siz) and ex.same(s2,ls[1].lo,siz) and ex.same(s2,ls[1].hi,mul(siz,c64(2))) and not s2.mem[sg].cells,str(ls)): continue
        signed(ex,w,s2,ls[0].bytesof,ls[1].bytesof,n,data)
    ex.ob('reachable',nf>0)
task('verify2',t_verify2); task('verify',t_verify); task('sign2',t_sign2); task('sign',t_sign)
