"""D01: DSA."""
from ecl import *
def setup():
    ex=MEx(); w=World(ex); L=layout('cry/dsa.h','struct cry_dsa_ctx',('p','q','g','pub','pvt')); ctx=w.struct('ctx',L,('p','q','g','pub','pvt')); st=w.st
    p,q=w.v('ctx.p'),w.v('ctx.q'); st.add(t_lt(ONE,p)); st.add(t_lt(ONE,q)); ex.primes|={p,q}
    n=zext(sym(40,'len'),64); inb=ex.region(st,'in',n,ufbytes('in'),ro=True)
    return ex,w,ctx,Ptr(inb,c64(0)),n
def sig(w,nonneg):
    L=layout('cry/dsa.h','struct cry_dsa_sig',('r','s')); reg=w.ex.region(w.st,'sig',L[''][1],ufbytes('sig'))
    for f in 'rs': w.num('sig.'+f,inp('sig.'+f,nonneg),reg=reg,off=L[f][0])
    return Ptr(reg,c64(0))
def digest(ex,w,s2,q,inp_,n):
    """the leftmost bytes of the digest, at most as many as q has"""
    nb=nbytes(q); c=ult(nb,n)
    if ex.proves(s2,c): return bin_v(ex,s2,inp_,nb)
    ex.ob('the length is compared with the size of q',ex.proves(s2,not_(c)),str(s2.pc)); return bin_v(ex,s2,inp_,n)
def t_verify():
    ex,w,ctx,data,n=setup(); sg=sig(w,False); nf=0; p,q,g,y=(w.v('ctx.'+f) for f in ('p','q','g','pub')); r,s=w.v('sig.r'),w.v('sig.s')
    for s2,res in ex.call(w.st,'cry_dsa_verify',[ctx,sg,data,n],top=True):
        if not ex.feasible(s2): continue
        nf+=1; w.valid(s2); w.unchanged(s2,list(w.before))
        if failed(s2): ex.ob('ensures: never accepted when an operation fails',ex.proves(s2,not_(is0(res))),str(res)); continue
        rng=z3.And(zv(r)>0,zv(r)<zv(q),zv(s)>0,zv(s)<zv(q))
        if ex.unsat(list(s2.pc),[(rng,(r,s,q))]): ex.ob('ensures: out of range values are rejected',ex.proves(s2,not_(is0(res))),str(res)); continue
        z=digest(ex,w,s2,q,data,n); wv=vinv(s,q); u1=vmod(vmul(z,wv),q); u2=vmod(vmul(r,wv),q); v=vmod(vmod(vmul(vexp(g,u1),vexp(y,u2)),p),q)
        accepts(ex,s2,res,z3.And(rng,zv(v)==zv(r)),(r,s,q,v),'valid signature')
    ex.ob('reachable',nf>5)
def t_sign():
    ex,w,ctx,data,n=setup(); sg=sig(w,True); nf=0; p,q,g,d=(w.v('ctx.'+f) for f in ('p','q','g','pvt'))
    for s2,res in ex.call(w.st,'cry_dsa_sign',[ctx,sg,data,n],top=True):
        if not ex.feasible(s2): continue
        w.valid(s2); w.unchanged(s2,[x for x in w.before if x.startswith('ctx')])
        if failed(s2): ex.ob('ensures: failure is reported',ex.proves(s2,not_(is0(res))),str(res)); continue
        r,s=w.after(s2,'sig.r'),w.after(s2,'sig.s')
        if ex.proves(s2,not_(is0(res))):
            ex.ob('ensures: refused only when r or s is zero',ex.holds(s2,z3.Or(zv(r)==0,zv(s)==0),(r,s)),'%s %s %s'%(r,s,s2.pc)); continue
        nf+=1; ex.ob('ensures: decided',ex.proves(s2,is0(res)))
        a=find_atom(r,lambda k,a:k=='exp' and a[0] is g)
        if not ex.ob('ensures: r is a power of g',a is not None,str(r)): continue
        k=a[1]; z=digest(ex,w,s2,q,data,n)
        ex.ob('ensures: 0 < k < q',ex.holds(s2,z3.And(zv(k)>0,zv(k)<zv(q)),(k,q)),str(k))
        ex.ob('ensures: k is random',any(x in ab for x in s2.ghost.get('rnd',()) for ab in [atoms_in(k)]),str(k))
        er=vmod(vmod(vexp(g,k),p),q); es=vmod(vmul(vinv(k,q),vadd(z,vmul(d,er))),q)
        ex.ob('ensures: r',ex.veq(s2,r,er),'%s, expected %s'%(r,er)); ex.ob('ensures: s',ex.veq(s2,s,es),'%s, expected %s'%(s,es))
        ex.ob('ensures: r and s are not zero',ex.holds(s2,z3.And(zv(r)>0,zv(s)>0),(r,s)))
    ex.ob('reachable',nf>0)
def atoms_in(v):
    out=[]; find_atom(v,lambda k,a:out.append(atom(k,*a)) and False); return out
task('verify',t_verify); task('sign',t_sign)
