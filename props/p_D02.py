"""D02: ECDSA."""
from ecl import *
def setup():
    ex=MEx(); ex.hooks.update(ECP); w=World(ex); L=layout('cry/ecdsa.h','struct cry_ecdsa_ctx',('grp','d','q')); lay={'':L['']}; lay.update({'grp.'+k:v for k,v in grp_lay(L['grp'][0]).items()}); lay['d']=L['d']; lay.update(pt_lay('q',L['q'][0]))
    c=w.struct('c',lay,[k for k in lay if k]); n=w.v('c.grp.n'); w.st.add(t_lt(ONE,n)); ex.primes.add(n)
    ln=zext(sym(40,'len'),64); b=ex.region(w.st,'in',ln,ufbytes('in'),ro=True); return ex,w,c,Ptr(b,c64(0)),ln
def sig(w,nonneg):
    L=layout('cry/ecdsa.h','struct cry_ecdsa_sig',('r','s')); reg=w.ex.region(w.st,'sig',L[''][1],ufbytes('sig'))
    for f in 'rs': w.num('sig.'+f,inp('sig.'+f,nonneg),reg=reg,off=L[f][0])
    return Ptr(reg,c64(0))
def digest(ex,s2,n,data,ln):
    nb=nbytes(n); c=ult(nb,ln)
    if ex.proves(s2,c): return bin_v(ex,s2,data,nb)
    ex.ob('the length is compared with the size of n',ex.proves(s2,not_(c)),str(s2.pc)); return bin_v(ex,s2,data,ln)
def G(w): return tuple(w.v('c.grp.g.'+f) for f in 'xyz')
def grp(w): return (w.v('c.grp.p'),w.v('c.grp.a'))
def t_verify():
    ex,w,c,data,ln=setup(); sg=sig(w,False); nf=0; n=w.v('c.grp.n'); Q=tuple(w.v('c.q.'+f) for f in 'xyz'); r,s=w.v('sig.r'),w.v('sig.s')
    for s2,res in ex.call(w.st,'cry_ecdsa_verify',[c,sg,data,ln],top=True):
        if not ex.feasible(s2): continue
        nf+=1; w.valid(s2); w.unchanged(s2,list(w.before))
        if failed(s2): ex.ob('ensures: never accepted when an operation fails',ex.proves(s2,not_(is0(res))),str(res)); continue
        rng=z3.And(zv(r)>0,zv(r)<zv(n),zv(s)>0,zv(s)<zv(n))
        if ex.unsat(list(s2.pc),[(rng,(r,s,n))]): ex.ob('ensures: out of range values are rejected',ex.proves(s2,not_(is0(res))),str(res)); continue
        z=digest(ex,s2,n,data,ln); wv=vinv(s,n); u1=vmod(vmul(z,wv),n); u2=vmod(vmul(r,wv),n); R=point_of([(G(w),u1),(Q,u2)],grp(w)); v=vmod(R[0],n)
        accepts(ex,s2,res,z3.And(rng,zv(R[2])!=0,zv(v)==zv(r)),(r,s,n,v,R[2]),'valid signature')
    ex.ob('reachable',nf>5)
def t_sign():
    ex,w,c,data,ln=setup(); sg=sig(w,True); nf=0; n=w.v('c.grp.n'); d=w.v('c.d')
    for s2,res in ex.call(w.st,'cry_ecdsa_sign',[c,sg,data,ln],top=True):
        if not ex.feasible(s2): continue
        w.valid(s2); w.unchanged(s2,[x for x in w.before if x.startswith('c.')])
        if failed(s2): ex.ob('ensures: failure is reported',ex.proves(s2,not_(is0(res))),str(res)); continue
        if s2.ghost.get('noinv'): ex.ob('ensures: refused',ex.proves(s2,not_(is0(res)))); continue
        r,s=w.after(s2,'sig.r'),w.after(s2,'sig.s')
        if ex.proves(s2,not_(is0(res))): ex.ob('ensures: refused only when r or s is zero',ex.holds(s2,z3.Or(zv(r)==0,zv(s)==0),(r,s)),'%s %s %s'%(r,s,s2.pc)); continue
        nf+=1; ex.ob('ensures: decided',ex.proves(s2,is0(res)))
        a=find_atom(r,lambda k,a:k=='ecx' and len(a)==6 and a[:3]==G(w))
        if not ex.ob('ensures: r comes from a multiple of the generator',a is not None,str(r)): continue
        k=a[3]; z=digest(ex,s2,n,data,ln); X=point_of([(G(w),k)],grp(w)); er=vmod(X[0],n); es=vmod(vmul(vinv(k,n),vadd(z,vmul(d,er))),n)
        ex.ob('ensures: 0 < k < n',ex.holds(s2,z3.And(zv(k)>0,zv(k)<zv(n)),(k,n)),'%s %s'%(k,s2.pc))
        ex.ob('ensures: k is random',find_atom(k,lambda kd,a:kd=='in' and str(a[0]).startswith('rand')) is not None,str(k))
        ex.ob('ensures: r',ex.veq(s2,r,er),'%s, expected %s'%(r,er)); ex.ob('ensures: s',ex.veq(s2,s,es),'%s, expected %s'%(s,es))
        ex.ob('ensures: r and s are not zero',ex.holds(s2,z3.And(zv(r)>0,zv(s)>0),(r,s)))
    ex.ob('reachable',nf>0)
def t_keygen():
    ex,w,c,data,ln=setup(); nf=0; n=w.v('c.grp.n')
    for s2,res in ex.call(w.st,'cry_ecdsa_keygen',[c],top=True):
        if not ex.feasible(s2): continue
        w.valid(s2); w.unchanged(s2,[x for x in w.before if x!='c.d' and not x.startswith('c.q.')])
        if failed(s2): ex.ob('ensures: failure is reported',ex.proves(s2,not_(is0(res))),str(res)); continue
        nf+=1; ex.ob('ensures: success',ex.proves(s2,is0(res))); d=w.after(s2,'c.d'); e=point_of([(G(w),d)],grp(w))
        ex.ob('ensures: the private value is below the order',ex.holds(s2,z3.And(zv(d)>=0,zv(d)<zv(n)),(d,n))); ex.ob('ensures: random',find_atom(d,lambda kd,a:kd=='in' and str(a[0]).startswith('rand')) is not None)
        for f,x in zip('xyz',e): y=w.after(s2,'c.q.'+f); ex.ob('ensures: the public point is that multiple of the generator',ex.veq(s2,x,y),'%s, expected %s'%(y,x))
    ex.ob('reachable',nf>0)
def t_init():
    ex=MEx(); ex.hooks.update(ECP); w=World(ex); st=w.st; L=layout('cry/ecdsa.h','struct cry_ecdsa_ctx',()); r=ex.region(st,'ctx',L[''][1],ufbytes('ctx')); p=Ptr(r,c64(0)); nf=0
    for s2,res in ex.call(st,'cry_ecdsa_init',[p,C(32,M(32))],top=True):
        if not ex.feasible(s2): continue
        ex.owned(s2)
        if failed(s2): ex.ob('ensures: failure is reported',ex.proves(s2,not_(is0(res)))); ex.ob('no-leak on failure',all(q in s2.freed for q in s2.mem if q.kind=='heap')); continue
        ex.ob('ensures: success',ex.proves(s2,is0(res)))
        for s3,_ in ex.call(s2,'cry_ecdsa_clear',[p],top=True): ex.noleak(s3); nf+=1
    ex.ob('reachable',nf>0)
task('verify',t_verify); task('sign',t_sign); task('keygen',t_keygen); task('init',t_init)
