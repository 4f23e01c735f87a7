"""D05: key agreement."""
from ecl import *
# ---------------------------------------------------------------- finite field
def dh(w,name,p,g,secret,Y=None):
    L=layout('cry/dh.h','struct cry_dh_ctx',('p','g','e','Y','Z')); return w.struct(name,L,('p','g','e','Y','Z'),dict(p=p,g=g,e=secret,**({} if Y is None else dict(Y=Y))))
def okpath(ex,w,s2,res,changed,nf):
    w.valid(s2); w.unchanged(s2,[n for n in w.before if n not in changed])
    if failed(s2): ex.ob('ensures: failure is reported',ex.proves(s2,not_(is0(res))),str(res)); return False
    return True
def t_dh(fn,src,dst):
    ex=MEx(); w=World(ex); p,g,e=inp('p'),inp('g'),inp('e'); c=dh(w,'ctx',p,g,e); pos(w,'ctx.p'); nf=0
    for s2,res in ex.call(w.st,fn,[c],top=True):
        if not ex.feasible(s2): continue
        if not okpath(ex,w,s2,res,['ctx.'+dst],nf): continue
        nf+=1; ex.ob('ensures: success',ex.proves(s2,is0(res)),str(res)); x=w.after(s2,'ctx.'+dst); y=vmod(vexp(w.v('ctx.'+src),e),p); ex.ob('ensures: power of the base',ex.veq(s2,x,y),'%s, expected %s'%(x,y))
    ex.ob('reachable',nf>0)
def t_store(fn,src):
    ex=MEx(); w=World(ex); p,g,e=inp('p'),inp('g'),inp('e'); c=dh(w,'ctx',p,g,e); n=zext(sym(40,'n'),64); out=ex.region(w.st,'out',n,ufbytes('out')); nf=0
    for s2,res in ex.call(w.st,fn,[c,Ptr(out,c64(0)),n],top=True):
        if not ex.feasible(s2): continue
        nf+=1; w.valid(s2); w.unchanged(s2,list(w.before)); v=w.v('ctx.'+src)
        fits=not_(ult(n,nbytes(v)))
        if s2.ghost.get('nofit'): ex.ob('ensures: too long is reported',ex.proves(s2,not_(is0(res)))); continue
        ex.ob('ensures: success',ex.proves(s2,is0(res))); ex.ob('ensures: only what fits',ex.proves(s2,fits))
        ex.ensures(s2,out,lambda ex,st,o:byte_(v,sub(addc(n,-1),o)),'ensures: all bytes, most significant first')
    ex.ob('reachable',nf>1)
def t_set():
    ex=MEx(); w=World(ex); p,g,e=inp('p'),inp('g'),inp('e'); c=dh(w,'ctx',p,g,e); n=zext(sym(40,'n'),64); b=ex.region(w.st,'in',n,ufbytes('in'),ro=True); nf=0
    for s2,res in ex.call(w.st,'cry_dh_set_tok',[c,Ptr(b,c64(0)),n],top=True):
        if not ex.feasible(s2): continue
        if not okpath(ex,w,s2,res,['ctx.Y'],nf): continue
        nf+=1; ex.ob('ensures: success',ex.proves(s2,is0(res))); x=w.after(s2,'ctx.Y'); y=bin_v(ex,s2,Ptr(b,c64(0)),n); ex.ob('ensures: the value of the bytes',ex.veq(s2,x,y),'%s %s'%(x,y))
    ex.ob('reachable',nf>0)
def t_dh_both():
    """the whole exchange, in the memory of both parties"""
    ex=MEx(); w=World(ex); p,g,a,b=inp('p'),inp('g'),inp('a'),inp('b'); A=dh(w,'A',p,g,a); B=dh(w,'B',p,g,b); pos(w,'A.p'); n=zext(sym(40,'n'),64); w.st.add(not_(ult(n,nbytes(p))))
    ta=ex.region(w.st,'tokA',n,ufbytes('ta')); tb=ex.region(w.st,'tokB',n,ufbytes('tb')); st=w.st; seq=[('cry_dh_agree',[A]),('cry_dh_agree',[B]),('cry_dh_get_tok',[A,Ptr(ta,c64(0)),n]),('cry_dh_get_tok',[B,Ptr(tb,c64(0)),n]),('cry_dh_set_tok',[A,Ptr(tb,c64(0)),n]),('cry_dh_set_tok',[B,Ptr(ta,c64(0)),n]),('cry_dh_finalize',[A]),('cry_dh_finalize',[B])]
    live=[st]
    for fn,args in seq:
        nxt=[]
        for s in live:
            for s2,r in ex.call(s,fn,args,top=True):
                if failed(s2) or s2.ghost.get('nofit') or not ex.feasible(s2): continue
                nxt.append(s2)
        live=nxt
    ex.ob('reachable',len(live)>0); e=vmod(vexp(g,vmul(a,b)),p)
    for s2 in live:
        x,y=w.after(s2,'A.Z'),w.after(s2,'B.Z'); ex.ob('ensures: both parties hold the same secret',ex.veq(s2,x,y),'%s %s'%(x,y)); ex.ob('ensures: g to the product of the private values',ex.veq(s2,x,e),'%s, expected %s'%(x,e))
# ---------------------------------------------------------------- curves
def ecdh(w,name,d,vals):
    L=layout('cry/ecdh.h','struct cry_ecdh_ctx',('ec','d','q','z')); lay={'':L['']}
    g=grp_lay(L['ec'][0]); lay.update({'ec.'+k:v for k,v in g.items()}); lay['d']=L['d']; lay.update(pt_lay('q',L['q'][0])); lay.update(pt_lay('z',L['z'][0]))
    v={'d':d}; v.update({k:inp(k) for k in lay if k.startswith('ec.')}); v.update(vals or {}); return w.struct(name,lay,[k for k in lay if k],v)
def grp_(w,n): return (w.v(n+'.ec.p'),w.v(n+'.ec.a'))
def t_ecdh(fn,dst):
    ex=MEx(); ex.hooks.update(ECP); w=World(ex); d=inp('d'); c=ecdh(w,'c',d,None); nf=0; base=tuple(w.v('c.'+('ec.g.' if dst=='q' else 'q.')+f) for f in 'xyz')
    for s2,res in ex.call(w.st,fn,[c],top=True):
        if not ex.feasible(s2): continue
        if not okpath(ex,w,s2,res,['c.%s.%s'%(dst,f) for f in 'xyz'],nf): continue
        nf+=1; ex.ob('ensures: success',ex.proves(s2,is0(res))); e=point_of([(base,d)],grp_(w,'c'))
        for f,x in zip('xyz',e): y=w.after(s2,'c.%s.%s'%(dst,f)); ex.ob('ensures: multiple of the point',ex.veq(s2,x,y),'%s, expected %s'%(y,x))
    ex.ob('reachable',nf>0)
def t_ecdh_both():
    ex=MEx(); ex.hooks.update(ECP); w=World(ex); a,b=inp('a'),inp('b'); A=ecdh(w,'A',a,None); B=ecdh(w,'B',b,None); live=[w.st]; L=layout('cry/ecdh.h','struct cry_ecdh_ctx',('ec','d','q','z'))
    def step(live,fn,args):
        nxt=[]
        for s in live:
            for s2,r in ex.call(s,fn,args,top=True):
                if failed(s2) or not ex.feasible(s2): continue
                nxt.append(s2)
        return nxt
    for fn,args in (('cry_ecdh_agree',[A]),('cry_ecdh_agree',[B])): live=step(live,fn,args)
    for s in live: # the public values are exchanged
        qa=pt_vals(ex,s,Ptr(A.r,c64(L['q'][0]))); qb=pt_vals(ex,s,Ptr(B.r,c64(L['q'][0]))); setpt(ex,s,Ptr(A.r,c64(L['q'][0])),qb); setpt(ex,s,Ptr(B.r,c64(L['q'][0])),qa)
    for fn,args in (('cry_ecdh_final',[A]),('cry_ecdh_final',[B])): live=step(live,fn,args)
    ex.ob('reachable',len(live)>0); e=point_of([(tuple(w.v('A.ec.g.'+f) for f in 'xyz'),vmul(a,b))],grp_(w,'A'))
    for s2 in live:
        for i,f in enumerate('xyz'):
            x,y=w.after(s2,'A.z.'+f),w.after(s2,'B.z.'+f); ex.ob('ensures: both parties hold the same secret',ex.veq(s2,x,y),'%s %s'%(x,y)); ex.ob('ensures: product of the private values times the generator',ex.veq(s2,x,e[i]),'%s, expected %s'%(x,e[i]))
def t_init(kind):
    """init makes every number usable or releases everything; clear releases everything"""
    ex=MEx(); ex.hooks.update(ECP); w=World(ex); st=w.st; L=layout('cry/%s.h'%kind,'struct cry_%s_ctx'%kind,()); r=ex.region(st,'ctx',L[''][1],ufbytes('ctx')); p=Ptr(r,c64(0)); nf=0
    for s2,res in ex.call(st,'cry_%s_init'%kind,[p],top=True):
        if not ex.feasible(s2): continue
        if failed(s2): ex.ob('ensures: failure is reported',ex.proves(s2,not_(is0(res)))); ex.owned(s2); ex.ob('no-leak on failure',all(q in s2.freed for q in s2.mem if q.kind=='heap')); continue
        ex.ob('ensures: success',ex.proves(s2,is0(res))); ex.owned(s2)
        for s3,_ in ex.call(s2,'cry_%s_clear'%kind,[p],top=True): ex.noleak(s3); nf+=1
    ex.ob('reachable',nf>0)
task('dh agree',t_dh,'cry_dh_agree','g','Y'); task('dh finalize',t_dh,'cry_dh_finalize','Y','Z'); task('dh get_tok',t_store,'cry_dh_get_tok','Y'); task('dh get_sec',t_store,'cry_dh_get_sec','Z'); task('dh set_tok',t_set)
task('dh exchange',t_dh_both); task('ecdh agree',t_ecdh,'cry_ecdh_agree','q'); task('ecdh final',t_ecdh,'cry_ecdh_final','z'); task('ecdh exchange',t_ecdh_both); task('dh init',t_init,'dh'); task('ecdh init',t_init,'ecdh')
