"""P01: the group law."""
from ecl import *
class Curve:
    def __init__(s,ex):
        s.ex=ex; s.w=World(ex); s.EL=ecp_layout(); s.GL=grp_layout(); w=s.w
        lay={'':s.GL['']}
        for f in 'pabn': lay[f]=s.GL[f]
        for f in 'xyz': lay['g.'+f]=(s.GL['g'][0]+s.EL[f][0],32)
        s.grp=w.struct('grp',lay,list('pabn')+['g.x','g.y','g.z']); pos(w,'grp.p'); ex.primes.add(w.v('grp.p'))
    def point(s,name,vals=None): return s.w.struct(name,s.EL,'xyz',vals)
def affine(c,name):
    w=c.w; st=w.st; p=w.v('grp.p')
def spec_lambda(num,den,p): return vmul(num,vinv(den,p))
def dblcases(c,n):
    w=c.w; x,y,z=(w.v(n+'.'+f) for f in 'xyz'); p=w.v('grp.p'); a=w.v('grp.a')
    return [(t_zero(z),None),(t_zero(vmod(vscale(y,2),p)),None),(TRUE,(spec_lambda(vadd(vscale(vmul(x,x),3),a),vscale(y,2),p),x,x,y))]
def normal(c,n):
    """coordinates in [0,p), z is 0 or 1"""
    w=c.w; p=w.v('grp.p'); w.st.add(t_lt(w.v(n+'.x'),p)); w.st.add(t_lt(w.v(n+'.y'),p)); w.st.add(or_(t_zero(w.v(n+'.z')),t_eq(w.v(n+'.z'),ONE)))
def t_dbl(alias):
    ex=MEx(); c=Curve(ex); w=c.w; p1=c.point('P'); pr=p1 if alias else c.point('R'); nf=0; normal(c,'P')
    for s2,r in ex.call(w.st,'cry_ecp_dbl',[pr,p1,c.grp],top=True):
        if not ex.feasible(s2): continue
        res(ex,w,c,s2,r,'P' if alias else 'R',dblcases(c,'P')); nf+=1
    ex.ob('reachable',nf>2)
def t_add(al):
    """al: which operands coincide"""
    ex=MEx(); c=Curve(ex); w=c.w; nf=0; p1=c.point('P'); normal(c,'P'); n2='P' if 'p1==p2' in al else 'Q'
    if n2=='Q': p2=c.point('Q'); normal(c,'Q')
    else: p2=p1
    if 'r==p1' in al: rn='P'; pr=p1
    elif 'r==p2' in al: rn=n2; pr=p2
    else: rn='R'; pr=c.point('R')
    x1,y1,z1=(w.v('P.'+f) for f in 'xyz'); x2,y2,z2=(w.v(n2+'.'+f) for f in 'xyz'); p=w.v('grp.p')
    cs=[(t_zero(z1),('copy',x2,y2,z2)),(t_zero(z2),('copy',x1,y1,z1))]
    ex_=t_eq(x1,x2); ey=t_eq(y1,y2)
    cs+=[(and_(ex_,not_(ey)),None)]+[(and_(and_(ex_,ey),g),v) for g,v in dblcases(c,'P')]+[(TRUE,(spec_lambda(vsub(y2,y1),vsub(x2,x1),p),x1,x2,y1))]
    for s2,r in ex.call(w.st,'cry_ecp_add',[pr,p1,p2,c.grp],top=True):
        if not ex.feasible(s2): continue
        res(ex,w,c,s2,r,rn,cs); nf+=1
    ex.ob('reachable',nf>2)
def res(ex,w,c,s2,r,rn,cases):
    w.valid(s2); f=s2.ghost.get('failed'); w.unchanged(s2,[n for n in w.before if not n.startswith(rn+'.')])
    if f:
        ex.ob('ensures: failure is reported',ex.proves(s2,not_(eq(r,C(32,0)))),str(r)); return
    ex.ob('ensures: success',ex.proves(s2,eq(r,C(32,0))),str(r)); p=w.v('grp.p')
    rx,ry,rz=(w.after(s2,rn+'.'+q) for q in 'xyz'); st=s2
    for cnd,sp in cases:
        t=st.fork(); t.add(cnd)
        if not isc(cnd) or val(cnd):
            if ex.feasible(t):
                if sp is None: ex.ob('ensures: neutral element',ex.veq(t,rz,ZERO),str(rz))
                elif sp[0]=='copy':
                    for g,e in zip((rx,ry,rz),sp[1:]): ex.ob('ensures: the other point',ex.veq(t,rz,ZERO) or ex.veq(t,g,e),'%s, expected %s'%(g,e))
                else:
                    lam,x1,x2,y1=sp; x3=vmod(vsub(vsub(vmul(lam,lam),x1),x2),p); y3=vmod(vsub(vmul(lam,vsub(x1,x3)),y1),p)
                    ex.ob('ensures: affine result',ex.veq(t,rz,ONE),str(rz))
                    ex.ob('ensures: x of the group law',ex.veq(t,rx,x3),'%s, expected %s'%(rx,x3)); ex.ob('ensures: y of the group law',ex.veq(t,ry,y3),'%s, expected %s'%(ry,y3))
        if isc(cnd) and val(cnd): break
        st=st.fork(); st.add(not_(cnd))
task('dbl',t_dbl,False); task('dbl, in place',t_dbl,True)
for al in ('','r==p1','r==p2','p1==p2','r==p1 p1==p2'): task('add '+al,t_add,al)
