"""M06: number-theoretic functions over the contracts of the arithmetic."""
from ecl import *
from nloops import NInv
import mval
mval.EXPAND=True
# ---------------------------------------------------------------- powers
def hi(e,t):
    """floor(e / 2^t)"""
    if isc(t) and val(t)==0: return e
    return atom('hi',e,t.id,nonneg=True)
def bit(e,j):
    d=uf(64,'dig!%d'%e.id,divrem('udiv',j,c64(64)))
    return ext(shift('lshr',d,divrem('urem',j,c64(64))),0,0)
class PowInv(NInv):
    """the accumulator is b^floor(e/2^t), t bits are left"""
    name='power of the leading bits'
    def __init__(s,b,e,m): s.b,s.e,s.m=b,e,m
    def val(s,X):
        x=vexp(s.b,X); return x if s.m is None else vmod(x,s.m)
    def roles(s,ex,st,mod,phis):
        out=[]
        for p,v in phis.items():
            if isinstance(v,T) and v.w==64:
                for k in mod: out.append(dict(t=p,acc=k))
        return out
    def gen(s,ex,st,role,mod,phis):
        role['told']=phis[role['t']]; return {role['acc']:s.val(hi(s.e,phis[role['t']]))}
    def check(s,ex,st,role,vals,phis,what):
        t=phis[role['t']]; x=vals[role['acc']]
        if what=='loop-init':
            ex.ob(what,ex.proves(st,eq(t,nbits_(s.e))),'the bits left: %s'%t); ex.ob(what,ex.veq(st,x,s.val(ZERO)),'%s'%x); return
        o=role['told']; ex.ob(what,ex.proves(st,eq(t,addc(o,-1))) and ex.proves(st,not_(eq(o,c64(0)))),'one bit per iteration: %s, before %s'%(t,o))
        b=bit(s.e,addc(o,-1)); v=known_bit(ex,st,b)
        if not ex.ob(what,v is not None,'the bit is not examined: %s'%(st.pc[-4:],)): return
        X=vadd(vscale(hi(s.e,o),2),const(v)); w=s.val(X)
        ex.ob(what,ex.veq(st,x,w),'accumulator %s, expected %s'%(x,w))
def known_bit(ex,st,b):
    """value of the bit on this path"""
    for c in reversed(st.pc):
        if not any(q.op=='uf' for q in fvs_set(c)): continue
        if Ex.unsat(ex.bv,[eq(c,not_(b))]): return 1
        if Ex.unsat(ex.bv,[eq(c,b)]): return 0
def setup(names,al,neg=()):
    ex=MEx(); w=World(ex); ex.bv=Ex(); ex.bv.probe=True; ps={}
    for n in names:
        o=al.get(n)
        ps[n]=ps[o] if o else w.num(n,inp(n,n not in neg))
    return ex,w,ps
def t_modexp(al,withm):
    ex,w,ps=setup(['b','e']+(['m'] if withm else [])+['r'],al,neg=() if 'b' in (al.get('e'),al.get('m')) else ('b',)); nf=0; V=lambda n:w.v(al.get(n,n)); m=V('m') if withm else None
    ex.hooks={k:v for k,v in ex.hooks.items() if k not in('cry_mpi_mod_exp','cry_mpi_exp')}
    ex.ninvs=[PowInv(V('b'),V('e'),m)]; fn='cry_mpi_mod_exp' if withm else 'cry_mpi_exp'
    for s2,res in ex.call(w.st,fn,[ps['r'],ps['b'],ps['e']]+([ps['m']] if withm else []),top=True):
        if not ex.feasible(s2): continue
        w.valid(s2); w.unchanged(s2,[n for n in w.before if n!=al.get('r','r')])
        if failed(s2): ex.ob('ensures: failure is reported',ex.proves(s2,not_(is0(res))),str(res)); continue
        if s2.ghost.get('divzero'): ex.ob('ensures: a zero modulus is an error',ex.proves(s2,not_(is0(res))) and ex.holds(s2,zv(m)==0,(m,))); continue
        nf+=1; ex.ob('ensures: success',ex.proves(s2,is0(res)),str(res)); x=w.after(s2,al.get('r','r')); y=vexp(V('b'),V('e')); y=y if m is None else vmod(y,m)
        # all bits are used: hi(e,0) = e
        x=mval.vsubst(x,lambda i:fix_hi(ex,s2,i)); ex.ob('ensures: the power',ex.veq(s2,x,y),'%s, expected %s (%s)'%(x,y,s2.pc[-3:]))
    ex.ob('reachable',nf>0)
def fix_hi(ex,st,i):
    k,a=mval._A[i]
    if k=='hi':
        t=[x for x in st.pc for x in fvs_set(x) if x.id==a[1]]
        if t and ex.proves(st,eq(t[0],c64(0))): return a[0]
    if any(isinstance(x,V) for x in a):
        b=[mval.vsubst(x,lambda j:fix_hi(ex,st,j)) if isinstance(x,V) else x for x in a]
        if k=='mod': return vmod(*b)
        if k=='exp': return vexp(*b)
def t_modexp_neg(which):
    """negative exponent or modulus"""
    ex,w,ps=setup(['b','e','m','r'],{},neg=('b','e','m')); ex.hooks={k:v for k,v in ex.hooks.items() if k not in('cry_mpi_mod_exp','cry_mpi_exp')}; w.st.add(t_neg(w.v(which))); nf=0
    for s2,res in ex.call(w.st,'cry_mpi_mod_exp',[ps['r'],ps['b'],ps['e'],ps['m']],top=True):
        if not ex.feasible(s2): continue
        nf+=1; w.valid(s2); w.unchanged(s2,list(w.before)); ex.ob('ensures: outside the domain is an error',ex.proves(s2,not_(is0(res))),str(res))
    ex.ob('reachable',nf>0)
for al in ({},{'r':'b'},{'r':'e'},{'e':'b'},{'e':'b','r':'b'}): task('exp %s'%al,t_modexp,al,False)
for al in ({},{'r':'b'},{'r':'e'},{'r':'m'},{'m':'b'},{'m':'e'}): task('mod_exp %s'%al,t_modexp,al,True)
for x in 'em': task('mod_exp, negative %s'%x,t_modexp_neg,x)
# ---------------------------------------------------------------- inverse
class EuclidInv(NInv):
    """r_i = s_i*a (mod m); gcd(r0,r1) = gcd(a,m); r1 >= 0"""
    name='extended Euclid'
    def __init__(s,a,m): s.a,s.m=a,m
    def roles(s,ex,st,mod,phis):
        V0={k:v for k,v in mod.items()}; import itertools
        A=[k for k,v in V0.items() if v is s.a]; Mm=[k for k,v in V0.items() if v is s.m]; o=[k for k,v in V0.items() if v is ONE]; z=[k for k,v in V0.items() if v is ZERO]
        return [dict(r0=a,r1=b,s0=c,s1=d) for a in A for b in Mm for c in o for d in z if a!=b]
    def gen(s,ex,st,role,mod,phis):
        n='%d'%len(mval._A); S0,S1,T0,T1=(freshv(q+n) for q in('s0','s1','t0','t1'))
        R0=vsub(vmul(S0,s.a),vmul(s.m,T0)); R1=vsub(vmul(S1,s.a),vmul(s.m,T1)); role['old']=(R0,R1)
        g=vgcd(R0,R1); st.add(t_fact(z3.And(zv(R1)>=0,z3.Or(zv(R1)>0,zv(R0)>=0),zv(g)==zv(vgcd(s.a,s.m))),(R0,R1,g,vgcd(s.a,s.m))))
        return {role['r0']:R0,role['r1']:R1,role['s0']:S0,role['s1']:S1}
    def check(s,ex,st,role,vals,phis,what):
        r0,r1,s0,s1=(unmod(vals[role[q]]) for q in('r0','r1','s0','s1'))
        for r,c in((r0,s0),(r1,s1)): ex.ob(what,reduce_(vsub(r,vmul(c,s.a)),s.m) is ZERO,'%s is not congruent to (%s)*a'%(r,c))
        v0,v1=vals[role['r0']],vals[role['r1']]; ex.ob(what,ex.holds(st,z3.And(zv(v1)>=0,z3.Or(zv(v1)>0,zv(v0)>=0)),(v0,v1)),'signs of %s, %s'%(v0,v1))
        if what=='loop-init': ex.ob(what,(r0 is s.a and r1 is s.m) or (r0 is s.m and r1 is s.a),'gcd'); return
        R0,R1=role['old']; q=vfdiv(R0,R1) # gcd(r1, r0 - q*r1) = gcd(r0,r1)
        ex.ob(what,(r0 is R1 and r1 is vsub(R0,vmul(q,R1))),'gcd: %s %s'%(r0,r1))
    def variant(s,ex,role,vals,phis): return zv(vals[role['r1']]),(vals[role['r1']],)
def gcd0(x,a):
    """gcd(v,0) = |v|"""
    p,q=a; g=[(z3.Implies(zv(q)==0,x==z3.If(zv(p)>=0,zv(p),-zv(p)))),(z3.Implies(zv(p)==0,x==z3.If(zv(q)>=0,zv(q),-zv(q)))),z3.Implies(z3.Or(zv(p)!=0,zv(q)!=0),x>0)]
    return g,[p,q]
mval.EXTRA['gcd']=gcd0
def t_inv(al,neg):
    ex,w,ps=setup(['a','m','r'],al,neg=('a',) if neg else ()); nf=ne=0; V=lambda n:w.v(al.get(n,n)); a,m=V('a'),V('m'); w.st.add(t_lt(ONE,m))
    if neg: w.st.add(t_neg(a))
    del ex.hooks['cry_mpi_inv']; ex.ninvs=[EuclidInv(a,m)]
    for s2,res in ex.call(w.st,'cry_mpi_inv',[ps['r'],ps['a'],ps['m']],top=True):
        if not ex.feasible(s2): continue
        w.valid(s2); w.unchanged(s2,[n for n in w.before if n!=al.get('r','r')])
        if failed(s2): ex.ob('ensures: failure is reported',ex.proves(s2,not_(is0(res))),str(res)); continue
        g=vgcd(a,m)
        if ex.proves(s2,is0(res)):
            nf+=1; x=w.after(s2,al.get('r','r')); y=unmod(x); ex.ob('ensures: an inverse is returned only if there is one',ex.holds(s2,zv(g)==1,(g,)))
            ex.ob('ensures: not negative',ex.holds(s2,zv(x)>=0,(x,)),str(x))
            # r0 = s0*a - m*t0 = 1 on this path
            sa=find_atom(y,lambda k,q:k=='in' and str(q[0]).startswith('s0'))
            if not ex.ob('ensures: cofactor',sa is not None,str(x)): continue
            R=[v for v in vals_in(s2) if reduce_(vsub(v,vmul(y,a)),m) is ZERO and ex.holds(s2,zv(v)==1,(v,))]
            ex.ob('ensures: a * r = 1 (mod m)',bool(R),'%s'%x)
        else:
            ne+=1; ex.ob('ensures: decided',ex.proves(s2,not_(is0(res)))); ex.ob('ensures: an error only if there is no inverse',ex.holds(s2,zv(g)!=1,(g,)),'%s'%(s2.pc[-5:],)); w.unchanged(s2,list(w.before))
    ex.ob('reachable',nf>0 and (ne>0 or neg))
def vals_in(st):
    out=[]
    for r in st.mem:
        if hasattr(r,'mag') and r.mag not in out: out.append(r.mag)
    return out
for al in ({},{'r':'a'},{'r':'m'}): task('inv %s'%al,t_inv,al,False); task('inv %s, negative'%al,t_inv,al,True)
# ---------------------------------------------------------------- lcm, random
def t_lcm(al):
    ex,w,ps=setup(['x','y','r'],al,neg=('x','y')); nf=0; V=lambda n:w.v(al.get(n,n)); x,y=V('x'),V('y')
    for s2,res in ex.call(w.st,'cry_mpi_lcm',[ps['r'],ps['x'],ps['y']],top=True):
        if not ex.feasible(s2): continue
        w.valid(s2); w.unchanged(s2,[n for n in w.before if n!=al.get('r','r')])
        if failed(s2): ex.ob('ensures: failure is reported',ex.proves(s2,not_(is0(res))),str(res)); continue
        if s2.ghost.get('divzero'): ex.ob('ensures: lcm(0,0) is an error',ex.proves(s2,not_(is0(res))) and ex.holds(s2,z3.And(zv(x)==0,zv(y)==0),(x,y,vgcd(x,y)))); continue
        nf+=1; ex.ob('ensures: success',ex.proves(s2,is0(res))); r=w.after(s2,al.get('r','r')); e=vfdiv(vmul(x,y),vgcd(x,y)); ex.ob('ensures: product divided by the gcd',ex.veq(s2,r,e) or ex.veq(s2,r,vabs(e)),'%s, expected %s'%(r,e))
    ex.ob('reachable',nf>0)
for al in ({},{'r':'x'},{'r':'y'},{'y':'x'}): task('lcm %s'%al,t_lcm,al)
def t_randrange():
    ex,w,ps=setup(['m','r'],{}); nf=0; m=w.v('m'); w.st.add(not_(t_zero(m))); del ex.hooks['cry_mpi_rand_range']
    for s2,res in ex.call(w.st,'cry_mpi_rand_range',[ps['r'],ps['m']],top=True):
        if not ex.feasible(s2): continue
        w.valid(s2); w.unchanged(s2,['m'])
        if failed(s2): ex.ob('ensures: failure is reported',ex.proves(s2,not_(is0(res))),str(res)); continue
        nf+=1; r=w.after(s2,'r'); ex.ob('ensures: success',ex.proves(s2,is0(res))); ex.ob('ensures: 0 <= r < max',ex.holds(s2,z3.And(zv(r)>=0,zv(r)<zv(m)),(r,m)),str(r))
        ex.ob('ensures: random',find_atom(r,lambda k,a:k=='in' and str(a[0]).startswith('rand')) is not None)
    ex.ob('reachable',nf>0)
task('rand_range',t_randrange)
# ---------------------------------------------------------------- gcd
def lsb(v): return sym(64,'lsb!%d'%v.id)
def p2(n): return atom('p2',n.id,nonneg=True)
def odd(v): return z3.Bool('odd!%d'%v.id)
def ex2(v,n):
    """v / 2^n, exactly"""
    return atom('ex2',v,n.id,nonneg=True)
def ex2_facts(x,a):
    v,n=a; me=ex2_of(v,n); return [z3.Implies(zv(v)>0,z3.And(x>=1,x<=zv(v))),z3.Implies(zv(v)==0,x==0)]+([odd(me)] if n==lsb(v).id else []),[v]
def ex2_of(v,n): return atom('ex2',v,n,nonneg=True)
def parts(v):
    i=mval.sole(v); return mval._A[i] if i is not None else (None,())
def gcd_facts(x,a):
    fs,ws=gcd0(x,a)
    for p,q in (a,a[::-1]):
        k,b=parts(p)
        if k=='fdiv' and b[1] is const(2): # gcd((u-w)/2, w) = gcd(u,w) when both are odd
            k2,c=parts(b[0]); d=c[0] if k2=='abs' else b[0]
            for u in (vadd(d,q),vadd(vneg(d),q)):
                g=vgcd(u,q); fs.append(z3.Implies(z3.And(odd(u),odd(q),zv(u)>=zv(q)),x==zv(g))); fs.append(z3.Implies(z3.And(odd(u),odd(q)),2*zv(p)==zv(b[0]))); ws.append(g)
    (k,b),(l,c)=parts(a[0]),parts(a[1])
    if k=='ex2' and l=='ex2':
        u,w=b[0],c[0]; g=vgcd(u,w)
        if b[1]==lsb(u).id and c[1]==lsb(w).id: fs.append(z3.Implies(z3.And(z3.Or(odd(u),odd(w)),zv(u)>0,zv(w)>0),x==zv(g))); ws.append(g)
    return fs,ws
mval.EXTRA['gcd']=gcd_facts; mval.EXTRA['ex2']=ex2_facts
class GcdInv(NInv):
    """gcd(x,y) is that of the numbers before the loop, y > 0, one of them is odd"""
    name='binary gcd'
    def roles(s,ex,st,mod,phis):
        ks=list(mod); return [dict(x=a,y=b) for a in ks for b in ks if a!=b]
    def fact(s,role,x,y): g=vgcd(x,y); return z3.And(zv(x)>=0,zv(y)>0,zv(g)==zv(role['g']),z3.Or(odd(x),odd(y))),(x,y,g,role['g'])
    def gen(s,ex,st,role,mod,phis):
        role['g']=vgcd(mod[role['x']],mod[role['y']]); st.ghost['g0']=role['g']; x,y=freshv('gx',True),freshv('gy',True); st.add(t_fact(*s.fact(role,x,y))); return {role['x']:x,role['y']:y}
    def check(s,ex,st,role,vals,phis,what):
        role.setdefault('g',vgcd(vals[role['x']],vals[role['y']])); f,vs=s.fact(role,vals[role['x']],vals[role['y']]); ex.ob(what,ex.holds(st,f,vs),'%s %s'%(vals[role['x']],vals[role['y']]))
    def variant(s,ex,role,vals,phis): v=vadd(vals[role['x']],vals[role['y']]); return zv(v),(v,)
class GEx(MEx):
    def symshift(s,st,v,n,right):
        if not right: return vmul(v,p2(n))
        if n is lsb(v): return ex2(v,n)
        if s.proves(st,ule(n,lsb(v))) : return ex2(v,n)
        raise Unsupported('shift by %s'%n)
def h_lsb(ex,st,args):
    v=ex.val(st,args[0]); ex.ob('requires: not zero',ex.holds(st,zv(v)!=0,(v,)),str(v)); st.add(ult(lsb(v),nbits_(v))); return [(st,lsb(v))]
def t_gcd(al):
    ex=GEx(); w=World(ex); nf=0; ps={}
    for n in('x','y','r'): ps[n]=ps[al[n]] if n in al else w.num(n,inp(n,False))
    V=lambda n:w.v(al.get(n,n)); x,y=V('x'),V('y'); del ex.hooks['cry_mpi_gcd']; ex.hooks['cry_mpi_lsb']=h_lsb; ex.ninvs=[GcdInv()]
    for s2,res in ex.call(w.st,'cry_mpi_gcd',[ps['r'],ps['x'],ps['y']],top=True):
        if not ex.feasible(s2): continue
        w.valid(s2); w.unchanged(s2,[n for n in w.before if n!=al.get('r','r')])
        if failed(s2): ex.ob('ensures: failure is reported',ex.proves(s2,not_(is0(res))),str(res)); continue
        nf+=1; ex.ob('ensures: success',ex.proves(s2,is0(res)),str(res)); r=w.after(s2,al.get('r','r')); ax,ay=vabs(x),vabs(y)
        if ex.holds(s2,z3.Or(zv(x)==0,zv(y)==0),(x,y)): ex.ob('ensures: gcd(v,0) = |v|',ex.holds(s2,zv(r)==zv(vadd(ax,ay)),(r,ax,ay)),str(r)); continue
        # |x| = 2^z*x1, |y| = 2^z*y1, g0 = gcd(x1,y1); the result must be 2^z*g0
        ok=False
        for n in {a.id:a for a in (lsb(ax),lsb(ay))}.values():
            if s2.ghost['g0'] is vgcd(ex2(ax,n),ex2(ay,n)) and ex.proves(s2,and_(ule(n,lsb(ax)),ule(n,lsb(ay)))):
                for t in vals_in(s2):
                    if vmul(t,p2(n)) is r and ex.veq(s2,t,s2.ghost['g0']): ok=True
        ex.ob('ensures: 2^z * gcd(x/2^z, y/2^z)',ok,'%s; %s'%(r,s2.ghost['g0']))
    ex.ob('reachable',nf>1)
for al in ({},{'r':'x'},{'r':'y'},{'y':'x'},{'y':'x','r':'x'}): task('gcd %s'%al,t_gcd,al)
# ---------------------------------------------------------------- square root
def newton(a,t,q,n,sq,B=None):
    """what one step n = floor((t+q)/2), q = floor(a/t) gives; sq: squares of t and n"""
    tt,nn=sq
    return [('bound',[],nn+2*n>=a),('strict',[n>q],nn+2*n>a),('smaller',[n>q],n<t),('root',[tt+2*t>a,n<=q],nn<=a),('positive',[a>=1],n>=1)]
def t_newton():
    """the facts about a Newton step hold for all integers"""
    ex=MEx(); a,t,q,n,B,rho,u,e=z3.Ints('a t q n B rho u e'); base=[t>=1,a>=0,a==t*q+rho,rho>=0,rho<t,q>=0,t+q==2*n+e,e>=0,e<=1,n>=0]
    def lemma(name,hyp,goal):
        s=z3.Solver(); s.set('timeout',60000); [s.add(h) for h in base+hyp]; s.add(z3.Not(goal)); ex.ob('lemma: '+name,s.check()==z3.unsat)
    for nm,h,g in newton(a,t,q,n,(t*t,n*n)): lemma(nm,h,g)
    lemma('first step',[B>=1,a==t*B+u,u>=0,u<B],n*n+2*n>a)
def step_of(a,n):
    """(t,q) when n = floor((t + floor(a/t))/2)"""
    k,b=parts(n)
    if k!='fdiv' or b[1] is not const(2): return
    s=b[0]
    for m,c in s.m:
        if c==1 and len(m)==1:
            q=mval._mk({m:1}); k2,d=parts(q)
            if k2=='fdiv' and d[0] is a and vadd(d[1],q) is s: return d[1],q
class SqrtInv(NInv):
    """t >= 1 and t^2 + 2t > a"""
    name='Newton'
    def __init__(s,a): s.a=a
    def roles(s,ex,st,mod,phis): return [dict(t=k) for k in mod]
    def fact(s,t): tt=vmul(t,t); return z3.And(zv(t)>=1,zv(tt)+2*zv(t)>zv(s.a)),(t,tt,s.a)
    def inst(s,ex,n,first=False):
        x=step_of(s.a,n)
        if x is None: return
        t,q=x; ex.zfacts+=[z3.Implies(z3.And(zv(t)>=1,zv(s.a)>=0,*h),g) for _,h,g in newton(zv(s.a),zv(t),zv(q),zv(n),(zv(vmul(t,t)),zv(vmul(n,n))))]
        k,b=parts(t)
        if k=='fdiv' and b[0] is s.a: ex.zfacts.append(z3.Implies(z3.And(zv(t)>=1,zv(b[1])>=1),zv(vmul(n,n))+2*zv(n)>zv(s.a)))
        if t is s.a: ex.zfacts.append(z3.Implies(zv(t)>=1,zv(vmul(n,n))+2*zv(n)>zv(s.a)))
    def gen(s,ex,st,role,mod,phis): t=freshv('t',True); st.add(t_fact(*s.fact(t))); return {role['t']:t}
    def check(s,ex,st,role,vals,phis,what): t=vals[role['t']]; s.inst(ex,t); f,vs=s.fact(t); ex.ob(what,ex.holds(st,f,vs),str(t))
    def variant(s,ex,role,vals,phis): return zv(vals[role['t']]),(vals[role['t']],)
def h_shrd(ex,st,args):
    v=ex.val(st,args[0]); n=args[1]; B=atom('p2d',n.id,nonneg=True); r=v if isc(n) and val(n)==0 else vfdiv(v,B); ex.setv(st,args[0],r); ex.zfacts.append(zv(B)>=1)
    if ex.proves(st,ult(n,used_(v))): st.add(not_(t_zero(r)))
    return [(st,C(32,0)),fail(ex,st,[args[0]])] if False else [(st,C(32,0))]
def t_sqrt(al):
    ex=MEx(); w=World(ex); nf=0; pa=w.num('a',inp('a')); pr=pa if al else w.num('r',inp('r')); a=w.v('a'); ex.hooks['cry_mpi_shrd']=h_shrd; inv=SqrtInv(a); ex.ninvs=[inv]
    for s2,res in ex.call(w.st,'cry_mpi_sqrt',[pr,pa],top=True):
        if not ex.feasible(s2): continue
        w.valid(s2)
        if not al: w.unchanged(s2,['a'])
        if failed(s2): ex.ob('ensures: failure is reported',ex.proves(s2,not_(is0(res))),str(res)); continue
        nf+=1; ex.ob('ensures: success',ex.proves(s2,is0(res)),str(res)); r=w.after(s2,'a' if al else 'r'); rr=vmul(r,r); inv.inst(ex,r)
        ex.ob('ensures: r^2 <= a < (r+1)^2',ex.holds(s2,z3.And(zv(r)>=0,zv(rr)<=zv(a),zv(rr)+2*zv(r)+1>zv(a)),(r,rr,a)),'%s %s'%(r,s2.pc[-3:]))
    ex.ob('reachable',nf>1)
def t_sqrt_neg():
    ex=MEx(); w=World(ex); pa=w.num('a',inp('a',False)); pr=w.num('r',inp('r')); w.st.add(t_neg(w.v('a'))); nf=0
    for s2,res in ex.call(w.st,'cry_mpi_sqrt',[pr,pa],top=True):
        if ex.feasible(s2): nf+=1; w.valid(s2); w.unchanged(s2,['a','r']); ex.ob('ensures: outside the domain is an error',ex.proves(s2,not_(is0(res))))
    ex.ob('reachable',nf>0)
task('Newton step',t_newton); task('sqrt',t_sqrt,False); task('sqrt in place',t_sqrt,True); task('sqrt of a negative number',t_sqrt_neg)
