"""Execution of functions over big integers used through their contracts.

   A number object in memory is (sign, used, alloc, data): data points to an object that carries the value (mval.V).
   Contracts of the cry_mpi_* functions read the values of their operands and give the result object a new value;
   each may fail (no memory): the result object then holds some valid value and a non-zero code is returned."""
import z3
from terms import *
from ex import *
import ex as _ex
import lia
from mval import *
from layout import layout
def mpi_layout(): return layout('cry/mpi.h','struct cry_mpi',('sign','used','alloc','data'))
def used_(v):
    if isconst(v): return C(64,(abs(cval(v)).bit_length()+63)//64)
    return sym(64,'used!%d'%v.id)
def sgn_(v):
    if nonneg(v): return C(32,0)
    return sym(32,'sgn!%d'%v.id)
def nbits_(v):
    if isconst(v): return C(64,abs(cval(v)).bit_length())
    return sym(64,'nbits!%d'%v.id)
def cmp_(a,b):
    if a is b: return C(32,0)
    if isconst(a) and isconst(b): x,y=cval(a),cval(b); return C(32,(x>y)-(x<y))
    return sym(32,'cmp!%d!%d'%(a.id,b.id))
def t_zero(v): return eq(used_(v),C(64,0))
def t_lt(a,b): return slt(cmp_(a,b),C(32,0))
def t_eq(a,b): return eq(cmp_(a,b),C(32,0))
def t_neg(v): return eq(sgn_(v),C(32,1))
def t_cop(a,m): return sym(1,'cop!%d!%d'%(reduce_(a,m).id,m.id))
M64=1<<64
FACTS=[]
def t_fact(fm,vs=()):
    """a formula over integers as a condition"""
    FACTS.append((fm,tuple(vs))); return sym(1,'zf!%d'%(len(FACTS)-1))
def zlinks(terms):
    """facts that tie the symbols of number objects to integers"""
    vs=set(); out=[]; seen=set(); stk=list(terms); dig={}
    while stk:
        x=stk.pop()
        if x in seen: continue
        seen.add(x)
        if x.op=='sym':
            n=x.a[0].split('!')
            if n[0]=='used' and len(n)==2:
                v=byid(int(n[1])); u=lia.get(x)[0]; out+=[(u==0)==(zv(v)==0),u<(1<<50)]; vs.add(v)
                z=zv(vabs(v)); out+=[(u<=1)==(z<M64)]; vs.add(vabs(v))
            elif n[0]=='sgn' and len(n)==2:
                v=byid(int(n[1])); u=lia.get(x)[0]; out+=[z3.Or(u==0,u==1),(u==1)==(zv(v)<0)]; vs.add(v)
            elif n[0]=='nbits':
                v=byid(int(n[1])); u=lia.get(x)[0]; z=zv(vabs(v)); out+=[(u==0)==(z==0),u<(1<<55),(u<=1)==(z<=1)]; vs.add(vabs(v)); vs.add(v)
                us=used_(v)
                if not isc(us): w=lia.get(us)[0]; out+=[64*w>=u,u>64*w-64,w>=0,(w==0)==(z==0)]
            elif n[0]=='cmp':
                a,b=byid(int(n[1])),byid(int(n[2])); u=lia.get(x)[0]; za_,zb_=zv(a),zv(b)
                out.append(u==z3.If(za_<zb_,z3.IntVal(0xffffffff),z3.If(za_==zb_,z3.IntVal(0),z3.IntVal(1)))); vs.add(a); vs.add(b)
            elif n[0]=='zf': fm,fv=FACTS[int(n[1])]; out.append(lia._bool(x)==fm); vs|=set(fv)
        elif x.op=='uf' and x.a[0].startswith('dig!'):
            v=byid(int(x.a[0][4:])); i=x.a[1][0]
            if isc(i) and val(i)==0:
                d=lia.get(x)[0]; q=z3.Int('hi!%d'%v.id); z=zv(vabs(v)); out+=[z==M64*q+d,q>=0]; vs.add(vabs(v))
        stk.extend(children(x))
    return out+links(vs)
class MEx(Ex):
    """queries over the integers"""
    nomerge=True; forksel=True; ztime=4000
    def unsat(s,terms,extra=()):
        key=(frozenset(t.id for t in terms),tuple(str(e) for e in extra))
        r=s.cache.get(key)
        if r is not None: return r
        if not extra:
            ids=key[0]
            for t in terms:
                if (isc(t) and val(t)==0) or not_(t).id in ids: s.cache[key]=True; return True
        import time
        t0=time.time(); cs,_=lia.conv_all(terms); sv=z3.Solver(); sv.set('timeout',s.ztime)
        for c in cs: sv.add(c)
        ev=[e for e in extra]
        for c in zlinks(terms): sv.add(c)
        vs=set()
        for e in ev:
            if isinstance(e,tuple): vs|=set(e[1]); sv.add(e[0])
            else: sv.add(e)
        for c in links(vs): sv.add(c)
        for c in s.zfacts: sv.add(c)
        r=sv.check(); s.solver_time+=time.time()-t0; s.queries+=1
        r=(r==z3.unsat); s.cache[key]=r; return r
    def relevant(s,pc,t): return list(pc)
    def holds(s,st,f,vs=()):
        """the integer formula f over the values vs follows from the path"""
        return s.unsat(list(st.pc),[(z3.Not(f),tuple(vs))])
    def veq(s,st,a,b):
        if a is b: return True
        return s.holds(st,zv(a)==zv(b),(a,b))
    def __init__(s,*a,**k):
        Ex.__init__(s,*a,**k); s.ninvs=[]; s.L=mpi_layout(); s.zfacts=[]; s.primes=set(); s.hooks.update(CON)
    def loop(s,f,h,env,st,prev,stop):
        from nloops import ncut
        return ncut(s,f,h,env,st,prev,stop)
    def symshift(s,st,v,n,right): raise Unsupported('shift by a symbolic amount')
    # ------------------------------------------------------------ number objects
    def f(s,p,name): return Ptr(p.r,addc(p.o,s.L[name][0]))
    def newdig(s,v,owner='n'):
        s.nn+=1; r=Region('digits#%d'%s.nn,mul(used_(v),c64(8)),ufbytes('dig!%d'%v.id,64),'heap')
        if isconst(v) and cval(v):
            n=abs(cval(v)); k=(n.bit_length()+63)//64; r.base=lambda o,n=n:C(8,n>>(8*val(o))) if isc(o) else uf(8,'digc!%d'%n,o)
        r.mag=v; return r
    def wr(s,st,p,v,reg):
        s.store(st,s.f(p,'sign'),sgn_(v)); s.store(st,s.f(p,'used'),used_(v)); s.store(st,s.f(p,'alloc'),fresh_alloc(s,st,v)); s.storeptr(st,s.f(p,'data'),Ptr(reg,c64(0)))
    def new(s,st,p,v):
        """an initialised number at p"""
        r=s.newdig(v); st.mem[r]=Cont(); s.wr(st,p,v,r); return r
    def val(s,st,p,what='operand'):
        """value of the number at p"""
        s.bounds(st,p,s.L[''][1],'load'); pt=s.loadptr(st,s.f(p,'data')); u=s.load(st,s.f(p,'used'),64); sg=s.load(st,s.f(p,'sign'),32)
        if isinstance(pt,Ptr) and pt.r is not None and pt.r in st.freed: s.ob('no-use-after-free',False,'%s in %s'%(pt,s.where)); raise Infeasible()
        if isc(u) and val(u)==0: v=ZERO
        elif pt.r is None: s.ob('valid number',False,'%s without digits in %s'%(what,s.where)); raise Infeasible()
        elif hasattr(pt.r,'mag') and isc(pt.o) and val(pt.o)==0 and not differs_(st.mem[pt.r]):
            v=pt.r.mag
            if u is not used_(v) and not s.same(st,u,used_(v)): raise Unsupported('number with %s digits of %s'%(u,v))
        elif isc(u) and val(u)<=9:
            b=s.load_bytes(st,pt,8*val(u)); x=s.join(b,64*val(u))
            if not isc(x): 
                if val(u)==1: v=atom('dig',x.id,nonneg=True)
                else: raise Unsupported('number made of symbolic digits')
            else: v=const(val(x))
        else: raise Unsupported('number that is not described by a value in %s'%s.where)
        w=sgn_(v)
        if sg is w: return v
        if s.proves(st,eq(sg,C(32,0))): return v if s.holds(st,zv(v)>=0,(v,)) else vneg(v) if s.holds(st,zv(v)<=0,(v,)) else vabs(v)
        if s.proves(st,eq(sg,C(32,1))):
            ok=s.holds(st,zv(v)!=0,(v,))
            s.ob('normalized: zero is not negative',ok,'%s in %s'%(v,s.where))
            return v if s.holds(st,zv(v)<=0,(v,)) else vneg(v) if s.holds(st,zv(v)>=0,(v,)) else vneg(vabs(v))
        if s.same(st,sg,w): return v
        raise Unsupported('sign %s of %s'%(sg,v))
    def setv(s,st,p,v):
        """the number at p, which is initialised, gets the value v"""
        s.bounds(st,p,s.L[''][1],'store'); pt=s.loadptr(st,s.f(p,'data'))
        if pt.r is not None:
            ok=pt.r.kind=='heap' and pt.r not in st.freed
            if not s.ob('requires: the result is an initialised number',ok,'%s in %s'%(pt,s.where)): raise Infeasible()
            st.freed=st.freed|{pt.r}
        s.new(st,p,v)
    def owned(s,st,extra=(),live=False,skip=()):
        """every number allocated is owned by exactly one object of the caller"""
        own={}
        for r,c in st.mem.items():
            if r in st.freed or r in skip or (r.kind=='alloca' and not live): continue
            for o,b in c.cells.items():
                if isinstance(b,PB) and b.i==0 and isinstance(b.p,Ptr) and b.p.r is not None and b.p.r.kind=='heap': own.setdefault(b.p.r,[]).append((r,o))
        for r in st.mem:
            if r.kind=='heap' and r not in st.freed:
                s.ob('no-leak',r in own or r in extra,'%s (%s) is not released'%(r.name,getattr(r,'mag','')))
                s.ob('one owner',len(own.get(r,()))<=1,'%s is shared by %s'%(r.name,own.get(r)))
        for r,l in own.items(): s.ob('no-dangling',r not in st.freed,'%s points to released memory'%l)
def differs_(c): return bool(c.layers or c.cells)
def fresh_alloc(s,st,v):
    s.nn+=1; a=zext(sym(50,'alloc#%d'%s.nn),64); st.add(not_(eq(a,c64(0)))); st.add(ule(used_(v),a)); return a
ERR=C(32,M(32))
def fail(ex,st,dst=(),why='failed'):
    """the failure branch of a contract: results hold some value"""
    t=st.fork(); t.ghost['failed']=t.ghost.get('failed',())+(why,)
    for d in dst: ex.setv(t,d,freshv('any'))
    return (t,ERR)
def isnull(p): return isinstance(p,Ptr) and p.r is None
def op(n,f,pre=None):
    def h(ex,st,args):
        vs=[ex.val(st,p) for p in args[1:1+n]]
        bad=fail(ex,st,[args[0]]); ex.setv(st,args[0],f(*vs)); return [(st,C(32,0)),bad]
    return h
def h_init(ex,st,args):
    p=args[0]; t=st.fork(); t.ghost['failed']=t.ghost.get('failed',())+('failed',); ex.bounds(st,p,ex.L[''][1],'store')
    ex.storeptr(t,ex.f(p,'data'),NULL); ex.new(st,p,ZERO); return [(st,C(32,0)),(t,ERR)]
def h_init_list(ex,st,args):
    ps=[]
    for p in args:
        if isnull(p): break
        ps.append(p)
    else: ex.ob('requires: the list ends',False,ex.where); raise Infeasible()
    out=[]
    for i,p in enumerate(ps):
        ex.bounds(st,p,ex.L[''][1],'store'); t=st.fork(); t.ghost['failed']=t.ghost.get('failed',())+('failed',)
        for q in ps[:i]: clear(ex,t,q)
        ex.storeptr(t,ex.f(p,'data'),NULL); out.append((t,ERR)); ex.new(st,p,ZERO)
    return [(st,C(32,0))]+out
def clear(ex,st,p):
    ex.bounds(st,p,ex.L[''][1],'store')
    try: pt=ex.loadptr(st,ex.f(p,'data'))
    except Unsupported: ex.ob('requires: only an initialised number is cleared',False,ex.where); raise Infeasible()
    if pt.r is not None:
        ok=pt.r.kind=='heap' and pt.r not in st.freed
        if not ex.ob('valid-free',ok,'%s in %s'%(pt,ex.where)): raise Infeasible()
        st.freed=st.freed|{pt.r}
    ex.store(st,ex.f(p,'sign'),C(32,0)); ex.store(st,ex.f(p,'used'),c64(0)); ex.store(st,ex.f(p,'alloc'),c64(0)); ex.storeptr(st,ex.f(p,'data'),NULL)
def h_clear(ex,st,args): clear(ex,st,args[0]); return [(st,None)]
def h_clear_list(ex,st,args):
    for p in args:
        if isnull(p): return [(st,None)]
        clear(ex,st,p)
    ex.ob('requires: the list ends',False,ex.where); raise Infeasible()
def long_v(t):
    if isc(t): x=val(t); return const(x-(1<<64) if x>>63 else x)
    return atom('long',t.id)
def h_set_int(ex,st,args):
    v=long_v(args[1]); al=ex.load(st,ex.f(args[0],'alloc'),64)
    bad=[] if ex.proves(st,not_(eq(al,c64(0)))) else [fail(ex,st,[args[0]])] # one digit is needed
    ex.setv(st,args[0],v); return [(st,C(32,0))]+bad
def h_init_int(ex,st,args):
    r=h_init(ex,st,args[:1]); st,_=r[0]; t=st.fork(); t.ghost['failed']=t.ghost.get('failed',())+('failed',); clear(ex,t,args[0]); ex.setv(st,args[0],long_v(args[1])); return r+[(t,ERR)]
def h_copy(ex,st,args):
    v=ex.val(st,args[1])
    if ex.sameptr(st,args[0],args[1]): return [(st,C(32,0))]
    bad=fail(ex,st,[args[0]]); ex.setv(st,args[0],v); return [(st,C(32,0)),bad]
def h_init_copy(ex,st,args):
    v=ex.val(st,args[1]); r=h_init(ex,st,args[:1]); st,_=r[0]; t=st.fork(); t.ghost['failed']=t.ghost.get('failed',())+('failed',); clear(ex,t,args[0]); ex.setv(st,args[0],v); return r+[(t,ERR)]
def split_zero(ex,st,v):
    """-> (state with v != 0 or None, state with v == 0 or None)"""
    if isconst(v): return (st,None) if cval(v) else (None,st)
    z=t_zero(v)
    if ex.proves(st,not_(z)): return st,None
    if ex.proves(st,z): return None,st
    t=st.fork(); t.add(z); st.add(not_(z)); return st,t
def div_vals(ex,st,a,b):
    if ex.holds(st,zv(b)>0,(b,)): return vfdiv(a,b),vmod(a,b)
    q=vfdiv(a,b); return q,vabs(vsub(a,vmul(q,b)))
def div(ex,st,q,r,a,b,absolute=False):
    va,vb=ex.val(st,a),ex.val(st,b); out=[]
    nz,z=split_zero(ex,st,vb)
    if z is not None: z.ghost['divzero']=True; out.append((z,ERR))
    if nz is None: return out
    st=nz; dst=[p for p in (q,r) if not isnull(p)]
    if absolute: va,vb=vabs(va),vabs(vb)
    if len(dst)==2 and ex.sameptr(st,q,r): ex.ob('requires: distinct results',False,ex.where); raise Infeasible()
    bad=fail(ex,st,dst); vq,vr=div_vals(ex,st,va,vb)
    if not isnull(q): ex.setv(st,q,vq)
    if not isnull(r): ex.setv(st,r,vr)
    return [(st,C(32,0)),bad]+out
def h_div(ex,st,a): return div(ex,st,*a)
def h_div_abs(ex,st,a): return div(ex,st,*a,absolute=True)
def h_cmp(ex,st,a): return [(st,cmp_(ex.val(st,a[0]),ex.val(st,a[1])))]
def h_cmp_abs(ex,st,a): return [(st,cmp_(vabs(ex.val(st,a[0])),vabs(ex.val(st,a[1]))))]
def h_mod_exp(ex,st,args):
    r,b,e,m=args; vb,ve=ex.val(st,b),ex.val(st,e); vm=None if isnull(m) else ex.val(st,m); out=[]
    def neg_split(st,v):
        if nonneg(v) or ex.holds(st,zv(v)>=0,(v,)): return st
        n=t_neg(v); t=st.fork(); t.add(n)
        if ex.feasible(t): t.ghost['domain']=True; out.append((t,ERR))
        st.add(not_(n)); return st if ex.feasible(st) else None
    st=neg_split(st,ve)
    if st is not None and vm is not None: st=neg_split(st,vm)
    if st is None: return out
    if vm is not None:
        st,z=split_zero(ex,st,vm)
        if z is not None: z.ghost['divzero']=True; out.append((z,ERR))
        if st is None: return out
    bad=fail(ex,st,[r]); x=vexp(vb,ve); ex.setv(st,r,x if vm is None else vmod(x,vm)); return [(st,C(32,0)),bad]+out
def h_exp(ex,st,a): return h_mod_exp(ex,st,list(a)+[NULL])
def h_inv(ex,st,args):
    r,a,m=args; va,vm=ex.val(st,a),ex.val(st,m); c=t_cop(va,vm)
    bad=fail(ex,st,[r]); out=[bad]
    if vm in ex.primes: st.add(eq(c,not_(t_zero(vmod(va,vm)))))
    t=st.fork(); t.add(not_(c))
    if ex.feasible(t): t.ghost['noinv']=True; out.append((t,ERR))
    st.add(c)
    if not ex.feasible(st): return out
    ex.setv(st,r,vinv(va,vm)); return [(st,C(32,0))]+out
def h_count_bits(ex,st,a): return [(st,nbits_(ex.val(st,a[0])))]
def h_shift(f):
    def h(ex,st,args):
        v=ex.val(st,args[1])
        if not isc(args[2]):
            r=ex.symshift(st,v,args[2],f is shr_v); bad=fail(ex,st,[args[0]]); ex.setv(st,args[0],r); return [(st,C(32,0)),bad]
        n=val(args[2]); bad=fail(ex,st,[args[0]]); ex.setv(st,args[0],f(v,n)); return [(st,C(32,0)),bad]
    return h
def shr_v(v,n):
    if nonneg(v): return vfdiv(v,const(1<<n))
    if nonpos(v): return vneg(vfdiv(vneg(v),const(1<<n)))
    return atom('tshr',v,n)
def h_rand(ex,st,args):
    n=args[1]; bad=fail(ex,st,[args[0]]); v=freshv('rand',True); ex.setv(st,args[0],v); st.add(eq(nbits_(v),n)); st.ghost['rnd']=st.ghost.get('rnd',())+(v,); return [(st,C(32,0)),bad]
def h_rand_range(ex,st,args):
    m=ex.val(st,args[1]); bad=fail(ex,st,[args[0]]); v=freshv('rand',True)
    if not ex.holds(st,zv(m)>0,(m,)): raise Unsupported('random below a bound that may be zero')
    st.add(t_lt(v,m)); ex.setv(st,args[0],v); st.ghost['rnd']=st.ghost.get('rnd',())+(v,); return [(st,C(32,0)),bad]
def bin_v(ex,st,p,n):
    """the big-endian integer made of n bytes at p"""
    if isc(n) and val(n)==0: return ZERO
    if not isc(n) and ex.proves(st,eq(n,c64(0))): return ZERO
    if not ex.brange(st,p,n,'load'): return ZERO
    c=ex.cont(st,p.r); c.shared=True
    for L in reversed(c.layers):
        b=getattr(L,'bytesof',None)
        if b is not None and not c.cells and L is c.layers[-1] and ex.same(st,L.lo,p.o) and ex.same(st,sub(L.hi,L.lo),n): return b
    k=content_key(c,p.r); ex.nn+=1
    v=atom('bin',k,p.o.id,n.id,nonneg=True); BIN[v.m[0][0][0]]=(c,p.r,p.o,n); st.add(ule(nbits_(v),shl8(n))); return v
BIN={}
def shl8(n): return mul(n,c64(8))
_ck={}
def content_key(c,r):
    return (r.name,tuple(id(L) for L in c.layers),tuple(sorted((k,x.id if isinstance(x,T) else repr(x)) for k,x in c.cells.items())))
def h_load_bin(ex,st,args):
    v=bin_v(ex,st,args[1],args[2]); bad=fail(ex,st,[args[0]]); ex.setv(st,args[0],v); return [(st,C(32,0)),bad]
def nbytes(v): return divrem('udiv',addc(nbits_(v),7),c64(8))
def h_store_bin(ex,st,args):
    x,p,n,pad=args; v=vabs(ex.val(st,x)); nb=nbytes(v); out=[]
    if not isc(pad): raise Unsupported('padding flag')
    big=ult(n,nb)
    if not ex.proves(st,not_(big)):
        t=st.fork(); t.add(big); t.ghost['nofit']=True; out.append((t,ERR)); st.add(not_(big))
        if not ex.feasible(st): return out
    ln=n if val(pad) else nb
    if ex.proves(st,eq(ln,c64(0))): return [(st,C(32,0))]+out
    ex.brange(st,p,ln,'store'); lo=p.o; hi=add(p.o,ln); last=addc(hi,-1)
    ex.addlam(st,p.r,lo,hi,lambda ex,st2,o:byte_(v,sub(last,o))); st.mem[p.r].layers[-1].bytesof=v
    return [(st,C(32,0))]+out
def byte_(v,j):
    if isconst(v) and isc(j): return C(8,cval(v)>>(8*val(j)))
    return uf(8,'byte!%d'%v.id,j)
mag=lambda f:(lambda a,b:f(vabs(a),vabs(b)))
def h_sub_abs(ex,st,args):
    a,b=vabs(ex.val(st,args[1])),vabs(ex.val(st,args[2])); out=[]
    lt=t_lt(a,b)
    if not ex.proves(st,not_(lt)):
        t=st.fork(); t.add(lt)
        if ex.feasible(t): t.ghost['domain']=True; out.append((t,ERR))
        st.add(not_(lt))
        if not ex.feasible(st): return out
    bad=fail(ex,st,[args[0]]); ex.setv(st,args[0],posv(ex,st,vsub(a,b))); return [(st,C(32,0)),bad]+out
def posv(ex,st,v):
    """a value that is known not to be negative here"""
    return v if nonneg(v) else vabs(v)
CON={'cry_mpi_init':h_init,'cry_mpi_init_list':h_init_list,'cry_mpi_clear':h_clear,'cry_mpi_clear_list':h_clear_list,'cry_mpi_set_int':h_set_int,'cry_mpi_init_int':h_init_int,
 'cry_mpi_copy':h_copy,'cry_mpi_init_copy':h_init_copy,'cry_mpi_add':op(2,vadd),'cry_mpi_sub':op(2,vsub),'cry_mpi_mul':op(2,vmul),'cry_mpi_sqr':op(1,lambda a:vmul(a,a)),'cry_mpi_abs':op(1,vabs),
 'cry_mpi_add_abs':op(2,mag(vadd)),'cry_mpi_sub_abs':h_sub_abs,'cry_mpi_mul_abs':op(2,mag(vmul)),
 'cry_mpi_div':h_div,'cry_mpi_div_abs':h_div_abs,'cry_mpi_cmp':h_cmp,'cry_mpi_cmp_abs':h_cmp_abs,'cry_mpi_mod_exp':h_mod_exp,'cry_mpi_exp':h_exp,'cry_mpi_inv':h_inv,'cry_mpi_count_bits':h_count_bits,
 'cry_mpi_gcd':op(2,vgcd),'cry_mpi_rand':h_rand,'cry_mpi_rand_range':h_rand_range,'cry_mpi_load_bin':h_load_bin,'cry_mpi_store_bin':h_store_bin,
 'cry_mpi_shl':h_shift(lambda v,n:vscale(v,1<<n)),'cry_mpi_shr':h_shift(shr_v)}
