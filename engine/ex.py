"""Symbolic execution of extracted functions with contracts: the verification condition generator.

   A function is executed from a symbolic state that satisfies its precondition; calls to functions
   under contract are replaced by their contract, the others are inlined; loops whose trip count is
   fixed by constants are executed, the others are cut by an inductive invariant. Conditions,
   bounds and equalities are decided by the normal form of terms.py or by z3."""
import time,random,os
import z3
from terms import *
from ir import Unsupported,Ty
import ir,lia
class Ptr:
    __slots__=('r','o')
    def __init__(s,r,o): s.r=r;s.o=o
    def __repr__(s): return '&%s+%s'%(s.r.name if s.r else 'null',s.o)
class FnPtr:
    __slots__=('name','mod')
    def __init__(s,name,mod=None): s.name=name;s.mod=mod
    def __repr__(s): return '&'+s.name
    def __eq__(s,o): return isinstance(o,FnPtr) and o.name==s.name
    def __hash__(s): return hash(s.name)
class PB:
    """byte i of a stored pointer"""
    __slots__=('p','i')
    def __init__(s,p,i): s.p=p;s.i=i
    def __repr__(s): return 'PB(%s,%d)'%(s.p,s.i)
NULL=Ptr(None,C(64,0))
def c64(v): return C(64,v)
class Region:
    def __init__(s,name,size,base=None,kind='arg',const=False,ro=False):
        s.name=name; s.size=c64(size) if isinstance(size,int) else size; s.base=base; s.kind=kind; s.ro=ro
        s.freed=False; s.gran=1
    def __repr__(s): return '<%s>'%s.name
    def addr(s): return sym(64,'addr!'+s.name)
def ufbytes(name,w=8):
    """base content: an uninterpreted byte (or word) function of the offset"""
    if w==8: return lambda off:uf(8,name,off)
    n=w//8;lg=n.bit_length()-1
    def f(off):
        lo=ext(off,lg-1,0); wd=uf(w,name,lshr(off,lg))
        if isc(lo): return ext(wd,8*val(lo)+7,8*val(lo))
        r=ext(wd,7,0)
        for i in range(1,n): r=ite(eq(lo,C(lg,i)),ext(wd,8*i+7,8*i),r)
        return r
    return f
class Cont:
    """content of a region: base, then layers (oldest first); the last layer may be a dict of bytes"""
    __slots__=('layers','cells','shared')
    def __init__(s,layers=(),cells=None): s.layers=layers; s.cells={} if cells is None else cells; s.shared=False
    def clone(s): return Cont(s.layers,dict(s.cells))
class Lam:
    """bytes lo <= off < hi are f(ex,st,off)"""
    def __init__(s,lo,hi,f): s.lo=lo;s.hi=hi;s.f=f
class W:
    """bytes at symbolic offsets root + delta"""
    def __init__(s,root,d): s.root=root;s.d=d
def split(o):
    """offset -> (root, signed constant)"""
    if o.op=='add' and o.a[0]:
        c=o.a[0]; return addc(o,-c),(c-(1<<o.w) if c>>(o.w-1) else c)
    return o,0
class Cells:
    def __init__(s,d): s.d=d
class St:
    def __init__(s): s.pc=(); s.mem={}; s.ghost={}; s.freed=frozenset()
    def fork(s):
        t=St(); t.pc=s.pc; t.freed=s.freed
        for c in s.mem.values(): c.shared=True
        t.mem=dict(s.mem); t.ghost=dict(s.ghost); return t
    def add(s,c):
        if isc(c): 
            return
        if c.op=='and':
            for x in c.a[0]: s.add(x)
            return
        if c not in s.pc: s.pc=s.pc+(c,)
class Fail(Exception): pass
class Infeasible(Exception): pass
class NeedInv(Exception):
    def __init__(s,fn,h): s.fn=fn;s.h=h; Exception.__init__(s,'loop at %s:%s needs an invariant'%(fn,h))
class Ex:
    def __init__(s,contracts=None,invs=None,timeout=30000):
        s.hooks=dict(contracts or {}); s.invs=list(invs or []); s.obs=[]; s.globals={}
        s.timeout=timeout; s.cache={}; s.solver_time=0.0; s.queries=0; s.fnseen=set(); s.unroll=4200
        s.tent=0; s.maxpaths=4000; s.trace=os.environ.get('EXTRACE'); s.where=''
        s.nn=0; s.rec_unfold={}
    # ------------------------------------------------------------ obligations
    def ob(s,name,ok,detail=''):
        if s.lenient: return True
        s.obs.append((name,bool(ok),detail))
        if not ok and s.tent: raise Fail(name+': '+detail)
        return ok
    # ------------------------------------------------------------ solver
    quick=False            # index conditions are decided by the index part of the path condition alone
    def unsat(s,terms,goal=None):
        key=frozenset(t.id for t in terms)
        r=s.cache.get(key)
        if r is not None: return r
        for t in terms:
            if isc(t) and val(t)==0: s.cache[key]=True; return True
            if not_(t).id in key: s.cache[key]=True; return True
        t0=time.time()
        if s.lia and lia.suited(terms):
            cs,exact=lia.conv_all(terms); sv=z3.SolverFor('QF_UFLIA'); sv.set('timeout',s.lia)
            for c in cs: sv.add(c)
            r=sv.check()
            if r==z3.unsat or (r==z3.sat and exact):
                s.solver_time+=time.time()-t0; s.queries+=1; r=(r==z3.unsat); s.cache[key]=r; return r
        elif s.lia:
            sub_=[t for t in terms if lia.suited([t],2)]
            if sub_ and (s.quick or len(sub_)<len(terms)) and lia.suited(sub_,12):
                cs,exact=lia.conv_all(sub_); sv=z3.SolverFor('QF_UFLIA'); sv.set('timeout',min(s.lia,1000))
                for c in cs: sv.add(c)
                r=sv.check()
                if r==z3.unsat or (s.quick and r==z3.sat and exact and goal is not None and (goal is True or (goal in sub_ and not any(x.op=='uf' for x in fvs_set(goal))))):
                    s.solver_time+=time.time()-t0; s.queries+=1; r=r==z3.unsat; s.cache[key]=r; return r
        sv=z3.Solver(); sv.set('timeout',s.timeout)
        for t in terms: sv.add(to_z3(t)==1)
        # table contents only when they are small
        ax=tab_axioms(terms,1024)
        for a in ax: sv.add(a)
        r=sv.check(); s.solver_time+=time.time()-t0; s.queries+=1
        if r==z3.unknown: s.unknown=getattr(s,'unknown',0)+1
        r=(r==z3.unsat); s.cache[key]=r; return r
    def relevant(s,pc,t):
        """the part of the path condition connected to t through shared symbols"""
        syms=fvs(t); rest=list(pc); out=[]; ch=True
        while ch:
            ch=False; nr=[]
            for c in rest:
                f=fvs(c)
                if f&syms: out.append(c); syms=syms|f; ch=True
                else: nr.append(c)
            rest=nr
        return out
    def proves(s,st,c):
        if isc(c): return val(c)==1
        if c in st.pc: return True
        nc=not_(c)
        if nc in st.pc: return s.unsat(list(st.pc))
        return s.unsat(s.relevant(st.pc,c)+[nc],nc) if s.quick else s.unsat(s.relevant(st.pc,c)+[nc])
    def prune(s,st): return s.unsat(list(st.pc),True) if s.quick else s.unsat(list(st.pc))
    def feasible(s,st): return not s.unsat(list(st.pc))
    def same(s,st,a,b,depth=0):
        if a is b: return True
        if isinstance(a,PB) or isinstance(b,PB):
            return isinstance(a,PB) and isinstance(b,PB) and a.i==b.i and s.sameptr(st,a.p,b.p)
        if isinstance(a,(Ptr,FnPtr)) or isinstance(b,(Ptr,FnPtr)): return s.sameptr(st,a,b)
        if a.w!=b.w: return False
        if a.op=='uf' and b.op=='uf' and a.a[0]==b.a[0] and len(a.a[1])==len(b.a[1]):
            xs=[(x,y) for x,y in zip(a.a[1],b.a[1]) if x is not y]
            if all(isinstance(x,T) and isinstance(y,T) and x.w==y.w for x,y in xs) and all(s.same(st,x,y) for x,y in xs): return True
        if a.op=='ext' and b.op=='ext' and a.a[1:]==b.a[1:] and a.a[0].w==b.a[0].w and s.same(st,a.a[0],b.a[0]): return True
        if a.op=='xor' and b.op=='xor' and a.a[0]==b.a[0] and len(a.a[1])==len(b.a[1])<=4 and depth<9:
            ys=[y for y in b.a[1] if y not in a.a[1]]; ok=True
            for x in [x for x in a.a[1] if x not in b.a[1]]:
                for y in ys:
                    if x.op==y.op and (x.op!='uf' or x.a[0]==y.a[0]) and s.same(st,x,y,depth+3): ys.remove(y); break
                else: ok=False; break
            if ok: return True
        if depth<6:
            c=first_ite(a,b)
            if c is not None:
                for v in (1,0):
                    cc=c if v else not_(c); s2=st.fork(); s2.add(cc)
                    if s.unsat(list(s2.pc)): continue
                    if not s.same(s2,resolve(a,c,v),resolve(b,c,v),depth+1): return False
                return True
        # a quick refutation by evaluation
        e=eq(a,b)
        if isc(e): return val(e)==1
        if not st.pc and refuted(e): return False
        return s.proves(st,e)
    def sameptr(s,st,a,b):
        if isinstance(a,FnPtr) or isinstance(b,FnPtr): return a==b
        if not(isinstance(a,Ptr) and isinstance(b,Ptr)): return False
        return a.r is b.r and s.same(st,a.o,b.o)
    # ------------------------------------------------------------ memory
    def region(s,st,name,size,base=None,kind='arg',ro=False):
        s.nn+=1
        r=Region(name,size,base,kind,ro=ro); st.mem[r]=Cont(); return r
    def cont(s,st,r):
        c=st.mem.get(r)
        if c is None:
            for g,cells in s.globals.values():
                if g is r: c=st.mem[r]=Cont((),dict(cells)); return c
            raise Unsupported('region %s not live'%r)
        return c
    def wcont(s,st,r):
        c=s.cont(st,r)
        if c.shared: c=c.clone(); st.mem[r]=c
        return c
    def bounds(s,st,p,n,what):
        r=p.r
        if r is None: s.ob('valid-pointer',False,'%s through a null pointer in %s'%(what,s.where)); raise Infeasible()
        if r in st.freed: s.ob('no-use-after-free',False,'%s of freed %s in %s'%(what,r,s.where)); raise Infeasible()
        o=p.o
        if s.lenient: return
        if isc(o) and isc(r.size):
            ok=val(o)+n<=val(r.size)
        else:
            ok=s.proves(st,and_(ule(c64(n),r.size),ule(o,sub(r.size,c64(n)))))
        if not s.ob('in-bounds',ok,'' if ok else '%s of %d bytes at %s+%s (size %s) in %s'%(what,n,r.name,o,r.size,s.where)): raise Infeasible()
        if what=='store' and r.ro: s.ob('frame',False,'store to read only %s in %s'%(r.name,s.where))
    def rbyte(s,st,c,r,o):
        """byte at offset term o of content c"""
        cs=c.cells
        if isc(o):
            v=cs.get(val(o))
            if v is not None: return v
        elif cs:
            hit=[k for k in cs if s.may(st,o,k)]
            if hit:
                if len(hit)>80: raise Unsupported('symbolic read over %d cells of %s'%(len(hit),r.name))
                base=s.under(st,c.layers,len(c.layers),r,o); vals=[cs[k] for k in hit]
                for k,v in zip(hit,vals):
                    if isinstance(v,PB) or isinstance(base,PB): raise Unsupported('symbolic access to a pointer')
                    base=ite(eq(o,c64(k)),v,base)
                return base
        return s.under(st,c.layers,len(c.layers),r,o)
    def may(s,st,o,k):
        """may offset term o equal constant k"""
        e=eq(o,c64(k))
        if isc(e): return val(e)==1
        if ub(o)<k: return False
        return not s.proves(st,not_(e))
    def under(s,st,layers,n,r,o):
        n-=1
        while n>=0:
            L=layers[n]
            if isinstance(L,Cells):
                if isc(o):
                    v=L.d.get(val(o))
                    if v is not None: return v
                else: return s.rbyte(st,Cont(layers[:n],L.d),r,o)
            elif isinstance(L,W):
                d=sub(o,L.root)
                if isc(d):
                    d=val(d); d=d-(1<<64) if d>>63 else d
                    v=L.d.get(d)
                    if v is not None: return v
                else:
                    lo=min(L.d);hi=max(L.d)
                    inn=ule(addc(d,-lo),c64(hi-lo))
                    if not s.proves(st,not_(inn)):
                        if len(L.d)>80: raise Unsupported('symbolic read over %d symbolic cells'%len(L.d))
                        rest=s.under(st,layers,n,r,o)
                        for i,v in L.d.items():
                            e=eq(d,c64(i))
                            if isc(e) and val(e)==0: continue
                            if rest is v: continue
                            if isinstance(rest,PB) or isinstance(v,PB): raise Unsupported('symbolic access to a pointer')
                            rest=v if s.proves(st,e) else ite(e,v,rest)
                        return rest
            else: # Lam
                cnd=and_(ule(L.lo,o),ult(o,L.hi))
                if isc(cnd): y=val(cnd)
                elif s.proves(st,not_(cnd)): y=0
                elif s.proves(st,cnd): y=1
                else: y=None
                if y==1: return L.f(s,st,o)
                if y is None:
                    a=L.f(s,st,o); b=s.under(st,layers,n,r,o)
                    if a is b: return a
                    if isinstance(a,PB) or isinstance(b,PB): raise Unsupported('symbolic access to a pointer')
                    return ite(cnd,a,b)
            n-=1
        if r.base is None: return uf(8,'undef_'+r.name,o)
        return r.base(o)
    def load_bytes(s,st,p,n):
        s.bounds(st,p,n,'load'); return s.peek(st,p,n)
    def peek(s,st,p,n):
        c=s.cont(st,p.r)
        if isc(p.o): o=val(p.o); return [s.rbyte(st,c,p.r,c64(o+i)) for i in range(n)]
        return [s.rbyte(st,c,p.r,addc(p.o,i)) for i in range(n)]
    def load(s,st,p,w):
        """integer of w bits"""
        n=(w+7)//8
        t=s.table(st,p,n)
        if t is not None: return ext(t,w-1,0)
        b=s.load_bytes(st,p,n)
        return s.join(b,w)
    def join(s,b,w):
        if any(isinstance(x,PB) for x in b):
            if len(b)==8 and all(isinstance(x,PB) and x.i==i and x.p is b[0].p for i,x in enumerate(b)): return s.p2i(b[0].p)
            raise Unsupported('bytes of a pointer')
        return ext(cat(b[::-1]),w-1,0)
    def p2i(s,p):
        if isinstance(p,FnPtr): return sym(64,'addr!fn!'+p.name)
        return p.o if p.r is None else add(p.r.addr(),p.o)
    def loadptr(s,st,p):
        if not isc(p.o) and p.r is not None and p.r.kind=='global':
            return s.ptrtable(st,p)
        b=s.load_bytes(st,p,8)
        return s.joinptr(b,p)
    def joinptr(s,b,p=None):
        if isinstance(b[0],PB) and all(isinstance(x,PB) and x.i==i for i,x in enumerate(b)): return b[0].p
        if all(not isinstance(x,PB) and isc(x) and val(x)==0 for x in b): return NULL
        raise Unsupported('load of an unknown pointer at %s: %s'%(p,b[:1]))
    def ptrtable(s,st,p): raise Unsupported('symbolic pointer table')
    def storeb(s,st,p,bs):
        n=len(bs)
        s.bounds(st,p,n,'store')
        c=s.wcont(st,p.r)
        if isc(p.o):
            o=val(p.o)
            for i,b in enumerate(bs): c.cells[o+i]=b
        else:
            lay=c.layers
            if c.cells: lay=lay+(Cells(c.cells),)
            root,d=split(p.o)
            if lay and isinstance(lay[-1],W) and lay[-1].root is root: cells=dict(lay[-1].d); lay=lay[:-1]
            else: cells={}
            for i,b in enumerate(bs): cells[d+i]=b
            st.mem[p.r]=Cont(lay+(W(root,cells),))
    def store(s,st,p,t): s.storeb(st,p,[ext(t,min(8*i+7,t.w-1),8*i) if t.w-8*i>=8 else zext(ext(t,t.w-1,8*i),8) for i in range((t.w+7)//8)])
    def storeptr(s,st,p,q): s.storeb(st,p,[PB(q,i) for i in range(8)] if not(isinstance(q,Ptr) and q.r is None and isc(q.o)) else [ext(q.o,8*i+7,8*i) for i in range(8)])
    def table(s,st,p,n):
        """load at a symbolic offset from constant data"""
        r=p.r
        if r is None or r.kind!='global' or isc(p.o): return None
        c=s.cont(st,r)
        if c.layers: return None
        o=p.o; ts=list(o.a[1]) if o.op=='add' else [(1,o)]; k=o.a[0] if o.op=='add' else 0
        # index bits: the variable slices of each summand
        vars=[];
        for cf,x in ts:
            ps=parts(x); pos=x.w
            for q in ps:
                pos-=q.w
                if isc(q): k+=cf*(val(q)<<pos)
                else: vars.append((cf<<pos,q))
        sz=val(r.size); by={}
        for cf,q in vars: by[q]=by.get(q,0)+cf
        vars=[]
        for q,cf in by.items(): # bits that are zero here
            cf&=M(64)
            if q.w==1 and cf>=1<<32 and s.proves(st,not_(q)): continue
            while q.w>1 and (cf<<(q.w-1))+k&M(64)>=sz and s.proves(st,not_(ext(q,q.w-1,q.w-1))): q=ext(q,q.w-2,0)
            if isc(q): k+=cf*val(q)
            else: vars.append((cf,q))
        nb=sum(q.w for _,q in vars)
        if nb>12: return None
        idx=cat([q for _,q in vars]); cont=[]
        bad=[]
        for v in range(1<<nb):
            off=k;pos=nb
            for cf,q in vars:
                pos-=q.w; off+=cf*((v>>pos)&M(q.w))
            off&=M(64)
            if off+n>sz: cont.append(0); bad.append(v); continue
            b=[c.cells.get(off+i) for i in range(n)]
            if any(x is None or isinstance(x,PB) or not isc(x) for x in b): return None
            cont.append(sum(val(x)<<(8*i) for i,x in enumerate(b)))
        ok=not bad or (bad==list(range(bad[0],1<<nb)) and s.proves(st,ult(idx,C(nb,bad[0])))) or all(s.proves(st,not_(eq(idx,C(nb,v)))) for v in bad)
        if not s.ob('in-bounds',ok,'' if ok else 'table index of %s in %s'%(r.name,s.where)): raise Infeasible()
        return tab(8*n,tuple(cont),idx)
    # ------------------------------------------------------------ globals
    def glob(s,st,mod,name):
        k=(mod.path,name)
        if name in mod.fns: return FnPtr(name,mod)
        if name in mod.decl: return FnPtr(name,None)
        d=mod.globals.get(name)
        if d is None: raise Unsupported('global '+name)
        if d.startswith('external') or ' external ' in d[:40]:
            m2=s.find_global(name)
            if m2 is None: raise Unsupported('external '+name)
            return s.glob(st,m2,name)
        g=s.globals.get(k)
        if g is None:
            ts=ir.toks(d); p=ir.P(ts,mod); ro='constant' in ts[:8]; p.attrs(); ty=p.type(); v=p.value(ty)
            size=mod.size(ty); r=Region('@'+name,size,None,'global' if ro else 'static',ro=ro); cells={}
            g=s.globals[k]=(r,cells); s.ginit(mod,st,ty,v,0,cells)
        r,cells=g
        if r not in st.mem: st.mem[r]=Cont((),dict(cells))
        return Ptr(r,c64(0))
    def find_global(s,name):
        for src in ir.sources():
            m=ir.module(src)
            if name in m.globals and 'external' not in m.globals[name][:30]: return m
    def ginit(s,mod,st,ty,v,o,cells):
        ty=mod.ty(ty); k=v[0]; n=mod.size(ty)
        if k in('zero','null','undef'):
            for i in range(n): cells[o+i]=C(8,0)
        elif k=='c':
            x=v[1]&((1<<(8*n))-1)
            for i in range(n): cells[o+i]=C(8,x>>(8*i))
        elif k=='str':
            for i,b in enumerate(v[1]): cells[o+i]=C(8,b)
        elif k=='agg':
            if ty.k=='arr':
                es=mod.size(ty.a[1])
                for i,(et,ev) in enumerate(v[1]): s.ginit(mod,st,et,ev,o+i*es,cells)
            else:
                for i in range(n): cells[o+i]=C(8,0)
                for i,(et,ev) in enumerate(v[1]): s.ginit(mod,st,et,ev,o+mod.off(ty,i),cells)
        else:
            p=s.cval(st,mod,v)
            for i in range(8): cells[o+i]=PB(p,i)
    def cval(s,st,mod,v):
        if v[0]=='g': return s.glob(st,mod,v[1])
        if v[0]=='null': return NULL
        if v[0]=='ce' and v[1]=='gep':
            return s.gep(st,mod,v[2],s.cval(st,mod,v[3]),[(t,s.opv(st,mod,{},x,t)) for t,x in v[4]])
        raise Unsupported('constant %s'%(v,))
    # ------------------------------------------------------------ expressions
    def opv(s,st,mod,env,v,ty):
        k=v[0]
        if k=='l':
            try: return env[v[1]]
            except KeyError: raise Unsupported('undefined value %'+v[1])
        if k=='c': return C(mod.ty(ty).a[0],v[1])
        if k=='g': return s.glob(st,mod,v[1])
        if k=='null': return NULL
        if k=='undef':
            t=mod.ty(ty)
            return NULL if t.k=='ptr' else fresh(t.a[0],'undef')
        if k=='zero': return NULL if mod.ty(ty).k=='ptr' else C(mod.ty(ty).a[0],0)
        if k=='ce':
            if v[1]=='gep': return s.cval(st,mod,v)
            if v[1]=='ptrtoint': return s.p2i(s.opv(st,mod,env,v[3],v[2]))
            if v[1] in('add','sub'):
                a=s.opv(st,mod,env,v[3],v[2]);b=s.opv(st,mod,env,v[4],v[2]); return add(a,b) if v[1]=='add' else sub(a,b)
        raise Unsupported('operand %s'%(v,))
    def gep(s,st,mod,bt,p,idx):
        if isinstance(p,FnPtr): raise Unsupported('gep on a function')
        o=p.o; t=bt
        for i,(it,iv) in enumerate(idx):
            if i==0:
                o=add(o,mul(s.sx(iv),c64(mod.size(t))))
            else:
                t=mod.ty(t)
                if t.k=='st': o=addc(o,mod.off(t,val(iv))); t=t.a[0][val(iv)]
                else: t=t.a[1]; o=add(o,mul(s.sx(iv),c64(mod.size(t))))
        return Ptr(p.r,o)
    def sx(s,t):
        if t.w==64: return t
        return sext_(t)
    def binop(s,st,op,a,b,x=None):
        w=a.w
        if op=='add': return add(a,b)
        if op=='sub': return sub(a,b)
        if op=='xor': return xor(a,b)
        if op=='and': return and_(a,b)
        if op=='or': return or_(a,b)
        if op=='mul': return mul(a,b)
        if op in('udiv','urem','sdiv','srem'):
            if not isc(b) or val(b)==0:
                ok=s.proves(st,not_(eq(b,C(w,0)))); 
                if not s.ob('division-by-zero',ok,s.where): raise Infeasible()
            if s.uremuf and op=='urem' and not isc(b):
                r=uf(w,'urem',a,b); st.add(ult(r,b)); return r
            return divrem(op,a,b)
        if op in('shl','lshr','ashr'):
            if not isc(b):
                ok=s.proves(st,ult(b,C(w,w)))
                if not s.ob('shift-amount',ok,s.where): raise Infeasible()
            elif val(b)>=w: s.ob('shift-amount',False,s.where); raise Infeasible()
            return shift(op,a,b)
        raise Unsupported(op)
    def icmp(s,st,pr,a,b):
        if isinstance(a,(Ptr,FnPtr)):
            if isinstance(a,FnPtr) or isinstance(b,FnPtr):
                e=TRUE if a==b else FALSE
                return e if pr=='eq' else not_(e)
            if a.r is b.r: x,y=a.o,b.o
            elif pr in('eq','ne') and (a.r is None or b.r is None):
                # a valid object is not at address zero
                return FALSE if pr=='eq' else TRUE
            elif pr in('eq','ne'):
                return FALSE if pr=='eq' else TRUE
            else: x,y=s.p2i(a),s.p2i(b)
            a,b=x,y
        if pr=='eq': return eq(a,b)
        if pr=='ne': return not_(eq(a,b))
        if pr=='ult': return ult(a,b)
        if pr=='ule': return ule(a,b)
        if pr=='ugt': return ult(b,a)
        if pr=='uge': return ule(b,a)
        if pr=='slt': return slt(a,b)
        if pr=='sle': return sle(a,b)
        if pr=='sgt': return slt(b,a)
        if pr=='sge': return sle(b,a)
        raise Unsupported(pr)
    # ------------------------------------------------------------ functions
    def fn(s,name,mod=None):
        if mod is not None and name in mod.fns: return mod.fns[name]
        for src in ir.sources():
            m=ir.module(src)
            f=m.fns.get(name)
            if f is not None and not f.internal: return f
        return None
    def call(s,st,name,args,mod=None,top=False):
        """-> list of (state, value)"""
        if not top and name in s.hooks:
            h=s.hooks[name]; r=h(s,st,args)
            return r
        if not top and name in BUILTIN: return BUILTIN[name](s,st,args)
        f=s.fn(name,mod)
        if f is None: raise Unsupported('no body or contract for '+name)
        s.depth=getattr(s,'depth',0)+1
        if s.depth>40: raise Unsupported('recursion '+name)
        try:
            f.an(); s.fnseen.add(f.name); env={}
            if len(args)!=len(f.args): raise Unsupported('arity of '+name)
            for (n,t),v in zip(f.args,args): env[n]=v
            out=[]; keep={r for r in st.mem if r.kind=='alloca'}
            for (e,st2,blk,kind,v) in s.region_run(f,env,st,f.entry,None,None):
                for r in [r for r in st2.mem if r.kind=='alloca' and r not in keep]: del st2.mem[r]
                out.append((st2,v))
            return out
        finally: s.depth-=1
    def region_run(s,f,env,st,blk,prev,stop):
        """execute from blk; -> list of (env,state,prev,'ret'|'stop',value); stop: set of blocks"""
        an=f.an(); out=[]; work=[(env,st,blk,prev,0,{})]; n=0; start=blk
        while work:
            env,st,blk,prev,ip,cnt=work.pop(); 
            try:
                while True:
                    if ip==0:
                        b=f.blocks[blk]
                        if b.phis and prev is not None:
                            nv=[]
                            for ph in b.phis:
                                for v,pb in ph.a:
                                    if pb==prev: nv.append((ph.d,s.opv(st,f.mod,env,v,ph.ty))); break
                                else: raise Unsupported('phi')
                            env=dict(env)
                            for d,v in nv: env[d]=v
                        if stop and blk in stop and n>0: out.append((env,st,prev,blk,None)); break
                        n+=1
                        if blk in an['loops'] and prev is not None and prev not in an['loops'][blk] and not(stop and blk in stop):
                            r=s.loop(f,blk,env,st,prev,stop)
                            if r is not None:
                                for x in r:
                                    if x[3]=='exit': work.append((x[0],x[1],x[4],x[2],0,{}))
                                    else: out.append(x)
                                break
                        cnt[blk]=cnt.get(blk,0)+1
                        if cnt[blk]>s.unroll: raise Unsupported('too many iterations at %s:%s'%(f.name,blk))
                        env=dict(env)
                    ins=b.ins if ip==0 else f.blocks[blk].ins
                    b=f.blocks[blk]; jump=None
                    while True:
                        I=ins[ip]; op=I.op; ip+=1; s.where='%s: %s'%(f.name,I.line)
                        if op=='br':
                            if len(I.a)==1: jump=(blk,I.a[0]); break
                            c=s.opv(st,f.mod,env,I.a[0],Ty('i',1))
                            if not isc(c):
                                y=s.decide(st,f,blk,c)
                                if y is None:
                                    if stop and s.inloop(f,blk,I.a[1],I.a[2]) and s.tent_unroll: raise NeedInv(f.name,blk)
                                    m=s.merge(f,env,st,blk,I,c)
                                    if m is not None:
                                        env,st,blk,prev=m; jump=('$merged',blk); break
                                    st2=st.fork(); st2.add(not_(c)); st.add(c)
                                    if len(work)+len(out)>s.maxpaths: raise Unsupported('too many paths')
                                    work.append((env,st2,I.a[2],blk,0,dict(cnt)))
                                    jump=(blk,I.a[1]); break
                                c=C(1,y)
                            jump=(blk,I.a[1] if val(c) else I.a[2]); break
                        if op=='ret':
                            v=s.opv(st,f.mod,env,I.a[0],I.ty) if I.a else None
                            out.append((env,st,blk,'ret',v)); break
                        if op=='switch':
                            v=s.opv(st,f.mod,env,I.a[0],I.ty)
                            if isc(v):
                                t=I.a[1]
                                for k,l in I.x:
                                    if C(v.w,k) is v: t=l
                                jump=(blk,t); break
                            rest=st; done=False
                            for k,l in I.x:
                                e=eq(v,C(v.w,k)); 
                                if s.proves(rest,not_(e)): continue
                                if s.proves(rest,e): work.append((env,rest,l,blk,0,dict(cnt))); done=True; break
                                st2=rest.fork(); st2.add(e); work.append((env,st2,l,blk,0,dict(cnt)))
                                rest=rest.fork(); rest.add(not_(e))
                            if not done: work.append((env,rest,I.a[1],blk,0,dict(cnt)))
                            break
                        if op=='unreachable': break
                        if op=='call':
                            rs=s.docall(f,env,st,I)
                            if not rs: break
                            for st2,v in rs[1:]:
                                e2=dict(env)
                                if I.d is not None: e2[I.d]=v
                                work.append((e2,st2,blk,prev,ip,dict(cnt)))
                            st,v=rs[0]
                            if I.d is not None: env[I.d]=v
                            continue
                        if op=='select':
                            c=s.opv(st,f.mod,env,I.a[0],Ty('i',1)); a=s.opv(st,f.mod,env,I.a[1],I.ty); bb=s.opv(st,f.mod,env,I.a[2],I.ty)
                            if isc(c): env[I.d]=a if val(c) else bb; continue
                            if isinstance(a,T) and isinstance(bb,T): 
                                if a.w>1:
                                    y=s.decide(st,f,blk,c)
                                    if y is not None: env[I.d]=a if y else bb; continue
                                    if s.forksel:
                                        st2=st.fork(); st2.add(not_(c)); st.add(c); e2=dict(env); e2[I.d]=bb
                                        work.append((e2,st2,blk,prev,ip,dict(cnt))); env[I.d]=a; continue
                                env[I.d]=ite(c,a,bb); continue
                            if isinstance(a,Ptr) and isinstance(bb,Ptr) and a.r is bb.r and not s.forksel: env[I.d]=Ptr(a.r,ite(c,a.o,bb.o)); continue
                            y=s.decide(st,f,blk,c)
                            if y is None:
                                st2=st.fork(); st2.add(not_(c)); st.add(c); e2=dict(env); e2[I.d]=bb
                                work.append((e2,st2,blk,prev,ip,dict(cnt))); env[I.d]=a
                            else: env[I.d]=a if y else bb
                            continue
                        s.step(f,env,st,I)
                    if jump is None: break
                    prev,blk=jump; ip=0
                    if prev=='$merged': prev=None
            except Infeasible: continue
        return out
    tent_unroll=0
    lia=3000           # milliseconds for the linear arithmetic view of a query (0: off)
    forksel=False      # a selected integer: one path per arm
    nomerge=False      # one path per arm of a branch
    lenient=0
    undecided=None     # conditions on which both arms are taken without a query
    uremuf=False       # a remainder by a symbolic divisor is a function symbol
    def inloop(s,f,blk,a,b):
        """does the branch leave a loop that is being executed tentatively"""
        L=getattr(s,'cur_loop',None)
        return L is not None and L[0] is f and blk in L[1] and ((a in L[1])!=(b in L[1]))
    def decide(s,st,f,blk,c):
        if c in st.pc: return 1
        nc=not_(c)
        if nc in st.pc: return 0
        if data_bit(c) or (s.undecided and s.undecided(c)): return None
        if s.unsat(s.relevant(st.pc,c)+[nc]): return 1
        if s.unsat(s.relevant(st.pc,c)+[c]): return 0
        return None
    def merge(s,f,env,st,blk,I,c):
        """both arms up to the immediate postdominator, merged with ite"""
        if s.nomerge: return None
        an=f.an(); j=an['ipd'].get(blk)
        if j is None or j=='$exit': return None
        seen=set(); wl=[I.a[1],I.a[2]]
        while wl:
            x=wl.pop()
            if x==j or x in seen: continue
            seen.add(x)
            if x in an['loops'] or len(seen)>10: return None
            for q in f.blocks[x].ins:
                if q.op in('ret','unreachable'): return None
                if q.op=='call' and not s.mergeable_call(q): return None
            wl.extend(f.blocks[x].succ)
        if j in an['loops'] and blk in an['loops'][j]: return None
        res=[]; nobs=len(s.obs)
        for cond,t in ((c,I.a[1]),(not_(c),I.a[2])):
            st2=st.fork(); st2.add(cond)
            try: r=s.arm(f,dict(env),st2,t,blk,j)
            except NeedInv: raise
            if r is None or len(r)!=1: del s.obs[nobs:]; return None
            res.append(r[0])
        (e1,s1,p1),(e2,s2,p2)=res
        m=s.merge_mem(st,c,s1,s2)
        if m is None: del s.obs[nobs:]; return None
        e=dict(env)
        for ph in f.blocks[j].phis:
            a,b=e1[ph.d],e2[ph.d]
            if isinstance(a,T) and isinstance(b,T): e[ph.d]=ite(c,a,b)
            elif isinstance(a,Ptr) and isinstance(b,Ptr) and a.r is b.r: e[ph.d]=Ptr(a.r,ite(c,a.o,b.o))
            elif a is b or a==b: e[ph.d]=a
            else: del s.obs[nobs:]; return None
        return e,m,j,None
    def mergeable_call(s,q): return q.a[0][0]=='g' and (q.a[0][1].startswith('llvm.'))
    def arm(s,f,env,st,t,blk,j):
        if t==j:
            for ph in f.blocks[j].phis:
                for v,pb in ph.a:
                    if pb==blk: env[ph.d]=s.opv(st,f.mod,env,v,ph.ty)
            # phis read in parallel: values come from before the join
            e0=dict(env); return [(e0,st,blk)]
        r=s.region_run(f,env,st,t,blk,{j})
        if any(x[3]=='ret' for x in r): return None
        return [(x[0],x[1],x[2]) for x in r]
    def merge_mem(s,st,c,a,b):
        m=St(); m.pc=st.pc; m.ghost=dict(a.ghost)
        if a.ghost!=b.ghost or a.freed!=b.freed: return None
        m.freed=a.freed
        if set(a.mem)!=set(b.mem): return None
        for r in a.mem:
            x,y=a.mem[r],b.mem[r]
            if x is y: x.shared=True; m.mem[r]=x; continue
            if x.layers!=y.layers:
                if x.cells or y.cells: return None
                n=0
                while n<len(x.layers) and n<len(y.layers) and x.layers[n] is y.layers[n]: n+=1
                ex_=list(x.layers[n:])+list(y.layers[n:]); roots={L.root for L in ex_ if isinstance(L,W)}
                if len(roots)!=1 or not all(isinstance(L,W) for L in ex_): return None
                root=roots.pop(); keys=set()
                for L in ex_: keys|=set(L.d)
                d={}
                for kk in keys:
                    o=addc(root,kk); p=s.under(a,x.layers,len(x.layers),r,o); q=s.under(b,y.layers,len(y.layers),r,o)
                    if p is q: d[kk]=p; continue
                    if isinstance(p,PB) or isinstance(q,PB): return None
                    d[kk]=ite(c,p,q)
                m.mem[r]=Cont(x.layers[:n]+(W(root,d),)); continue
            lay=x.layers
            cells=dict(x.cells)
            for k in set(x.cells)|set(y.cells):
                p=x.cells.get(k); q=y.cells.get(k)
                if p is q: continue
                if p is None: p=s.under(a,x.layers,len(x.layers),r,c64(k))
                if q is None: q=s.under(b,y.layers,len(y.layers),r,c64(k))
                if p is q: cells[k]=p; continue
                if isinstance(p,PB) or isinstance(q,PB):
                    if isinstance(p,PB) and isinstance(q,PB) and p.i==q.i and s.sameptr(st,p.p,q.p): cells[k]=p; continue
                    return None
                cells[k]=ite(c,p,q)
            m.mem[r]=Cont(lay,cells)
        return m
    def step(s,f,env,st,I):
        op=I.op; mod=f.mod; V=lambda v,t:s.opv(st,mod,env,v,t)
        if op in('add','sub','mul','udiv','sdiv','urem','srem','and','or','xor','shl','lshr','ashr'):
            env[I.d]=s.binop(st,op,V(I.a[0],I.ty),V(I.a[1],I.ty))
        elif op=='icmp': env[I.d]=s.icmp(st,I.x,V(I.a[0],I.ty),V(I.a[1],I.ty))
        elif op=='load':
            p=V(I.a[0],Ty('ptr'))
            if isinstance(p,FnPtr): raise Unsupported('load from a function')
            t=mod.ty(I.ty)
            if t.k=='ptr': env[I.d]=s.loadptr(st,p)
            elif t.k=='i': env[I.d]=s.load(st,p,t.a[0])
            else: raise Unsupported('load '+t.k)
        elif op=='store':
            v=V(I.a[0],I.ty); p=V(I.a[1],Ty('ptr'))
            if isinstance(v,(Ptr,FnPtr)): s.storeptr(st,p,v)
            else: s.store(st,p,v)
        elif op=='gep':
            env[I.d]=s.gep(st,mod,I.ty,V(I.a[0],Ty('ptr')),[(t,V(x,t)) for t,x in I.x])
        elif op=='zext': env[I.d]=zext(V(I.a[0],I.x),mod.ty(I.ty).a[0])
        elif op=='sext': env[I.d]=sext_(V(I.a[0],I.x),mod.ty(I.ty).a[0])
        elif op=='trunc': env[I.d]=ext(V(I.a[0],I.x),mod.ty(I.ty).a[0]-1,0)
        elif op=='ptrtoint':
            env[I.d]=ext(s.p2i(V(I.a[0],I.x)),mod.ty(I.ty).a[0]-1,0)
        elif op=='inttoptr':
            env[I.d]=s.i2p(st,V(I.a[0],I.x))
        elif op in('bitcast','freeze'): env[I.d]=V(I.a[0],I.x if op=='bitcast' else I.ty)
        elif op=='alloca':
            n=V(I.a[0],Ty('i',32)); sz=mod.size(I.ty); s.nn+=1
            r=Region('%s.%s#%d'%(f.name,I.d,s.nn),sz*val(n) if isc(n) else mul(zext(n,64),c64(sz)),None,'alloca'); st.mem[r]=Cont(); env[I.d]=Ptr(r,c64(0))
        else: raise Unsupported('instruction '+op)
    def i2p(s,st,t):
        if isc(t) and val(t)==0: return NULL
        for r in st.mem:
            a=r.addr()
            d=sub(t,a)
            if a not in fvs_set(d): return Ptr(r,d)
        raise Unsupported('inttoptr')
    def docall(s,f,env,st,I):
        v=I.a[0]; args=[s.opv(st,f.mod,env,x,t) for t,x in I.x if t.k!='metadata']
        if v[0]=='g': name=v[1]; mod=f.mod
        else:
            fp=s.opv(st,f.mod,env,v,Ty('ptr'))
            if isinstance(fp,FnPtr): name=fp.name; mod=fp.mod
            else: s.ob('valid-call',False,'call through %s in %s'%(fp,s.where)); raise Infeasible()
        if name.startswith('llvm.'):
            if name.startswith('llvm.memset'): s.memset(st,args[0],args[1],args[2]); return [(st,None)]
            if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'): s.memcpy(st,args[0],args[1],args[2],'move' in name); return [(st,None)]
            if name.startswith(('llvm.lifetime','llvm.dbg','llvm.assume')): return [(st,None)]
            if name.startswith('llvm.abs'): a=args[0]; return [(st,ite(slt(a,C(a.w,0)),neg(a),a))]
            if name.startswith(('llvm.umin','llvm.umax','llvm.smin','llvm.smax')):
                a,b=args[:2]; c=(ult if name[5]=='u' else slt)(a,b)
                return [(st,ite(c,a,b) if 'min' in name else ite(c,b,a))]
            if name.startswith(('llvm.fshl','llvm.fshr')) and isc(args[2]):
                w=args[0].w; n=val(args[2])%w; x=cat([args[0],args[1]])
                return [(st,ext(x,2*w-1-n,w-n) if name[8]=='l' else ext(x,w-1+n,n))]
            if name.startswith('llvm.bswap'):
                a=args[0]; return [(st,cat([ext(a,i+7,i) for i in range(0,a.w,8)]))]
            if name.startswith('llvm.uadd.sat'): pass
            raise Unsupported(name)
        w=s.where
        r=s.call(st,name,args,mod); s.where=w; return r
    def memset(s,st,p,v,n):
        if isc(n):
            if val(n)==0: return
            if val(n)<=70000: s.storeb(st,p,[v]*val(n)); return
        if not s.brange(st,p,n,'store'): return
        s.addlam(st,p.r,p.o,add(p.o,n),lambda ex,st2,o:v)
    def brange(s,st,p,n,what):
        """[p, p+n) in bounds; False when n is zero"""
        if s.proves(st,eq(n,c64(0))): return False
        if p.r is None:
            s.ob('valid-pointer',False,'%s range through null in %s'%(what,s.where)); raise Infeasible()
        if p.r in st.freed: s.ob('no-use-after-free',False,s.where); raise Infeasible()
        ok=s.proves(st,and_(ule(n,p.r.size),ule(p.o,sub(p.r.size,n))))
        if not s.ob('in-bounds',ok,'' if ok else '%s of %s bytes at %s+%s (size %s) in %s'%(what,n,p.r.name,p.o,p.r.size,s.where)): raise Infeasible()
        if what=='store' and p.r.ro: s.ob('frame',False,'store to read only %s in %s'%(p.r.name,s.where))
        return True
    def addlam(s,st,r,lo,hi,f):
        c=s.cont(st,r); lay=c.layers
        if c.cells: lay=lay+(Cells(c.cells),)
        st.mem[r]=Cont(lay+(Lam(lo,hi,f),))
    def memcpy(s,st,d,p,n,move=False):
        if isc(n):
            if val(n)==0: return
            b=s.load_bytes(st,p,val(n)) 
            if not move and d.r is p.r: s.nooverlap(st,d,p,n)
            s.storeb(st,d,b); return
        if not s.brange(st,p,n,'load'): return
        s.brange(st,d,n,'store')
        if not move and d.r is p.r: s.nooverlap(st,d,p,n)
        snap=s.cont(st,p.r); snap.shared=True; delta=sub(p.o,d.o); r=p.r
        s.addlam(st,d.r,d.o,add(d.o,n),lambda ex,st2,o:ex.rbyte(st2,snap,r,add(o,delta)))
    def nooverlap(s,st,d,p,n):
        dd=sub(d.o,p.o)
        if isc(dd) and isc(n): 
            k=val(dd); ok=k>=val(n) and k<=(1<<64)-val(n)
            if k==0: ok=True # same object: harmless in practice, counted as fine
        else: ok=s.proves(st,or_(or_(ule(add(p.o,n),d.o),ule(add(d.o,n),p.o)),eq(d.o,p.o)))
        s.ob('memcpy-overlap',ok,s.where)
    # ------------------------------------------------------------ loops
    def loop(s,f,h,env,st,prev,stop):
        """None: execute as is; otherwise results of the cut loop"""
        if not s.invs: return None
        from loops import cut
        return cut(s,f,h,env,st,prev,stop)
    def noleak(s,st):
        for r in st.mem:
            if r.kind=='heap': s.ob('no-leak',r in st.freed,'%s is not released'%r.name)
    # ------------------------------------------------------------ comparison of contents
    def equal_content(s,st,r,A,B,name,size=None,dc=None):
        """contents A and B of region r agree on [0,size)"""
        size=r.size if size is None else size
        if A is B: return s.ob(name,True)
        n=0
        while n<len(A.layers) and n<len(B.layers) and A.layers[n] is B.layers[n]: n+=1
        # deeper common structure: cells layers with equal dicts count as shared
        offs=[]; 
        for X in (A,B):
            for L in list(X.layers[n:])+[Cells(X.cells)]:
                if isinstance(L,Cells): offs+=[c64(k) for k in L.d]
                elif isinstance(L,W): offs+=[addc(L.root,i) for i in L.d]
        offs=list(dict.fromkeys(offs))
        lam=any(isinstance(L,Lam) for X in (A,B) for L in X.layers[n:])
        for o in offs:
            if isc(o) and isc(size) and val(o)>=val(size): continue
            if not(isc(o) and isc(size)):
                if s.proves(st,ule(size,o)): continue
            st_=st
            if dc is not None:
                d=dc(o)
                if s.proves(st,d): continue
                st_=st.fork(); st_.add(not_(d))
            a=s.rbyte(st_,A,r,o); b=s.rbyte(st_,B,r,o)
            if not s.same(st_,a,b): return s.ob(name,False,'%s at offset %s: %s, expected %s'%(r.name,o,a,b))
        if lam:
            lg=r.gran.bit_length()-1; q=fresh(56-lg,'o')
            for j in range(r.gran):
                if 1<<lg!=r.gran: o=addc(mul(zext(q,64),c64(r.gran)),j)
                else: o=zext(cat([q,C(lg,j)]) if lg else q,64)
                x=s.equal_lam(st,r,A,B,n,o,offs,size,dc)
                if x is not None: return s.ob(name,False,x)
        return s.ob(name,True)
    def equal_lam(s,st,r,A,B,n,o,offs,size,dc):
        """contents at the generic offset o; None when equal"""
        st2=st.fork(); st2.add(ult(o,size))
        for w in offs: st2.add(not_(eq(o,w)))
        if dc is not None: st2.add(not_(dc(o)))
        if s.prune(st2): return None
        def leaves(X):
            r=[];neg_=[]
            for i in range(len(X.layers)-1,n-1,-1):
                L=X.layers[i]
                if isinstance(L,Lam):
                    c=and_(ule(L.lo,o),ult(o,L.hi)); r.append((neg_+[c],L.f)); neg_=neg_+[not_(c)]
            r.append((neg_,None)); return r
        def ev(f,st3): return s.under(st3,A.layers,n,r,o) if f is None else f(s,st3,o)
        for ca,fa in leaves(A):
            for cb,fb in leaves(B):
                if fa is fb: continue
                st3=st2.fork()
                for c in ca+cb: 
                    if isc(c) and val(c)==0: break
                    st3.add(c)
                else:
                    if s.prune(st3): continue
                    a=ev(fa,st3); b=ev(fb,st3)
                    if not s.same(st3,a,b): return '%s at offset %s: %s, expected %s under %s'%(r.name,o,a,b,st3.pc)
        return None
    def ensures(s,st,r,f,name,size=None):
        """the content of r is f(ex,st,offset) on [0,size)"""
        size=r.size if size is None else size
        return s.equal_content(st,r,s.cont(st,r),Cont((Lam(c64(0),size,f),)),name,size)
# ---------------------------------------------------------------- helpers
_fv={}
def fvs(t):
    r=_fv.get(t)
    if r is None:
        st=[t]
        while st:
            x=st[-1]
            if x in _fv: st.pop(); continue
            ch=[c for c in children(x) if c not in _fv]
            if ch: st.extend(ch); continue
            st.pop()
            if x.op=='sym': _fv[x]=frozenset((x.id,))
            else:
                q=frozenset()
                for c in children(x):
                    if not _fv[c]<=q: q=q|_fv[c]
                if x.op=='uf' and not q: q=frozenset((x.a[0],))
                _fv[x]=q
        r=_fv[t]
    return r
def fvs_set(t):
    seen=set(); st=[t]
    while st:
        x=st.pop()
        if x in seen: continue
        seen.add(x); st.extend(children(x))
    return seen
def first_ite(a,b):
    """condition of an ite in one of the terms"""
    seen=set(); st=[a,b]
    while st:
        x=st.pop()
        if x in seen: continue
        seen.add(x)
        if len(seen)>400: return None
        if x.op=='ite': 
            c=x.a[0]; y=first_ite1(c)
            return y if y is not None else c
        st.extend(children(x))
def first_ite1(c):
    seen=set(); st=[c]
    while st:
        x=st.pop()
        if x in seen: continue
        seen.add(x)
        if x.op=='ite': return first_ite1(x.a[0]) or x.a[0]
        st.extend(children(x))
def resolve(t,c,v):
    """t with the ites on c replaced by an arm"""
    mp={c:TRUE if v else FALSE}
    return subst(t,mp)
def sext_(t,w=64):
    if w==t.w: return t
    if ub(t)<1<<(t.w-1): return zext(t,w)
    return sext(t,w)
_db={}
def data_bit(c):
    """a condition made of data bits only (no comparison): both values are possible in general"""
    r=_db.get(c)
    if r is None:
        op=c.op
        if op in('eq','ult','slt'): r=False
        elif op in('xor','and'): r=all(data_bit(x) for x in children(c))
        elif op in('ext','uf','sym','tab'): r=True
        elif op=='ite': r=False
        else: r=False
        _db[c]=r
    return r
def refuted(e,n=12):
    """evaluation of a 1-bit term at random points: True when it is false somewhere"""
    for i in range(n):
        rnd=random.Random(i); env={}
        def en(name,w):
            if name not in env: env[name]=rnd.choice((0,M(w),rnd.getrandbits(w),rnd.getrandbits(w)))
            return env[name]
        ut={}
        def ufs(name,args,w):
            k=(name,args,w)
            if k not in ut: ut[k]=rnd.getrandbits(w)
            return ut[k]
        if evaluate(e,en,{},ufs)==0: return True
    return False
def b_malloc(s,st,args):
    n=args[0]; s.nn+=1
    r=Region('heap#%d'%s.nn,n,None,'heap'); ok=st.fork(); ok.mem[r]=Cont()
    return [(ok,Ptr(r,c64(0))),(st,NULL)]
def b_calloc(s,st,args):
    n=mul(args[0],args[1]); s.nn+=1
    r=Region('heap#%d'%s.nn,n,lambda o:C(8,0),'heap'); ok=st.fork(); ok.mem[r]=Cont()
    return [(ok,Ptr(r,c64(0))),(st,NULL)]
def b_free(s,st,args):
    p=args[0]
    if p.r is None: return [(st,None)]
    ok=p.r.kind=='heap' and p.r not in st.freed and isc(p.o) and val(p.o)==0
    if not s.ob('valid-free',ok,'' if ok else '%s in %s'%(p,s.where)): raise Infeasible()
    st.freed=st.freed|{p.r}; return [(st,None)]
def b_realloc(s,st,args):
    p,n=args
    if p.r is None: return b_malloc(s,st,[n])
    ok=p.r.kind=='heap' and p.r not in st.freed and isc(p.o) and val(p.o)==0
    if not s.ob('valid-free',ok,'' if ok else '%s in %s'%(p,s.where)): raise Infeasible()
    s.nn+=1; t=st.fork(); c=s.cont(t,p.r); r=Region('heap#%d'%s.nn,n,p.r.base,'heap'); r.gran=p.r.gran; t.mem[r]=Cont(c.layers,dict(c.cells)); t.freed=t.freed|{p.r}
    return [(t,Ptr(r,c64(0))),(st,NULL)]
def b_memset(s,st,args): s.memset(st,args[0],ext(args[1],7,0),args[2]); return [(st,args[0])]
def b_memcpy(s,st,args): s.memcpy(st,args[0],args[1],args[2]); return [(st,args[0])]
def b_memmove(s,st,args): s.memcpy(st,args[0],args[1],args[2],True); return [(st,args[0])]
def b_memcmp(s,st,args):
    a,b,n=args
    if not isc(n): raise Unsupported('memcmp of symbolic length')
    x=s.load_bytes(st,a,val(n)); y=s.load_bytes(st,b,val(n)); e=TRUE
    for p,q in zip(x,y): e=and_(e,eq(p,q))
    r=fresh(32,'memcmp'); st.add(eq(eq(r,C(32,0)),e)); return [(st,ite(e,C(32,0),or_(r,C(32,1))))]
BUILTIN={'malloc':b_malloc,'calloc':b_calloc,'free':b_free,'realloc':b_realloc,'memset':b_memset,'memcpy':b_memcpy,'memmove':b_memmove,'memcmp':b_memcmp}
