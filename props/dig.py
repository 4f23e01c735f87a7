"""Numbers as arrays of digits (64-bit words), for the functions that work on digits."""
from pv import *
from layout import layout
LAY=lambda:layout('cry/mpi.h','struct cry_mpi',('sign','used','alloc','data'))
def wbytes(w):
    """bytes of the words w(ex,st,i)"""
    def f(ex,st,off):
        lo=ext(off,2,0); x=w(ex,st,index(ex,st,addc(off,-val(lo)) if isc(lo) else off))
        if isc(lo): return ext(x,8*val(lo)+7,8*val(lo))
        r=ext(x,7,0)
        for i in range(1,8): r=ite(eq(lo,C(3,i)),ext(x,8*i+7,8*i),r)
        return r
    return f
def x8(t): return shl_(t,3)
def div8(o):
    """a term i with 8i = o (modulo 2^64) without a shift, where there is one; only a candidate: the invariant it goes into is checked"""
    sg=lambda v:v-(1<<64) if v>>63 else v
    if o.op=='add' and not any(sg(v)%8 for v in [o.a[0]]+[k for k,_ in o.a[1]]): return add_l(64,[(sg(k)//8,t) for k,t in o.a[1]],sg(o.a[0])//8)
    return lshr(o,3)
def shl_(t,n): return mul(t,c64(1<<n))
def index(ex,st,o):
    """o div 8, without a shift where the path condition shows that nothing is lost"""
    i=div8(o); j=lshr(o,3)
    if i is j or ex.proves(st,ult(i,c64(1<<56))): return i   # 8i = o modulo 2^64 and 8i does not wrap: i = o div 8
    return j
class DW:
    """a world of numbers"""
    def __init__(s,ex=None):
        s.ex=ex or Ex(); s.st=St(); s.n={}; s.L=LAY(); ex=s.ex; ex.nomerge=True; ex.forksel=True; ex.nounroll=True; ex.short=0; ex.quick=True
        ex.hooks.update({'cry_mpi_grow':h_grow})
    def num(s,name,const=False,norm=True):
        ex,st=s.ex,s.st; o=ex.region(st,name,s.L[''][1],ufbytes(name)); used=zext(sym(32,name+'.used'),64); al=zext(sym(33,name+'.alloc'),64); sg=zext(sym(1,name+'.sign'),32)
        st.add(ule(used,al)); st.add(ule(c64(1),al)); d=Region(name+'.data',x8(al),ufbytes(name.upper(),64),'heap'); d.gran=8; d.ro=False; st.mem[d]=Cont(); N=dict(name=name,p=Ptr(o,c64(0)),used=used,alloc=al,sign=sg,data=d,D=lambda i,n=name.upper():uf(64,n,i)); s.n[name]=N
        if norm: st.add(or_(eq(used,c64(0)),not_(eq(N['D'](addc(used,-1)),c64(0))))); st.add(or_(not_(eq(used,c64(0))),eq(sg,C(32,0))))
        for f,v in(('sign',sg),('used',used),('alloc',al)): ex.store(st,s.f(N,f),v)
        ex.storeptr(st,s.f(N,'data'),Ptr(d,c64(0))); d.ro=const; o.ro=const; return N
    def raw(s,name):
        """an object that is not initialized"""
        o=s.ex.region(s.st,name,s.L[''][1],ufbytes(name)); return dict(name=name,p=Ptr(o,c64(0)))
    def f(s,N,f): return Ptr(N['p'].r,addc(N['p'].o,s.L[f][0]))
    def get(s,st,N,f): return s.ex.load(st,s.f(N,f),s.L[f][1]*8)
    def data(s,st,N): return s.ex.loadptr(st,s.f(N,'data'))
    def digit(s,N,i):
        """digit i of the value: zero from used on"""
        return ite(ult(i,N['used']),N['D'](i),c64(0))
    def valid(s,st,N):
        """a valid object, whatever its value"""
        ex=s.ex; u=s.get(st,N,'used'); a=s.get(st,N,'alloc'); p=s.data(st,N); sg=s.get(st,N,'sign')
        ex.ob('ensures: valid number',ex.proves(st,ule(u,a)) and isinstance(p,Ptr) and p.r is not None and p.r not in st.freed and isc(p.o) and val(p.o)==0 and ex.proves(st,ule(x8(a),p.r.size)) and ex.proves(st,ule(sg,C(32,1))),'used %s alloc %s data %s sign %s'%(u,a,p,sg))
    def same(s,st,N,what='frame'):
        """the object and its digits are as before"""
        ex=s.ex; p=s.data(st,N); ex.ob(what,ex.sameptr(st,p,Ptr(N['data'],c64(0))),'data of %s'%N['name'])
        for f in('sign','used','alloc'): ex.ob(what,ex.same(st,s.get(st,N,f),N[f]),'%s of %s: %s'%(f,N['name'],s.get(st,N,f)))
        ex.equal_content(st,N['data'],ex.cont(st,N['data']),Cont(),what)
    def digits(s,st,N,w,n,what):
        """the first n digits of N are w(i)"""
        ex=s.ex; p=s.data(st,N); ex.equal_content(st,p.r,ex.cont(st,p.r),Cont((Lam(c64(0),x8(n),wbytes(w)),)),what,x8(n))
    def heap(s,st):
        """every allocated array has one owner"""
        own={}
        for r,c in st.mem.items():
            if r in st.freed or r.kind=='alloca': continue
            for o,b in c.cells.items():
                if isinstance(b,PB) and b.i==0 and b.p.r is not None: own.setdefault(b.p.r,[]).append((r,o))
        for r in st.mem:
            if r.kind=='heap' and r not in st.freed: s.ex.ob('no-leak',len(own.get(r,()))==1,'%s: owners %s'%(r.name,own.get(r)))
        for r in own: s.ex.ob('no-dangling',r not in st.freed,r.name)
def outcomes(w,fn,args,R,fail=None,mod=None):
    """states in which fn succeeds; what every outcome must satisfy is checked"""
    ex=w.ex; nf=0
    for s2,res in ex.call(w.st,fn,args,top=True):
        if not ex.feasible(s2): continue
        for N in w.n.values():
            w.valid(s2,N)
            if N is not R: w.same(s2,N)
        w.heap(s2)
        if s2.ghost.get('failed'): ex.ob('ensures: failure is reported',ex.proves(s2,not_(eq(res,C(32,0))))); (fail or (lambda s2,res:None))(s2,res); continue
        nf+=1; yield s2,res
    ex.ob('reachable',nf>0)
def is0(r): return eq(r,C(32,0))
def h_grow(ex,st,args):
    """contract of cry_mpi_grow: room for n digits, the digits are kept, or failure and nothing changes"""
    p,n=args; L=LAY(); F=lambda f:Ptr(p.r,addc(p.o,L[f][0])); al=ex.load(st,F('alloc'),64); d=ex.loadptr(st,F('data')); out=[]
    ex.ob('requires: a sane size',ex.proves(st,ult(n,c64(1<<56))),str(n))
    le=ule(n,al)
    if not ex.proves(st,not_(le)):
        t=st.fork(); t.add(le)
        if ex.feasible(t): out.append((t,C(32,0)))
        st.add(not_(le))
        if not ex.feasible(st): return out
    bad=st.fork(); bad.ghost['failed']=True
    ex.nn+=1; na=zext(sym(60,'alloc#%d'%ex.nn),64); st.add(ule(n,na)); old=d.r; c=ex.cont(st,old); c.shared=True
    r=Region('digits#%d'%ex.nn,x8(na),old.base,'heap'); r.gran=8; st.mem[r]=Cont(c.layers,dict(c.cells)); st.freed=st.freed|{old}
    ex.store(st,F('alloc'),na); ex.storeptr(st,F('data'),Ptr(r,c64(0))); return out+[(st,C(32,0)),(bad,C(32,M(32)))]
def h_copy(ex,st,args):
    """contract of cry_mpi_copy"""
    d,p=args; L=LAY(); F=lambda q,f:Ptr(q.r,addc(q.o,L[f][0])); bad=[]
    if ex.sameptr(st,d,p): return [(st,C(32,0))]
    u=ex.load(st,F(p,'used'),64); sg=ex.load(st,F(p,'sign'),32); src=ex.loadptr(st,F(p,'data')); al=ex.load(st,F(d,'alloc'),64); old=ex.loadptr(st,F(d,'data')).r
    bad=st.fork(); bad.add(ult(al,u)); bad.ghost['failed']=True
    ex.nn+=1; na=zext(sym(60,'alloc#%d'%ex.nn),64); st.add(ule(u,na)); st.add(ule(al,na)); r=Region('digits#%d'%ex.nn,x8(na),ufbytes('rest#%d'%ex.nn,64),'heap'); r.gran=8; st.mem[r]=Cont(); st.freed=st.freed|{old}
    snap=ex.cont(st,src.r); snap.shared=True; sr=src.r; ex.addlam(st,r,c64(0),x8(u),lambda ex,st2,o:ex.rbyte(st2,snap,sr,o))
    ex.store(st,F(d,'alloc'),na); ex.store(st,F(d,'used'),u); ex.store(st,F(d,'sign'),sg); ex.storeptr(st,F(d,'data'),Ptr(r,c64(0)))
    return [(st,C(32,0))]+([(bad,C(32,M(32)))] if ex.feasible(bad) else [])
def low(i): return uf(64,'low',i)          # stands for the integer made of the digits of the result below i
class Adjust(Inv):
    """k leading zero digits are dropped: the value is the same"""
    name='leading zeros dropped'
    def __init__(s,w,R,word): s.w=w; s.R=R; s.word=word
    def applies(s,ex,f,h,env,st): s.u0=s.w.get(st,s.R,'used'); return True
    def mem(s,ex,st0,st,k): ex.store(st,s.w.f(s.R,'used'),sub(s.u0,k)); return {s.R['p'].r}
    def defs(s,ex,st,k): i=addc(sub(s.u0,k),-1); return [or_(not_(eq(s.word(ex,st,i),c64(0))),eq(low(addc(i,1)),low(i)))] # d(i) = 0: low(i+1) = low(i)
    def facts(s,ex,st,k): return [ule(k,s.u0),eq(low(sub(s.u0,k)),low(s.u0))]
def normalized(w,s2,R,S,n,what):
    """the number R holds the value of the n digits S, without leading zeros"""
    ex=w.ex; u=w.get(s2,R,'used'); ex.ob('ensures: '+what,ex.proves(s2,eq(low(u),low(n))),'%s digits of %s'%(u,n)); w.digits(s2,R,S,u,'ensures: '+what)
    ex.ob('ensures: no leading zero digit',ex.proves(s2,or_(eq(u,c64(0)),not_(eq(S(ex,s2,addc(u,-1)),c64(0))))))
class DInv(Inv):
    """base: the digits of the result below the index of the iteration are those of the specification"""
    free=True; up=True
    def __init__(s,w,word,res): s.w=w; s.word=word; s.res=res   # word(ex,st,i): result digit i
    def rdata(s,ex,st): return s.w.data(st,s.res).r
    def tune(s,ex,steps,init):
        s.i0=None; r=s.rd
        for n,v in init.items():
            d=steps[n]
            if isinstance(v,Ptr) and v.r is r and isinstance(d,T) and val(d) in(8,(1<<64)-8): s.i0=div8(v.o); s.dir=1 if val(d)==8 else -1; s.exactptr=True; return
        for n,v in init.items():
            d=steps[n]
            if isinstance(v,T) and v.w in(32,64) and isinstance(d,T) and val(d) in(1,M(v.w)): s.i0=v; s.dir=1 if val(d)==1 else -1; return
    def applies(s,ex,f,h,env,st): s.rd=s.rdata(ex,st); s.i0=None; return True
    def idx(s,k): return add(s.i0,k) if s.i0.w==64 else zext(add(s.i0,ext(k,s.i0.w-1,0)),64)
    def mem(s,ex,st0,st,k):
        if s.i0 is None: return {s.rd}
        ex.addlam(st,s.rd,c64(0),x8(s.idx(k)),wbytes(s.word)); return {s.rd}
