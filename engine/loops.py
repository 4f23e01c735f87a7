"""Loops cut by inductive invariants.

   The header values that move by a constant per iteration get the closed form init + k*step; memory after
   k iterations is described by the invariant of the contract (definitional: spec functions of k) and, for
   regions it does not mention, by an inferred map  off -> value(iteration that wrote off).  Everything
   (inferred or given) is checked: it holds at k=0, and one execution of the body takes it from k to k+1.
   A counter bound is proved too, so a cut loop terminates."""
import copy
from terms import *
from ex import *
import ex as _ex
KB=48
class Inv:
    """base class of the invariants of contracts"""
    name='inv'; eager=False; exact=None; free=False       # free: header values without closed form are ghost sequences fv(i,k)
    def fv(s,i,k):
        nm,w,r=s.frees[i]; return uf(w,nm,k)
    def tune(s,ex,steps,init): pass           # the steps of the header values are known
    def applies(s,ex,f,h,env,st): return True
    def mem(s,ex,st0,st,k): return set()     # set the content of regions after k iterations; return these regions
    def facts(s,ex,st,k): return []
    def defs(s,ex,st,k): return []            # definitions of ghost functions at k (assumed: they must be conservative)
    def phis(s,ex,st,k): return []            # candidate values for header values that are not affine
    def dontcare(s,ex,st,r,k): return None    # offsets of r about which nothing is said: function off -> condition
    def anyregs(s,ex): return ()              # regions whose content is arbitrary
    def unfold(s,ex,st,k): pass               # called with the generic k: register definitions at k+1
def exits_of(f,L):
    r=[]
    for b in L:
        for x in f.blocks[b].succ:
            if x not in L and x not in r: r.append(x)
    return r
def cut(ex,f,h,env,st,prev,stop):
    L=f.an()['loops'][h]; exits=set(exits_of(f,L)); key=(f.name,h)
    n0=len(ex.obs)
    # 0. short loops whose exits all agree with a function of the state at the entry
    for sm in getattr(ex,'summaries',()):
        r=try_summary(ex,sm,f,h,exits,env,st)
        if r is not None: return r
    # 0b. invariants that are preferred to execution
    for inv in ex.invs:
        if not inv.eager: continue
        inv=copy.copy(inv)
        if not inv.applies(ex,f,h,env,st): continue
        r=try_inv(ex,inv,f,h,L,exits,env,st,[])
        if r is not None: return r
    # 1. constant trip count: execute
    if not getattr(ex,'nounroll',False):
        sv=(ex.tent_unroll,getattr(ex,'cur_loop',None)); ex.tent_unroll=1; ex.cur_loop=(f,L)
        try:
            r=ex.region_run(f,dict(env),st.fork(),h,None,exits)
            return [(e,s2,p,'exit',b) if b!='ret' else (e,s2,p,'ret',v) for e,s2,p,b,v in r]
        except NeedInv as x:
            if x.fn!=f.name: raise
            del ex.obs[n0:]
        except Unsupported:
            del ex.obs[n0:]
            if not sv[0]: pass
        finally: ex.tent_unroll,ex.cur_loop=sv
    errs=[]
    if getattr(ex,'short',0) and len(L)<=6 and not any(x!=h and x in L for x in f.an()['loops']): # few iterations, early exits
        sv=(ex.tent_unroll,getattr(ex,'cur_loop',None),ex.unroll,ex.maxpaths); ex.tent_unroll=0; ex.cur_loop=None; n0=len(ex.obs)
        try:
            ex.unroll=ex.short; ex.maxpaths=2*ex.short+4
            r=ex.region_run(f,dict(env),st.fork(),h,None,exits)
            return [(e,s2,p,'exit',b) if b!='ret' else (e,s2,p,'ret',v) for e,s2,p,b,v in r]
        except (NeedInv,Unsupported) as x: del ex.obs[n0:]
        finally: ex.tent_unroll,ex.cur_loop,ex.unroll,ex.maxpaths=sv
    for inv in ex.invs:
        if inv.eager: continue
        inv=copy.copy(inv)
        if not inv.applies(ex,f,h,env,st): continue
        r=try_inv(ex,inv,f,h,L,exits,env,st,errs)
        if r is not None: return r
    # 3. a few iterations at most, the exits depend on data: one path per exit
    sv=(ex.tent_unroll,getattr(ex,'cur_loop',None),ex.unroll,ex.maxpaths); ex.tent_unroll=0; ex.cur_loop=None; n0=len(ex.obs)
    try:
        ex.unroll=40; ex.maxpaths=60
        r=ex.region_run(f,dict(env),st.fork(),h,None,exits)
        return [(e,s2,p,'exit',b) if b!='ret' else (e,s2,p,'ret',v) for e,s2,p,b,v in r]
    except (NeedInv,Unsupported) as x: del ex.obs[n0:]; errs.append('execution: %s'%x)
    finally: ex.tent_unroll,ex.cur_loop,ex.unroll,ex.maxpaths=sv
    best=max(errs,key=len) if errs else 'no invariant'
    raise Unsupported('loop invariant of %s at %s not established: %s'%(f.name,h,' | '.join(x[:400] for x in errs) or 'none applies'))
def try_inv(ex,inv,f,h,L,exits,env,st,errs):
    key=(f.name,h); ex.tent+=1; n0=len(ex.obs)
    sv=(ex.tent_unroll,getattr(ex,'cur_loop',None)); ex.tent_unroll=0; ex.cur_loop=None
    try:
        r=attempt(ex,inv,f,h,L,exits,env,st.fork())
        if ex.trace: print('loop',key,'cut by',inv.name)
        ex.cuts=getattr(ex,'cuts',[]); ex.cuts.append((f.name,h,inv.name))
        return r
    except (Fail,Unsupported,Infeasible) as e:
        errs.append('%s: %s'%(inv.name,e)); del ex.obs[n0:]
        if ex.trace: print('loop',key,'not',errs[-1][:1500])
        return None
    finally: ex.tent-=1; ex.tent_unroll,ex.cur_loop=sv
def join_exit(f,exits):
    """the block where the exits meet, following straight lines"""
    ch=[]
    for b in sorted(exits):
        c=[b]
        while len(f.blocks[c[-1]].succ)==1 and f.blocks[c[-1]].succ[0] not in c and len(c)<4: c.append(f.blocks[c[-1]].succ[0])
        ch.append(c)
    for b in ch[0]:
        if all(b in c for c in ch): return {b}
    return exits
def try_summary(ex,sm,f,h,exits,env,st):
    if not sm.applies(ex,f,h,env,st): return None
    if len(exits)>1: exits=join_exit(f,exits)
    sv=(ex.tent_unroll,getattr(ex,'cur_loop',None),ex.unroll,ex.maxpaths); ex.tent_unroll=0; ex.cur_loop=None; n0=len(ex.obs); ex.tent+=1
    try:
        ex.unroll=40; ex.maxpaths=60
        g=St(); g.mem=dict(st.mem); gen=set(); g.ghost=dict(st.ghost); g.freed=st.freed # generalized: arbitrary bytes, no path condition
        for c in g.mem.values(): c.shared=True
        for rg,c in st.mem.items():
            if rg.kind=='global' or len(c.cells)>80: continue
            n=Cont(c.layers,dict(c.cells)); n.shared=True; g.mem[rg]=n
            for o,v in c.cells.items():
                if isinstance(v,T) and not isc(v) and v.w==8: n.cells[o]=sym(8,'gen!%s!%d'%(rg.name,o)); gen.add(n.cells[o])
        r=[x for x in ex.region_run(f,dict(env),g.fork(),h,None,exits) if ex.feasible(x[1])]
        if not r or any(x[3]=='ret' for x in r) or len({x[3] for x in r})!=1 or (len({x[2] for x in r})!=1 and f.blocks[r[0][3]].phis): raise Fail('exits differ')
        s2=sm.summarize(ex,f,h,st,g,[x[1] for x in r]); e=dict(r[0][0])
        for n in list(e): # values that differ between the exits are forgotten
            vs=[x[0].get(n) for x in r]
            if any(v is None for v in vs): del e[n]
            elif any(v is not vs[0] for v in vs[1:]) or (isinstance(vs[0],T) and gen&fvs_set(vs[0])) or (isinstance(vs[0],Ptr) and gen&fvs_set(vs[0].o)):
                v=vs[0]
                if isinstance(v,T): e[n]=fresh(v.w,'any')
                elif all(isinstance(q,Ptr) and q.r is v.r for q in vs): e[n]=Ptr(v.r,fresh(64,'any'))
                else: del e[n]
        ex.cuts=getattr(ex,'cuts',[]); ex.cuts.append((f.name,h,sm.name)); return [(e,s2,r[0][2],'exit',r[0][3])]
    except (Fail,Unsupported,Infeasible,NeedInv) as x:
        del ex.obs[n0:]
        if ex.trace: print('loop',(f.name,h),'not',sm.name,str(x)[:300])
        return None
    finally: ex.tent_unroll,ex.cur_loop,ex.unroll,ex.maxpaths=sv; ex.tent-=1
class IncBE:
    """a contiguous range of bytes of one object is incremented as a big-endian integer"""
    name='big-endian increment'
    def applies(s,ex,f,h,env,st): return len(f.an()['loops'][h])<=4
    def summarize(s,ex,f,h,st,g,outs):
        ch={r for o in outs for r in o.mem if r in g.mem and differs(o.mem[r],g.mem[r])}
        if len(ch)!=1: raise Fail('%d objects change'%len(ch))
        r=ch.pop(); offs=set()
        for o in outs:
            if o.mem[r].layers!=g.mem[r].layers: raise Fail('symbolic offsets')
            offs|={k for k,v in o.mem[r].cells.items() if g.mem[r].cells.get(k) is not v}
        a,b=min(offs),max(offs)
        def rd(st): return [ex.rbyte(st,st.mem[r],r,c64(i)) for i in range(a,b+1)]
        def inc(old):
            if any(isinstance(x,PB) for x in old): raise Fail('pointer')
            n=len(old); v=addc(cat(old),1); return [ext(v,8*(n-1-i)+7,8*(n-1-i)) for i in range(n)]
        new=inc(rd(g))
        for o in outs:
            for x,y in zip(rd(o),new): ex.ob('loop-summary',ex.same(o,x,y),'%s, expected %s'%(x,y))
        t=st.fork(); ex.storeb(t,Ptr(r,c64(a)),inc(rd(st))); return t
def delta(new,old):
    if isinstance(new,T) and isinstance(old,T):
        d=sub(new,old); return d if isc(d) else None
    if isinstance(new,Ptr) and isinstance(old,Ptr) and new.r is old.r and new.r is not None:
        d=sub(new.o,old.o); return d if isc(d) else None
    return None
def generic(ex,f,h,L,exits,env,st):
    back=[];ext_=[]
    for e,s2,p,b,v in ex.region_run(f,dict(env),st,h,None,exits|{h}):
        if b==h: back.append((e,s2))
        elif b=='ret': ext_.append((e,s2,p,'ret',v))
        else: ext_.append((e,s2,p,'exit',b))
    return back,ext_
def attempt(ex,inv,f,h,L,exits,env,st):
    phis=f.blocks[h].phis; nobs=len(ex.obs)
    init={p.d:env[p.d] for p in phis}
    # ---- probe: steps of the header values
    ex.lenient=getattr(ex,'lenient',0)+1
    k=zext(fresh(KB,'k'),64); k48=ext(k,KB-1,0)
    try:
        e=dict(env); fr={}
        for p in phis:
            v=init[p.d]
            if isinstance(v,T): fr[p.d]=fresh(v.w,'phi')
            elif isinstance(v,Ptr) and v.r is not None: fr[p.d]=Ptr(v.r,fresh(64,'phi'))
            else: fr[p.d]=v
            e[p.d]=fr[p.d]
        st1=st.fork(); regs0=inv.mem(ex,st,st1,k) or set(); st1.pc=()
        inv.unfold(ex,st1,k)
        back,_=generic(ex,f,h,L,exits,e,st1)
    finally: ex.lenient-=1
    if not back: raise Fail('the body never reaches the header again')
    step={}
    for p in phis:
        ds={delta(b[0][p.d],fr[p.d]) for b in back}
        step[p.d]=ds.pop() if len(ds)==1 else None
        if step[p.d] is None and all(b[0][p.d] is init[p.d] for b in back) : step[p.d]='same'
    inv.tune(ex,step,init)
    st1=st.fork(); regs0=inv.mem(ex,st,st1,k) or set()
    def at(k,cand):
        r={}
        for p in phis:
            v=init[p.d]; d=step[p.d]
            if d=='same': r[p.d]=v
            elif d is None: r[p.d]=cand[p.d](k)
            elif isinstance(v,T): r[p.d]=add(v,mul(ext(k,v.w-1,0) if v.w<64 else zext(k,v.w),d))
            else: r[p.d]=Ptr(v.r,add(v.o,mul(k,d)))
        return r
    # ---- header values that are not affine: candidates of the invariant
    import itertools
    na=[p for p in phis if step[p.d] is None]; cand={}
    if na and inv.free:
        last=None
        for perm in itertools.islice(itertools.permutations(na),6):
            inv.frees=[]; c={}; ex.nn+=1
            for i,p in enumerate(perm):
                v=init[p.d]; nm='ghost%d_%s'%(ex.nn,p.d)
                if isinstance(v,T): inv.frees.append((nm,v.w,None)); c[p.d]=lambda k,nm=nm,w=v.w:uf(w,nm,k)
                elif isinstance(v,Ptr): inv.frees.append((nm,64,v.r)); c[p.d]=lambda k,nm=nm,r=v.r:Ptr(r,uf(64,nm,k))
                else: raise Fail('header value')
            inv.freed=[p.d for p in perm]
            try: return attempt2(ex,inv,f,h,L,exits,env,st,phis,init,step,lambda k:at(k,c),regs0)
            except Fail as x: last=x; del ex.obs[nobs:]
        raise last
    inv.freed=[]
    if na:
        c0=inv.phis(ex,st,c64(0)); 
        for p in na:
            ok=[]
            for i,c in enumerate(c0):
                if type(c) is type(init[p.d]) and (not isinstance(c,T) or c.w==init[p.d].w) and same_v(ex,st,c,init[p.d]): ok.append(i)
            if not ok: raise Fail('no closed form for header value %%%s of %s (init %s)'%(p.d,f.name,init[p.d]))
            cand[p.d]=ok
    def choose(combo):
        return {d:(lambda k,i=i:inv.phis(ex,st,k)[i]) for d,i in combo.items()}
    last=None
    for combo in itertools.islice(itertools.product(*[cand[p.d] for p in na]),16):
        c=choose(dict(zip([p.d for p in na],combo)))
        try: return attempt2(ex,inv,f,h,L,exits,env,st,phis,init,step,lambda k:at(k,c),regs0)
        except Fail as x: last=x; del ex.obs[nobs:]
    raise last
def attempt2(ex,inv,f,h,L,exits,env,st,phis,init,step,at,regs0):
    k=zext(fresh(KB,'k'),64); k48=ext(k,KB-1,0); k1=addc(k,1)
    # ---- probe at the generic iteration: what is written
    ex.lenient+=1
    try:
        st1=st.fork(); inv.mem(ex,st,st1,k); st1.pc=(); inv.unfold(ex,st1,k); e=dict(env); e.update(at(k))
        for c in inv.defs(ex,st1,k)+inv.facts(ex,st1,k): st1.add(c)
        before=dict(st1.mem); back,outs=generic(ex,f,h,L,exits,e,st1)
    finally: ex.lenient-=1
    conds=set()
    for _,s2 in back: conds|=set(s2.pc)
    for o in outs: conds|=set(o[1].pc)
    maps={}; havoc=set(inv.anyregs(ex))
    for r in before:
        if r in regs0 or r in havoc: continue
        if any(r in b[1].mem and differs(b[1].mem[r],before[r]) for b in back):
            if r.kind in('alloca','heap'):
                m=infer(ex,r,before[r],[b[1].mem[r] for b in back],k,k48) if len(back)==1 else None
                if m is None: havoc.add(r)
                else: maps[r]=m
            else:
                m=infer(ex,r,before[r],[b[1].mem[r] for b in back],k,k48)
                if m is None: raise Fail('%s is modified by the loop and not described by an invariant'%r.name)
                maps[r]=m
    hid=[0]
    def setmem(s2,k):
        inv.mem(ex,st,s2,k)
        for r,m in maps.items():
            c=s2.mem[r]; lay=c.layers+((Cells(c.cells),) if c.cells else ()); s2.mem[r]=Cont(lay+tuple(Lam(lo,hi,fn) for lo,hi,fn in m(k)))
        for r in havoc:
            nm='havoc%d_%s'%(ex.nn,r.name); s2.mem[r]=Cont((Lam(c64(0),r.size,lambda ex,st,o:uf(8,nm,k,o)),))
    # ---- candidate facts about k: bounds
    cf=[]
    for p in phis:
        v=init[p.d]; d=step[p.d]
        if isinstance(v,T) and d is not None and d!='same' and v.w>=32:
            sd=val(d)-(1<<v.w) if val(d)>>(v.w-1) else val(d)
            if sd<0: cf.append(lambda k,v=v,sd=sd:ule(mul(k,c64(-sd)),zext(v,64)))
    for t in conds:
        x=t
        if x.op=='xor' and x.a[0]==1 and len(x.a[1])==1: x=x.a[1][0]
        if x.op in('ult','eq','slt') and x.a[0].w>=16:
            a,b=x.a
            if k48 in fvs_set(a)|fvs_set(b):
                for p,q in ((a,b),(b,a)):
                    if k48 in fvs_set(p) and k48 not in fvs_set(q):
                        cf.append(lambda kk,p=p,q=q:ule(subk(p,k48,kk),q)); cf.append(lambda kk,p=p,q=q:ule(q,subk(p,k48,kk)))
        if x.op in('ult','slt') and isc(x.a[0]) and False: pass
    guards=set()
    for _,s2 in back:
        for t in s2.pc:
            if k48 in fvs_set(t): guards.add(t)
    for t in sorted(guards,key=lambda t:(any(x.op in('uf','tab') for x in fvs_set(t)),t.id))[:12]:
        cf.append(lambda kk,t=t:or_(eq(kk,c64(0)),subk(t,k48,addc(kk,-1))))
    for b in getattr(ex,'bounds_',()):
        cf.append(lambda k,b=b:ule(k,b))
    given=lambda s2,k:inv.facts(ex,s2,k)
    def ghost(s2,vals,k):
        for c in inv.defs(ex,s2,k): s2.add(c)
        for d in inv.freed:
            u=at(k)[d]; v=vals[d]; s2.add(eq(u,v) if isinstance(v,T) else eq(u.o,v.o))
    st=st.fork(); ghost(st,init,c64(0))
    s0=st.fork()
    for c in given(s0,c64(0)):
        ok=ex.proves(s0,c); ex.ob('loop-init',ok,'fact %s of %s'%(c,inv.name))
    cf=[c for c in cf if ex.proves(s0,c(c64(0)))]
    # init: memory and header values
    s0=st.fork(); setmem(s0,c64(0))
    for r in s0.mem:
        if r in havoc: continue
        if r in st.mem: ex.equal_content(s0,r,st.mem[r],s0.mem[r],'loop-init',dc=inv.dontcare(ex,s0,r,c64(0)))
    a0=at(c64(0))
    for p in phis: ex.ob('loop-init',same_v(ex,st,init[p.d],a0[p.d]),'%%%s: %s, invariant says %s'%(p.d,init[p.d],a0[p.d]))
    # ---- preservation, with the largest set of candidate facts that is inductive
    for rnd in range(12):
        n0=len(ex.obs)
        s1=st.fork(); setmem(s1,k); inv.unfold(ex,s1,k); e=dict(env); e.update(at(k))
        for c in inv.defs(ex,s1,k): s1.add(c)
        for c in given(s1,k): s1.add(c)
        for c in cf: s1.add(c(k))
        err=None
        try: back,outs=generic(ex,f,h,L,exits,e,s1)
        except Fail as x:
            if not cf: raise
            raise
        bad=set()
        for e2,s2 in back:
            if not ex.feasible(s2): continue
            s2=s2.fork(); ghost(s2,e2,k1)
            for i,c in enumerate(cf):
                if i in bad: continue
                to=ex.timeout
                if ex.quick: ex.timeout=min(to,5000)     # only a candidate
                if not ex.proves(s2,c(k1)): bad.add(i)
                ex.timeout=to
        if not bad: break
        cf=[c for i,c in enumerate(cf) if i not in bad]; del ex.obs[n0:]
    nback=0
    for e2,s2 in back:
        if not ex.feasible(s2): continue
        nback+=1; ghost(s2,e2,k1)
        for c in given(s2,k1): ex.ob('loop-preserve',ex.proves(s2,c),'fact %s of %s'%(c,inv.name))
        ex.ob('loop-terminates',ex.proves(s2,ult(k1,c64(1<<KB))),'no bound on the iterations of %s:%s (facts %s)'%(f.name,h,[c(k) for c in cf]))
        a1=at(k1)
        for p in phis:
            ok=same_v(ex,s2,e2[p.d],a1[p.d])
            ex.ob('loop-preserve',ok,'' if ok else 'header value %%%s: %s, invariant says %s'%(p.d,e2[p.d],a1[p.d]))
        s3=st.fork(); setmem(s3,k1)
        for r in s3.mem:
            if r in havoc or r not in s2.mem: continue
            ex.equal_content(s2,r,s2.mem[r],s3.mem[r],'loop-preserve',dc=inv.dontcare(ex,s2,r,k1))
        for r in s2.mem:
            if r not in s3.mem and r.kind not in('alloca','global','static'): ex.ob('loop-frame',False,'object %s appears in the loop'%r.name)
    if nback==0: raise Fail('vacuous: the body is never executed')
    n=inv.exact
    if n is not None: # exits from the header after exactly n iterations: the invariant at n
        for i,(e2,s2,p,kind,b) in enumerate(outs):
            if kind!='exit' or not ex.proves(s2,eq(k,n)): continue
            if p!=h and any(r not in s1.mem or differs(s2.mem[r],s1.mem[r]) for r in s2.mem): continue # left from the middle: nothing written before
            mp={k48:ext(n,KB-1,0)}; s4=st.fork(); setmem(s4,n)
            for c in s2.pc: s4.add(subst(c,mp))
            sv=lambda v:subst(v,mp) if isinstance(v,T) else Ptr(v.r,subst(v.o,mp)) if isinstance(v,Ptr) else v
            outs[i]=({x:sv(v) for x,v in e2.items()},s4,p,kind,b)
    return outs
def subk(t,k48,kk): return subst(t,{k48:ext(kk,KB-1,0)})
def same_v(ex,st,a,b):
    if isinstance(a,T) and isinstance(b,T): return ex.same(st,a,b)
    return a is b or ex.sameptr(st,a,b)
def differs(a,b):
    if a is b: return False
    return a.layers!=b.layers or a.cells!=b.cells
def infer(ex,r,before,afters,k,k48):
    """a loop that writes, at iteration j, the offsets c0 + D*j .. c0 + D*j + |D| with values v(j)"""
    if len(afters)!=1: 
        return None
    a=afters[0]; n=len(before.layers)
    bl=before.layers+((Cells(before.cells),) if before.cells else ())
    al=a.layers
    if a.cells and (len(al)<len(bl) or True):
        if a.cells!=before.cells or al!=before.layers: return None
    if len(al)<=len(bl)-0: 
        return None
    for x,y in zip(al,bl):
        if x is y: continue
        if isinstance(x,Cells) and isinstance(y,Cells) and x.d==y.d: continue
        return None
    new=al[len(bl):]; by={}
    D=None
    for w in new:
        if not isinstance(w,W): return None
        o=w.root
        base=subst(o,{k48:C(KB,0)}); one=subst(o,{k48:C(KB,1)}); d=sub(one,base)
        if not isc(d): return None
        d=val(d); d=d-(1<<64) if d>>63 else d
        if d==0 or add(base,mul(k,c64(d))) is not o: return None
        if D is None: D=d
        if D!=d: return None
        for i,v in w.d.items(): by[addc(base,i)]=v
    if D is None: return None
    bases=list(by); b0=None
    for b in bases:
        ds=[val(sub(x,b)) if isc(sub(x,b)) else None for x in bases]
        if None in ds: return None
        if all(x<len(bases) for x in ds): b0=b
    nw=len(bases)
    if b0 is None or nw<abs(D) or (D<0 and nw!=abs(D)): return None
    vals=[by[addc(b0,i)] for i in range(nw)]
    if any(isinstance(v,PB) for v in vals): return None
    A=abs(D)
    def pick(vs,rem,j):
        r=subk(vs[0],k48,j)
        if len(vs)==1: return r
        if isc(rem): return subk(vs[val(rem)],k48,j)
        for i in range(1,len(vs)): r=ite(eq(rem,c64(i)),subk(vs[i],k48,j),r)
        return r
    def fn(ex,st,o):
        x=sub(o,b0) if D>0 else sub(addc(b0,A-1),o)
        j=divrem('udiv',x,c64(A)); rem=divrem('urem',x,c64(A))
        return pick(vals[:A] if D>0 else vals[::-1],rem,j)
    def m(kk):
        if D>0: lo=b0; hi=add(b0,mul(kk,c64(A)))
        else: hi=addc(b0,A); lo=sub(hi,mul(kk,c64(A)))
        L=[(lo,hi,fn)]
        if nw>A: # a write is wider than the step: the end of the last one survives
            pv=addc(kk,-1)
            L.append((hi,ite(eq(kk,c64(0)),hi,addc(hi,nw-A)),lambda ex,st,o:pick(vals[A:],sub(o,hi),pv)))
        return L
    return m
class Auto(Inv):
    """no given invariant: everything is inferred"""
    name='inferred map'
class Rec:
    """a spec sequence of byte vectors: S(0)=init, S(k+1)=step(k,S(k)); symbolic at other indices"""
    def __init__(s,ex,name,n,init,step,w=8):
        s.ex=ex;s.name=name;s.n=n;s.init=init;s.step=step;s.w=w;s.un={}
    def vec(s,k):
        if isc(k) and val(k)==0: return s.init() if callable(s.init) else list(s.init)
        if k in s.un:
            v=s.un[k]
            if not isinstance(v,list): v=s.un[k]=list(s.step(v,s.vec_raw(v)))
            return v
        return s.vec_raw(k)
    def vec_raw(s,k):
        if isc(k) and val(k)==0: return s.init() if callable(s.init) else list(s.init)
        return [uf(s.w,s.name,k,i) for i in range(s.n)]
    def unfold(s,k):
        k1=addc(k,1)
        if k1 not in s.un: s.un[k1]=k
    def at(s,k,i):
        """component i (int or term)"""
        if isinstance(i,int): return s.vec(k)[i]
        if isc(i): return s.vec(k)[val(i)]
        v=s.vec(k); r=v[0]
        for j in range(1,s.n): r=ite(eq(i,C(i.w,j)),v[j],r)
        return r
