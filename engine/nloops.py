"""Loops over numbers, cut at their header.

   At the header every number that the body modifies holds an arbitrary value of the form the invariant states (fresh
   by default), every scalar header value is arbitrary, and the facts of the invariant hold.  Checked: the
   invariant holds on entry, every path around the loop re-establishes it, releases what it allocates and does
   not swallow a failure; a variant decreases."""
from terms import *
from ex import *
from loops import generic,exits_of,differs,cut
from mval import *
import mpx
class NInv:
    name='arbitrary values'; auto=True; term=True
    def applies(s,ex,f,h,env,st): return True
    def roles(s,ex,st,mod,phis): return [{}]                  # assignments of roles to numbers / header values
    def gen(s,ex,st,role,mod,phis): return {}                 # key -> value of the generic iteration; may add facts to st
    def check(s,ex,st,role,vals,phis,what): pass              # obligations: the invariant holds of vals, phis
    def variant(s,ex,role,vals,phis): return None             # (integer, values)
def numbers(ex,st):
    """every live number object: key -> value"""
    out={}; d=ex.L['data'][0]
    for r,c in list(st.mem.items()):
        if r in st.freed or r.kind in('global','static'): continue
        for o,b in list(c.cells.items()):
            if isinstance(b,PB) and b.i==0 and isinstance(b.p,Ptr) and b.p.r is not None and hasattr(b.p.r,'mag') and b.p.r not in st.freed and o-d>=0:
                try: out[(r,o-d)]=ex.val(st,Ptr(r,c64(o-d)))
                except (Unsupported,Infeasible): pass
    return out
def ncut(ex,f,h,env,st,prev,stop):
    errs=[]; L=f.an()['loops'][h]; exits=set(exits_of(f,L))
    cands=[i for i in ex.ninvs if i.applies(ex,f,h,env,st)]
    if not cands:
        try:
            n0=len(ex.obs); return cut(ex,f,h,env,st,prev,stop)
        except Unsupported as x: errs.append(str(x)); del ex.obs[n0:]
        cands=[NInv()]
    for inv in cands:
        n0=len(ex.obs); sv=(ex.tent_unroll,getattr(ex,'cur_loop',None)); ex.tent_unroll=0; ex.cur_loop=None
        try:
            r=ncut1(ex,inv,f,h,L,exits,env,st)
            ex.cuts=getattr(ex,'cuts',[]); ex.cuts.append((f.name,h,inv.name)); return r
        except (Fail,Unsupported,Infeasible) as x:
            errs.append('%s: %s'%(inv.name,x)); del ex.obs[n0:]
            if ex.trace: print('loop',f.name,h,'not',errs[-1][:1500])
        finally: ex.tent_unroll,ex.cur_loop=sv
    raise Unsupported('loop invariant of %s at %s not established: %s'%(f.name,h,' | '.join(x[:600] for x in errs)))
def fork(st):
    t=st.fork(); return t
def ncut1(ex,inv,f,h,L,exits,env,st):
    phis=[p.d for p in f.blocks[h].phis]; init={p:env[p] for p in phis}
    num0=numbers(ex,st); mod={}; signed=set(); havoc=set(); same=set(phis); kills=set()
    names={}
    def start(role):
        """the generic state at the header"""
        g=st.fork(); e=dict(env); ph={}
        for p in phis:
            v=init[p]
            if p in same: ph[p]=v
            elif isinstance(v,T): ph[p]=names.setdefault(p,fresh(v.w,'hd'))
            elif isinstance(v,Ptr) and v.r is not None: ph[p]=Ptr(v.r,names.setdefault(p,fresh(64,'hd')))
            else: raise Fail('header value %s'%p)
        for r in havoc:
            nm='havoc%d_%s'%(ex.nn,r.name); g.mem[r]=Cont((Lam(c64(0),r.size,lambda ex,st,o,nm=nm:uf(8,nm,o)),))
        vals=dict(inv.gen(ex,g,role,mod,ph)) if role is not None else {}
        for k in mod:
            if k not in vals:
                nm=('v',k,k in signed)
                vals[k]=names.setdefault(nm,freshv('loop',k not in signed))
        for k in mod: ex.setv(g,Ptr(k[0],c64(k[1])),vals[k])
        for p,v in ph.items(): e[p]=v
        return g,e,ph,vals
    def run(g,e):
        keep=g.fork()
        back,outs=generic(ex,f,h,L,exits,e,g)
        return keep,[(x,y) for x,y in back if ex.feasible(y)],outs
    # ---- what changes
    ex.lenient=getattr(ex,'lenient',0)+1; tent=ex.tent; ex.tent+=1
    try:
        for rnd in range(12):
            n0=len(ex.obs); g,e,ph,vals=start(None); keep,back,outs=run(g,e); del ex.obs[n0:]
            ch=False; cur=dict(num0); cur.update({k:vals[k] for k in mod})
            for e2,s2 in back:
                for p in list(same):
                    if not (e2[p] is ph[p] or same_v(ex,s2,e2[p],ph[p])): same.discard(p); ch=True
                now=numbers(ex,s2)
                for k,v in cur.items():
                    if k not in now: raise Fail('number %s disappears'%(k,))
                    w=now[k]
                    if k not in mod:
                        if w is not v or moved(ex,keep,s2,k): mod[k]=num0[k]; ch=True
                    if k in mod and k not in signed and not nonneg(w) and not ex.holds(s2,zv(w)>=0,(w,)): signed.add(k); ch=True
                for k in now: # a scratch object: nothing is known about it at the header
                    if k not in cur and k[0] not in havoc:
                        if k[0].kind!='alloca' or any(q[0] is k[0] for q in cur): raise Fail('number %s appears'%(k,))
                        havoc.add(k[0]); ch=True
                own={o for r,o in mod}
                for r,c in s2.mem.items():
                    if r in keep.mem and r not in havoc and differs(c,keep.mem[r]):
                        if r.kind not in('alloca','heap','arg') : raise Fail('%s is modified'%r.name)
                        dif=changed(keep.mem[r],c)
                        if dif is None or any(not any(kr is r and ko<=o<ko+ex.L[''][1] for kr,ko in mod) for o in dif):
                            if hasattr(r,'mag'): raise Fail('digits of a number are modified')
                            if r.kind=='alloca' and not any(k[0] is r for k in cur): havoc.add(r); ch=True
                            else: raise Fail('%s is modified and not described'%r.name)
            for k,v in num0.items():
                if k in mod and k not in signed and not nonneg(v) and not ex.holds(st,zv(v)>=0,(v,)): signed.add(k); ch=True
            if not ch: break
        else: raise Fail('the set of modified numbers does not settle')
    finally: ex.lenient-=1; ex.tent=tent
    if not back: raise Fail('the body never reaches the header again')
    last=None
    for role in inv.roles(ex,st,mod,{p:init[p] for p in phis if p not in same}):
        n0=len(ex.obs); ex.tent+=1
        try:
            r=attempt(ex,inv,role,f,st,init,num0,mod,signed,same,phis,start,run,h,havoc); return r
        except (Fail,Infeasible) as x:
            last=x if last is None else Fail('%s || %s'%(last,x)); del ex.obs[n0:]
        finally: ex.tent-=1
    raise last if last is not None else Fail('no assignment of roles')
def same_v(ex,st,a,b):
    if isinstance(a,T) and isinstance(b,T): return a.w==b.w and ex.same(st,a,b)
    return a is b or ex.sameptr(st,a,b)
def moved(ex,a,b,k):
    """the digits of the number are another object"""
    p=ex.f(Ptr(k[0],c64(k[1])),'data'); return ex.loadptr(a,p).r is not ex.loadptr(b,p).r
def changed(a,b):
    if a.layers!=b.layers: return None
    return [o for o in set(a.cells)|set(b.cells) if a.cells.get(o) is not b.cells.get(o) and a.cells.get(o)!=b.cells.get(o)]
def attempt(ex,inv,role,f,st,init,num0,mod,signed,same,phis,start,run,h,havoc):
    inv.check(ex,st.fork(),role,{k:num0[k] for k in mod},{p:init[p] for p in phis if p not in same},'loop-init')
    fp=[p for p in phis if p not in same]
    # candidate facts about the scalar header values
    cf=[]
    for p in fp:
        v=init[p]
        if isinstance(v,T):
            cf+=[('<=init',lambda x,p=p,v=v:ule(x[p],v)),('>=init',lambda x,p=p,v=v:ule(v,x[p]))]
            if v.w==32: cf+=[('s<=init',lambda x,p=p,v=v:not_(slt(v,x[p]))),('s>=init',lambda x,p=p,v=v:not_(slt(x[p],v))),('small',lambda x,p=p:ult(x[p],C(32,1<<30)))]
            if v.w==64: cf.append(('small',lambda x,p=p:ult(x[p],C(64,1<<60))))
            if v.w==1: pass
    fi={p:init[p] for p in fp}
    cf=[(n,c) for n,c in cf if ex.proves(st,c(fi))]
    for rnd in range(10):
        n0=len(ex.obs); g,e,ph,vals=start(role)
        for n,c in cf: g.add(c(ph))
        keep,back,outs=run(g,e); bad=set()
        for e2,s2 in back:
            for i,(n,c) in enumerate(cf):
                if i not in bad and not ex.proves(s2,c({p:e2[p] for p in fp})): bad.add(i)
        if not bad: break
        cf=[c for i,c in enumerate(cf) if i not in bad]; del ex.obs[n0:]
    if not back: raise Fail('vacuous')
    vs=None; var=inv.variant(ex,role,vals,ph)
    dec=set(); 
    for e2,s2 in back:
        ex.ob('loop: failures are not swallowed',s2.ghost.get('failed')==keep.ghost.get('failed'),'%s'%(s2.ghost.get('failed'),))
        now=numbers(ex,s2)
        inv.check(ex,s2,role,{k:now[k] for k in mod},{p:e2[p] for p in fp},'loop-preserve')
        for k in now:
            if k not in mod and k in num0: ex.ob('loop-frame',now[k] is num0[k] or ex.veq(s2,now[k],num0[k]),'%s'%(k,))
            if k in mod and k not in signed: ex.ob('loop-preserve',nonneg(now[k]) or ex.holds(s2,zv(now[k])>=0,(now[k],)),'sign of %s'%(k,))
        for p in same: ex.ob('loop-preserve',same_v(ex,s2,e2[p],init[p]),p)
        ex.owned(s2,live=True,skip=havoc)
        ok=set()
        if var is not None:
            w=inv.variant(ex,role,{k:now[k] for k in mod},{p:e2[p] for p in fp})
            if ex.holds(s2,z3and(var[0]>w[0],w[0]>=0),tuple(var[1])+tuple(w[1])): ok.add('given')
        else:
            for p in fp:
                a,b=ph[p],e2[p]
                if not isinstance(a,T): continue
                if ex.proves(s2,ult(b,a)): ok.add(('-',p))
                if ex.proves(s2,and_(ult(a,b),ult(b,C(a.w,1<<(a.w-1))))): ok.add(('+',p))
            for k in mod:
                if k in signed: continue
                if ex.holds(s2,zv(now[k])<zv(vals[k]),(now[k],vals[k])): ok.add(k)
        dec=ok if vs is None else dec&ok; vs=1
    if inv.term: ex.ob('loop-terminates',bool(dec),'no variant for %s:%s'%(f.name,h))
    return outs
def z3and(*a):
    import z3
    return z3.And(*a)
