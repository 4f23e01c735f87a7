"""Helpers for functions over numbers and points."""
from pv import *
from mpx import *
import mpx
def ecp_layout(): return layout('cry/ecp.h','struct cry_ecp',('x','y','z'))
def grp_layout(): return layout('cry/ecp.h','struct cry_ecp_grp',('p','a','b','g','n'))
class World:
    """objects of the caller that hold numbers"""
    def __init__(s,ex): s.ex=ex; s.st=St(); s.before={}
    def num(s,name,v=None,nonneg=True,ro=False,reg=None,off=0):
        ex=s.ex
        if reg is None: reg=ex.region(s.st,name,ex.L[''][1],ufbytes(name))
        v=inp(name,nonneg) if v is None else v; p=Ptr(reg,c64(off)); ex.new(s.st,p,v); s.before[name]=(p,v); return p
    def struct(s,name,lay,fields,vals=None):
        reg=s.ex.region(s.st,name,lay[''][1],ufbytes(name))
        for f in fields: s.num(name+'.'+f,(vals or {}).get(f),reg=reg,off=lay[f][0])
        return Ptr(reg,c64(0))
    def v(s,name): return s.before[name][1]
    def after(s,st,name): return s.ex.val(st,s.before[name][0])
    def unchanged(s,st,names):
        for n in names: s.ex.ob('frame: %s keeps its value'%n,s.ex.veq(st,s.after(st,n),s.v(n)),'%s'%s.after(st,n))
    def valid(s,st):
        """every number of the caller is valid"""
        for n,(p,_) in s.before.items(): s.ex.val(st,p)
        s.ex.owned(st)
def pos(w,*names):
    for n in names: w.st.add(not_(t_zero(w.v(n))))
def failed(st): return st.ghost.get('failed')
def is0(r): return eq(r,C(32,0))
def accepts(ex,st,r,cond,vs,what):
    """r == 0 exactly when the formula holds"""
    z=is0(r)
    for v,s in ((1,z),(0,not_(z))):
        t=st.fork(); t.add(s)
        if not isc(z) and not ex.feasible(t): continue
        if isc(z) and val(z)!=v: continue
        if v: ex.ob('ensures: only '+what,ex.holds(t,cond,vs),'accepted without it')
        else: ex.ob('ensures: every '+what,ex.unsat(list(t.pc),[(cond,tuple(vs))]),'rejected although it holds, path %s'%(t.pc,))
def find_atom(v,f):
    """arguments of the first atom (depth first) that satisfies f(kind,args)"""
    import mval
    seen=set()
    def go(v):
        for m,_ in v.m:
            for i in m:
                if i in seen: continue
                seen.add(i); k,a=mval._A[i]
                if f(k,a): return a
                for x in a:
                    if isinstance(x,V):
                        r=go(x)
                        if r: return r
    return go(v)

# ---------------------------------------------------------------- points used through their contracts
def ptr_of(ex,p,f): return Ptr(p.r,addc(p.o,ecp_layout()[f][0]))
def pt_vals(ex,st,p): return tuple(ex.val(st,ptr_of(ex,p,f)) for f in 'xyz')
PTS={}
def comb_of(ex,v):
    """a point as a combination of base points: ((base, scalar), ...)"""
    return PTS.get(v,((v,ONE),))
def point_of(comb,grp):
    """coordinates of the point; combinations that the group laws make equal are the same object"""
    d={}
    for b,k in comb: d[b]=vadd(d.get(b,ZERO),k)
    c=tuple(sorted(((b,k) for b,k in d.items() if k is not ZERO),key=lambda x:([q.id for q in x[0]],x[1].id)))
    if not c: return (ONE,ONE,ZERO)
    if len(c)==1 and c[0][1] is ONE: return c[0][0]
    flat=tuple(y for b,k in c for y in (*b,k))
    r=tuple(atom('ec'+f,*flat,*grp,nonneg=True) for f in 'xyz'); PTS[r]=c; return r
def grp_vals(ex,st,g):
    L=grp_layout(); return tuple(ex.val(st,Ptr(g.r,addc(g.o,L[f][0]))) for f in 'pa')
def setpt(ex,st,p,v):
    for f,x in zip('xyz',v): ex.setv(st,ptr_of(ex,p,f),x)
def h_ecp_mul(ex,st,args):
    pr,p1,k,grp=args; P=pt_vals(ex,st,p1); kv=vabs(ex.val(st,k)); g=grp_vals(ex,st,grp); bad=fail(ex,st,[ptr_of(ex,pr,f) for f in 'xyz'])
    setpt(ex,st,pr,point_of([(b,vmul(c,kv)) for b,c in comb_of(ex,P)],g)); return [(st,C(32,0)),bad]
def h_ecp_add(ex,st,args):
    pr,p1,p2,grp=args; P=pt_vals(ex,st,p1); Q=pt_vals(ex,st,p2); g=grp_vals(ex,st,grp); bad=fail(ex,st,[ptr_of(ex,pr,f) for f in 'xyz'])
    setpt(ex,st,pr,point_of(comb_of(ex,P)+comb_of(ex,Q),g)); return [(st,C(32,0)),bad]
def h_ecp_dbl(ex,st,args):
    pr,p1,grp=args; return h_ecp_add(ex,st,[pr,p1,p1,grp])
def h_ecp_init_list(ex,st,args):
    ps=[]
    for p in args:
        if isnull(p): break
        ps.append(p)
    else: ex.ob('requires: the list ends',False,ex.where); raise Infeasible()
    out=[]; cur=st
    for i,p in enumerate(ps):
        nxt=None
        for s2,r in ex.call(cur,'cry_ecp_init',[p]):
            if isc(r) and val(r)==0: nxt=s2; continue
            for q in ps[:i]:
                (s2,_),=ex.call(s2,'cry_ecp_clear',[q])
            out.append((s2,r))
        cur=nxt
    return [(cur,C(32,0))]+out
def h_ecp_clear_list(ex,st,args):
    for p in args:
        if isnull(p): return [(st,None)]
        (st,_),=ex.call(st,'cry_ecp_clear',[p])
    ex.ob('requires: the list ends',False,ex.where); raise Infeasible()
ECP={'cry_ecp_mul':h_ecp_mul,'cry_ecp_add':h_ecp_add,'cry_ecp_dbl':h_ecp_dbl,'cry_ecp_init_list':h_ecp_init_list,'cry_ecp_clear_list':h_ecp_clear_list}
def grp_lay(off=0):
    """fields of a group, flat"""
    GL,EL=grp_layout(),ecp_layout(); lay={}
    for f in 'pabn': lay[f]=(off+GL[f][0],32)
    for f in 'xyz': lay['g.'+f]=(off+GL['g'][0]+EL[f][0],32)
    return lay
def pt_lay(name,off): 
    EL=ecp_layout(); return {name+'.'+f:(off+EL[f][0],32) for f in 'xyz'}
