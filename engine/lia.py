"""Bit-vector queries as linear integer arithmetic: sums are exact integers with a bounded wrap count.
   Operations that are not linear become opaque integers, so 'unsat' is sound; 'sat' is only exact when none occurs."""
import z3
from terms import *
_I={}      # term -> (z3 expression, constraints, opaque)
_cnt=[0]
def _fresh(p): _cnt[0]+=1; return z3.Int('%s!%d'%(p,_cnt[0]))
def sgn(c,w): return c-(1<<w) if c>>(w-1) else c
def conv_all(ts):
    """-> (list of z3 booleans, exact)"""
    out=[]; seen=set(); exact=True; st=list(ts); order=[]
    while st:
        x=st.pop()
        if x in seen: continue
        seen.add(x); order.append(x); st.extend(children(x))
    for x in reversed(order): get(x)
    for x in order:
        _,cs,op=_I[x]; out.extend(cs)
        if op: exact=False
    return [_bool(t) for t in ts]+out,exact
def _bool(t):
    e=_I[t][0]
    return e if z3.is_bool(e) else e==1
def _int(t):
    e=_I[t][0]
    return z3.If(e,z3.IntVal(1),z3.IntVal(0)) if z3.is_bool(e) else e
def get(t):
    st=[t]
    while st:
        x=st[-1]
        if x in _I: st.pop(); continue
        ch=[c for c in children(x) if c not in _I]
        if ch: st.extend(ch); continue
        _I[x]=conv(x); st.pop()
    return _I[t]
def opaque(t):
    if t.w==1: return z3.Bool('op!%d'%t.id),(),True
    v=z3.Int('op!%d'%t.id); return v,(v>=0,v<=ub(t)),True
def conv(t):
    op=t.op;w=t.w
    if op=='c': return (z3.BoolVal(bool(t.a[0])) if w==1 else z3.IntVal(t.a[0])),(),False
    if op=='sym':
        if w==1: return z3.Bool('s!'+t.a[0]),(),False
        v=z3.Int('s!%s!%d'%(t.a[0],w)); return v,(v>=0,v<=M(w)),False
    if op=='uf':
        args=[x for x in t.a[1] if isinstance(x,T)]; nm='u!'+t.a[0]+''.join('_%s'%x for x in t.a[1] if not isinstance(x,T))+'!%d'%w+'_'.join(str(x.w) for x in args)
        v=z3.Function(nm,*([z3.IntSort()]*len(args)+[z3.IntSort()]))(*[_int(x) for x in args]) if args else z3.Int(nm)
        return v,(v>=0,v<=M(w)),False
    if op=='add':
        if w==1: return opaque(t)
        lo=hi=sgn(t.a[0],w); e=[z3.IntVal(lo)] if lo else []
        for c,x in t.a[1]:
            c=sgn(c,w); u=ub(x); e.append(_int(x) if c==1 else c*_int(x))
            if c>0: hi+=c*u
            else: lo+=c*u
        s=z3.Sum(e) if len(e)>1 else e[0]; a,b=lo>>w,hi>>w
        if a==b: return (s if a==0 else s-(a<<w)),(),False
        q=_fresh('q'); r=s-(1<<w)*q
        return r,(q>=a,q<=b,r>=0,r<=M(w)),False
    if op=='cat':
        e=[];pos=w
        for p in t.a[0]:
            pos-=p.w
            if isc(p) and val(p)==0: continue
            e.append(_int(p) if pos==0 else (1<<pos)*_int(p))
        return (z3.Sum(e) if len(e)>1 else e[0] if e else z3.IntVal(0)),(),False
    if op=='ext':
        b,h,l=t.a; v=_int(b); u=ub(b)
        r=_fresh('x'); cs=[r>=0,r<=M(w)]; s=r if l==0 else (1<<l)*r
        if l: y=_fresh('y'); cs+=[y>=0,y<=M(l)]; s=s+y
        if u>>(h+1): z=_fresh('z'); cs+=[z>=0,z<=u>>(h+1)]; s=s+(1<<(h+1))*z
        cs.append(v==s)
        return (r==1 if w==1 else r),tuple(cs),False
    if op=='ite':
        c,a,b=t.a
        if w==1: return z3.If(_bool(c),_bool(a),_bool(b)),(),False
        return z3.If(_bool(c),_int(a),_int(b)),(),False
    if op=='eq': 
        a,b=t.a
        return (_bool(a)==_bool(b) if a.w==1 else _int(a)==_int(b)),(),False
    if op=='ult': return _int(t.a[0])<_int(t.a[1]),(),False
    if op=='slt':
        a,b=t.a; h=1<<(a.w-1)
        S=lambda x:z3.If(_int(x)>=h,_int(x)-2*h,_int(x))
        return S(a)<S(b),(),False
    if op=='xor' and w==1:
        r=z3.BoolVal(bool(t.a[0])) if t.a[0] else None
        for x in t.a[1]: r=_bool(x) if r is None else z3.Xor(r,_bool(x))
        return r,(),False
    if op=='xor' and t.a[0]==M(w) and len(t.a[1])==1: return M(w)-_int(t.a[1][0]),(),False
    if op=='and' and w==1: return z3.And(*[_bool(x) for x in t.a[0]]),(),False
    if op in('udiv','urem') and isc(t.a[1]) and val(t.a[1]):
        d=val(t.a[1]); q=_fresh('d'); r=_fresh('r'); v=_int(t.a[0])
        return (q if op=='udiv' else r),(v==d*q+r,r>=0,r<d,q>=0),False
    return opaque(t)

_s={}
def suited(terms,lim=6):
    """index arithmetic: worth trying the linear view first"""
    n=0; seen=set(); st=list(terms)
    while st:
        x=st.pop()
        if x in seen: continue
        seen.add(x)
        if x.op=='ext': n+=1
        if x.op=='add' and x.w>64: return False
        if x.w>1 and x.op in('xor','and','tab','shl','lshr','ashr'): n+=1
        if n>lim: return False
        st.extend(children(x))
    return True
