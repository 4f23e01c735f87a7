"""Integers as values: polynomials over atoms (inputs, remainders, quotients, powers, inverses, ...), hash-consed.

   Two values that the ring identities make equal are the same object; what the ring identities do not settle is
   decided by z3 over the integers with the defining facts of the atoms (links)."""
import z3
_A=[];_AI={}            # atoms: (kind,args); index
_VI={};_V=[]
class V:
    __slots__=('m','id')
    def __repr__(s): return vshow(s)
def _mk(d):
    k=tuple(sorted((m,c) for m,c in d.items() if c))
    v=_VI.get(k)
    if v is None: v=V(); v.m=k; v.id=len(_V); _V.append(v); _VI[k]=v
    return v
def byid(i): return _V[i]
def const(n): return _mk({():n})
ZERO=const(0); ONE=const(1)
def isconst(v): return not v.m or (len(v.m)==1 and v.m[0][0]==())
def cval(v): return v.m[0][1] if v.m else 0
_nn=set()
def atom(kind,*args,nonneg=False):
    k=(kind,)+args; i=_AI.get(k)
    if i is None: i=_AI[k]=len(_A); _A.append((kind,args))
    if nonneg: _nn.add(i)
    return _mk({(i,):1})
def inp(name,nonneg=True): return atom('in',name,nonneg=nonneg)
_f=[0]
def freshv(name='v',nonneg=False):
    _f[0]+=1; return atom('in','%s!%d'%(name,_f[0]),nonneg=nonneg)
def vadd(a,b,cb=1):
    d=dict(a.m)
    for m,c in b.m: d[m]=d.get(m,0)+cb*c
    return _mk(d)
def vsub(a,b): return vadd(a,b,-1)
def vneg(a): return vadd(ZERO,a,-1)
def vscale(a,n): return _mk({m:c*n for m,c in a.m})
def vmul(a,b):
    d={}
    for m,c in a.m:
        for n,e in b.m:
            k=tuple(sorted(m+n)); d[k]=d.get(k,0)+c*e
    return _mk(d)
def sole(v):
    """the atom index when v is one atom"""
    if len(v.m)==1 and v.m[0][1]==1 and len(v.m[0][0])==1: return v.m[0][0][0]
def nonneg(v): return all(c>=0 and all(i in _nn for i in m) for m,c in v.m)
def nonpos(v): return all(c<=0 and all(i in _nn for i in m) for m,c in v.m)
def vsubst(v,f):
    """v with every atom i replaced by f(i) (None: itself)"""
    mp={}; ch=False
    for m,_ in v.m:
        for i in m:
            if i not in mp:
                x=f(i); mp[i]=x
                if x is not None: ch=True
    if not ch: return v
    r=ZERO
    for m,c in v.m:
        t=const(c)
        for i in m: t=vmul(t,mp[i] if mp[i] is not None else _mk({(i,):1}))
        r=vadd(r,t)
    return r
_red={}
def reduce_(p,m):
    """a representative of p modulo m in normal form"""
    k=(p.id,m.id); r=_red.get(k)
    if r is not None: return r
    def f(i):
        kd,a=_A[i]
        if kd=='mod' and a[1] is m: return reduce_(a[0],m)
        if kd=='exp':
            b=reduce_(a[0],m)
            return None if b is a[0] else vexp(b,a[1])
        if kd=='inv' and a[1] is m:
            b=reduce_(a[0],m)
            return None if b is a[0] else vinv(b,m)
    r=vsubst(p,f)
    # m itself is zero: m = +-x + rest, x an atom that occurs in no other monomial of m
    if isconst(m):
        n=cval(m)
        if n: r=_mk({mm:c%n for mm,c in r.m})
    else:
        for mm,c in m.m:
            if len(mm)==1 and c in(1,-1) and _A[mm[0]][0]=='in' and not any(mm[0] in o for o,_ in m.m if o!=mm):
                rest=vscale(vsub(m,_mk({mm:c})),-c); r=vsubst(r,lambda i:rest if i==mm[0] else None); break
    _red[k]=r; return r
def vmod(p,m):
    p=reduce_(p,m)
    if isconst(p) and isconst(m) and cval(m): return const(cval(p)%abs(cval(m)) if cval(m)>0 else abs(cval(p)%cval(m)))
    if not p.m: return ZERO
    return atom('mod',p,m,nonneg=True)
def vfdiv(p,m):
    if isconst(p) and isconst(m) and cval(m): return const(cval(p)//cval(m))
    if m is ONE: return p
    if not p.m: return ZERO
    return atom('fdiv',p,m,nonneg=nonneg(p) and nonneg(m))
EXPAND=False           # sums in exponents are written as products
def vexp(b,e):
    if not e.m: return ONE
    if e is ONE: return b
    if EXPAND and (len(e.m)>1 or e.m[0][1]!=1): # b^(p+q) = b^p * b^q
        if nonneg(e) and sum(c for _,c in e.m)<=8:
            r=ONE
            for m,c in e.m:
                x=b if m==() else vexp(b,_mk({m:1}))
                for _ in range(c): r=vmul(r,x)
            return r
    i=sole(b)
    if i is not None and _A[i][0]=='exp' and nonneg(e) and nonneg(_A[i][1][1]): return vexp(_A[i][1][0],vmul(_A[i][1][1],e))
    return atom('exp',b,e,nonneg=nonneg(b))
def vinv(a,m): return atom('inv',a,m,nonneg=True)
def vgcd(a,b):
    if a.id>b.id: a,b=b,a
    return atom('gcd',a,b,nonneg=True)
def vabs(a):
    if nonneg(a): return a
    if nonpos(a): return vneg(a)
    b=vneg(a)
    if b.m<a.m: a=b
    return atom('abs',a,nonneg=True)
def unmod(v):
    """remainders written as p - m*floor(p/m)"""
    def f(i):
        k,a=_A[i]
        if k=='mod': return vsub(unmod(a[0]),vmul(unmod(a[1]),vfdiv(a[0],a[1])))
    return vsubst(v,f)
def vshow(v,d=3):
    if not v.m: return '0'
    def sa(i):
        k,a=_A[i]
        if k=='in': return str(a[0])
        if d==0: return '..'
        return '%s(%s)'%(k,','.join(vshow(x,d-1) if isinstance(x,V) else str(x) for x in a))
    return ' + '.join(('%d'%c if not m else ('' if c==1 else '-' if c==-1 else '%d*'%c)+'*'.join(sa(i) for i in m)) for m,c in v.m).replace('+ -','- ')
# ---------------------------------------------------------------- z3
def za(i): return z3.Int('a!%d'%i)
def zmono(m):
    if len(m)==1: return za(m[0])
    return z3.Int('m!'+'_'.join(map(str,m)))
def zv(v):
    if not v.m: return z3.IntVal(0)
    t=[z3.IntVal(c) if not m else (zmono(m) if c==1 else c*zmono(m)) for m,c in v.m]
    return t[0] if len(t)==1 else z3.Sum(t)
EXTRA={}                # kind -> function(args) -> list of z3 facts
def links(vs,depth=3):
    """facts about the atoms of the values (closure)"""
    out=[]; seen={}; mon=set(); work=[(v,depth) for v in sorted(set(vs),key=lambda v:v.id)]
    while work:
        v,dp=work.pop(0)            # breadth first: deeper levels come later
        for m,_ in v.m:
            if len(m)>1 and m not in mon:
                mon.add(m)
                if all(i in _nn for i in m):
                    out.append(zmono(m)>=0)
                    out.append((zmono(m)==0)==z3.Or(*[za(i)==0 for i in set(m)]))
                    if len(m)==2: out.append(z3.Implies(za(m[0])>=1,zmono(m)>=za(m[1]))); out.append(z3.Implies(za(m[1])>=1,zmono(m)>=za(m[0])))
                else: out.append((zmono(m)==0)==z3.Or(*[za(i)==0 for i in set(m)]))
            for i in m:
                if seen.get(i,-1)>=dp: continue
                k,a=_A[i]; x=za(i)
                if i in _nn and i not in seen: out.append(x>=0)
                if seen.get(i,0)>0: seen[i]=dp; continue
                seen[i]=dp
                if dp<=0: continue
                if k in('mod','fdiv'):
                    p,mm=a; q=vfdiv(p,mm); r=vmod_raw(p,mm); zm=zv(mm); zp=zv(p)
                    out+=[z3.Implies(zm>0,z3.And(zv(r)>=0,zv(r)<zm)),z3.Implies(zm>0,zp==zv(vmul(mm,q))+zv(r)),z3.Implies(z3.And(zm>0,zp>=0,zp<zm),z3.And(zv(r)==zp,zv(q)==0)),
                          z3.Implies(z3.And(zm>0,zp<0,zp>=-zm),z3.And(zv(r)==zp+zm,zv(q)==-1)),z3.Implies(z3.And(zm>0,zp>=zm,zp<2*zm),z3.And(zv(r)==zp-zm,zv(q)==1)),
                          z3.Implies(z3.And(zm>0,zp>=0),z3.And(zv(q)>=0,zv(q)<=zp)),z3.Implies(z3.And(zm>0,zp<0),zv(q)<0)]
                    work+=[(q,dp-1),(r,dp-1),(p,dp-1),(mm,dp-1),(vmul(mm,q),dp-1)]
                elif k=='abs':
                    p=zv(a[0]); out.append(x==z3.If(p>=0,p,-p)); work.append((a[0],dp-1))
                elif k=='exp':
                    out.append(z3.Implies(zv(a[1])==0,x==1)); out.append(z3.Implies(zv(a[1])==1,x==zv(a[0]))); work+=[(a[0],dp-1),(a[1],dp-1)]
                elif k in EXTRA:
                    fs,ws=EXTRA[k](x,a); out+=fs; work+=[(w,dp-1) for w in ws]
    return out
def vmod_raw(p,m):
    if isconst(p) and isconst(m): return vmod(p,m)
    return atom('mod',p,m,nonneg=True)
