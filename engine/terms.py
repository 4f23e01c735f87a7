"""Hash-consed bit-vector terms with a strong normal form.

   sum      : linear combination modulo 2^w        ('add', const, ((coef, atom)...))
   bitwise  : algebraic normal form over slices     ('xor', const, (monomials)), ('and', (factors))
   slices   : concat of maximal slices, extract is pushed to the leaves
   tables   : tab(content, index): constant tables, composed, sliced, merged (same index), and
              distributed over xor when they are linear over GF(2)
   The normal form only uses identities that are valid for all values; what it does not identify is
   handed to the SMT solvers (to_z3)."""
import z3,sys
sys.setrecursionlimit(100000)
class T:
    __slots__=('op','w','a','id','_h','z','fv','dp')
    def __repr__(self): return show(self)
    def __hash__(self): return self._h
_tab={}
_n=[0]
def _depth(op,a):
    """nesting of additions"""
    if op=='add': return 1+max([x.dp for _,x in a[1]],default=0)
    if op=='xor': return max([x.dp for x in a[1]],default=0)
    if op in('and','cat'): return max(x.dp for x in a[0])
    if op=='uf' or op=='sym' or op=='c': return 0
    r=0
    for x in a:
        if isinstance(x,T) and x.dp>r: r=x.dp
    return r
DEEP=3
def mk(op,w,*a):
    k=(op,w)+a
    t=_tab.get(k)
    if t is None:
        t=T(); t.op=op; t.w=w; t.a=a; t._h=hash(k); _n[0]+=1; t.id=_n[0]; t.z=None; t.fv=None; t.dp=_depth(op,a)
        _tab[k]=t
    return t
def show(t,d=5):
    if t.op=='c': return '%#x:%d'%(t.a[0],t.w)
    if t.op=='sym': return t.a[0]
    if d==0: return '..'
    if t.op=='add': return '('+' + '.join((['%#x'%t.a[0]] if t.a[0] else [])+[(('%#x*'%c) if c!=1 else '')+show(x,d-1) for c,x in t.a[1]])+')'
    if t.op=='xor': return '('+' ^ '.join((['%#x'%t.a[0]] if t.a[0] else [])+[show(x,d-1) for x in t.a[1]])+')'
    if t.op=='and': return '('+' & '.join(show(x,d-1) for x in t.a[0])+')'
    if t.op=='cat': return '{'+','.join(show(x,d-1) for x in t.a[0])+'}'
    if t.op=='ext': return '%s[%d:%d]'%(show(t.a[0],d-1),t.a[1],t.a[2])
    if t.op=='tab': return 'tab%x(%s)'%(hash(t.a[0])&0xffff,show(t.a[1],d-1))
    if t.op=='uf': return '%s(%s)'%(t.a[0],','.join(show(x,d-1) if isinstance(x,T) else str(x) for x in t.a[1]))
    return '%s(%s)'%(t.op,','.join(show(x,d-1) if isinstance(x,T) else str(x) for x in t.a))
def M(w): return (1<<w)-1
def C(w,v): return mk('c',w,v&((1<<w)-1))
def sym(w,name): return mk('sym',w,name)
def isc(t): return t.op=='c'
def val(t): return t.a[0]
TRUE=C(1,1); FALSE=C(1,0)
def uf(w,name,*args): return mk('uf',w,name,tuple(args))
_fresh=[0]
def fresh(w,name='f'):
    _fresh[0]+=1; return sym(w,'%s!%d'%(name,_fresh[0]))
# ---------------------------------------------------------------- concat / extract
def parts(t): return t.a[0] if t.op=='cat' else (t,)
def ext(t,h,l):
    w=h-l+1
    if l==0 and h==t.w-1: return t
    op=t.op
    if op=='c': return C(w,t.a[0]>>l)
    if op=='cat':
        r=[];pos=t.w
        for p in t.a[0]:
            hi=pos-1; lo=pos-p.w; pos=lo
            a=max(lo,l);b=min(hi,h)
            if a<=b: r.append(ext(p,b-lo,a-lo))
        return cat(r)
    if op=='ext': return mk_ext(t.a[0],h+t.a[2],l+t.a[2])
    if op=='xor':
        return xor_l(w,[ext(x,h,l) for x in t.a[1]],(t.a[0]>>l)&M(w))
    if op=='and': return and_l(w,[ext(x,h,l) for x in t.a[0]])
    if op=='tab':
        m=M(w); return tab(w,tuple((v>>l)&m for v in t.a[0]),t.a[1])
    if op=='add' and t.dp>DEEP: return mk_ext(t,h,l) # a slice of a deep sum is an atom
    if op=='add':
        if l==0: return add_l(w,[(c,ext(x,h,0)) for c,x in t.a[1]],t.a[0])
        # all even: shift down
        if all(c%(1<<l)==0 for c,_ in t.a[1]) and t.a[0]%(1<<l)==0:
            return add_l(w,[(c>>l,ext(x,h-l,0)) for c,x in t.a[1]],t.a[0]>>l)
        # a low constant that cannot carry
        if all(c%(1<<l)==0 for c,_ in t.a[1]):
            return add_l(w,[(c>>l,ext(x,h-l,0)) for c,x in t.a[1]],t.a[0]>>l)
        # no carry out of the low parts
        hi=[(c,x) for c,x in t.a[1] if c%(1<<l)==0]; lo=[(c,x) for c,x in t.a[1] if c%(1<<l)]
        if sum(c*ub(x) for c,x in lo)+t.a[0]%(1<<l)<1<<l:
            return add_l(w,[(c>>l,ext(x,h-l,0)) for c,x in hi],t.a[0]>>l)
    if op=='mul' and l==0 and t.dp<=DEEP: return mul_n([ext(x,h,0) for x in t.a])
    if op=='ite': return ite(t.a[0],ext(t.a[1],h,l),ext(t.a[2],h,l))
    if op in('srem','urem') and isc(t.a[1]) and t.a[1].a[0]&(t.a[1].a[0]-1)==0 and h<t.a[1].a[0].bit_length()-1: return ext(t.a[0],h,l)
    return mk_ext(t,h,l)
def mk_ext(b,h,l):
    if l==0 and h==b.w-1: return b
    return mk('ext',h-l+1,b,h,l)
def merge2(a,b):
    """a (high) and b (low) as one term, or None"""
    if a.op=='c' and b.op=='c': return C(a.w+b.w,(a.a[0]<<b.w)|b.a[0])
    if a.op=='ext':
        base,h,l=a.a
        if l>=b.w:
            if b.op=='ext':
                if b.a[0] is base and b.a[1]==l-1: return mk_ext(base,h,b.a[2])
                return None
            if base.op in('add','mul','xor','and','cat') and ext(base,l-1,l-b.w) is b: return ext(base,h,l-b.w)
        return None
    if a.op=='tab' and b.op=='tab' and a.a[1] is b.a[1]:
        return tab(a.w+b.w,tuple((x<<b.w)|y for x,y in zip(a.a[0],b.a[0])),a.a[1])
    if a.op in('xor','and') and b.op==a.op:
        xs,ys=(a.a[1],b.a[1]) if a.op=='xor' else (a.a[0],b.a[0])
        if len(xs)!=len(ys): return None
        ys=list(ys);r=[]
        for x in xs:
            for i,y in enumerate(ys):
                m=merge2(x,y)
                if m is not None and m.op!='cat': r.append(m); del ys[i]; break
            else: return None
        if a.op=='xor': return mk('xor',a.w+b.w,(a.a[0]<<b.w)|b.a[0],tuple(sorted(r,key=lambda t:t.id)))
        return mk('and',a.w+b.w,tuple(sorted(r,key=lambda t:t.id)))
    if a.op=='ite' and b.op=='ite' and a.a[0] is b.a[0]:
        x=merge2(a.a[1],b.a[1]); y=merge2(a.a[2],b.a[2])
        if x is not None and y is not None: return mk('ite',a.w+b.w,a.a[0],x,y)
    return None
def cat(ps):
    out=[]
    for p in ps:
        for q in parts(p):
            if out:
                m=merge2(out[-1],q)
                if m is not None: out[-1]=m; continue
            out.append(q)
    # merges may cascade
    i=0
    while i+1<len(out):
        m=merge2(out[i],out[i+1])
        if m is not None: out[i:i+2]=[m]; i=max(i-1,0)
        else: i+=1
    if len(out)==1: return out[0]
    return mk('cat',sum(p.w for p in out),tuple(out))
def zext(t,w):
    if w==t.w: return t
    if t.op=='add' and t.a[0]+sum(c*ub(x) for c,x in t.a[1])<1<<t.w: # does not wrap
        return add_l(w,[(c,zext(x,w)) for c,x in t.a[1]],t.a[0])
    if t.op=='add' and t.dp<=DEEP:
        h=1<<(t.w-1); m=1<<t.w; sc=[(c if c<h else c-m,x) for c,x in t.a[1]]
        lo=sum(c*ub(x) for c,x in sc if c<0); hi=sum(c*ub(x) for c,x in sc if c>0)
        for c0 in (t.a[0],t.a[0]-m):
            if c0+lo>=0 and c0+hi<m: return add_l(w,[(c,zext(x,w)) for c,x in sc],c0)
    return cat([C(w-t.w,0),t])
def sext(t,w):
    if w==t.w: return t
    b=ext(t,t.w-1,t.w-1)
    if isc(b): return cat([C(w-t.w,M(w-t.w) if val(b) else 0),t])
    return cat([rep(b,w-t.w),t])
def rep(b,n):
    """bit b repeated n times"""
    if isc(b): return C(n,M(n) if val(b) else 0)
    return cat([b]*n) if n<=8 else ite(b,C(n,M(n)),C(n,0))
def cuts(ts):
    s=set()
    for t in ts:
        if t.op=='cat':
            pos=0
            for p in reversed(t.a[0]): pos+=p.w; s.add(pos)
    return s
def slicewise(w,ts,f,extra=()):
    """apply f on common slices"""
    s=cuts(ts)|set(extra)|{w}; s.discard(0)
    lo=0;r=[]
    for hi in sorted(s):
        r.append(f(hi-lo,[ext(t,hi-1,lo) for t in ts])); lo=hi
    return cat(r[::-1])
# ---------------------------------------------------------------- bitwise
def as_bits(t):
    """a sum of one term with a power of two coefficient, seen as slices"""
    return t
def xor_l(w,ts,const=0):
    acc={};c=const&M(w);work=list(ts)
    while work:
        t=work.pop()
        if t.op=='c': c^=t.a[0]
        elif t.op=='xor': c^=t.a[0]; work.extend(t.a[1])
        else:
            if t in acc: del acc[t]
            else: acc[t]=1
    l=list(acc)
    if any(t.op=='cat' for t in l):
        return slicewise(w,l+[C(w,c)],lambda w,xs:xor_l(w,xs))
    # merge tables on the same index
    by={}
    for t in l:
        if t.op=='tab': by.setdefault(t.a[1],[]).append(t)
        elif t.w<=8 and t in by: pass
    ch=False
    for idx,ts2 in by.items():
        if idx in acc and idx.w==w: ts2=ts2+[idx]
        if len(ts2)>1:
            cont=[0]*(1<<idx.w)
            for t in ts2:
                if t is idx:
                    for i in range(len(cont)): cont[i]^=i
                else:
                    for i,v in enumerate(t.a[0]): cont[i]^=v
                del acc[t]
            acc_add(acc,tab(w,tuple(cont),idx)); ch=True
    if ch: return xor_l(w,list(acc),c)
    if not l: return C(w,c)
    if len(l)==1 and c==0: return l[0]
    l.sort(key=lambda t:t.id)
    # absorb the constant in a table? keep as is
    return mk('xor',w,c,tuple(l))
def acc_add(acc,t):
    if t in acc: del acc[t]
    else: acc[t]=1
def xor(*ts): return xor_l(ts[0].w,list(ts))
def not_(t): return xor_l(t.w,[t],M(t.w))
def runs(v,w):
    """positions where the bits of v change"""
    s=[]
    for i in range(1,w):
        if (v>>i&1)!=(v>>(i-1)&1): s.append(i)
    return s
def and_l(w,ts):
    c=M(w);fs={};work=list(ts)
    while work:
        t=work.pop()
        if t.op=='c': c&=t.a[0]
        elif t.op=='and': work.extend(t.a[0])
        else: fs[t]=1
    if c==0: return C(w,0)
    l=list(fs)
    if c!=M(w): # constant mask: slices
        if not l: return C(w,c)
        ex=runs(c,w)
        def f(w2,xs):
            m=xs[-1]
            if val(m)==0: return m
            return and_l(w2,xs[:-1])
        return slicewise(w,l+[C(w,c)],f,ex)
    if not l: return C(w,c)
    if any(t.op=='cat' for t in l): return slicewise(w,l,lambda w,xs:and_l(w,xs))
    if len(l)==1: return l[0]
    # distribute over xor (algebraic normal form)
    for i,t in enumerate(l):
        if t.op=='xor':
            rest=l[:i]+l[i+1:]
            if len(l)>12 or len(t.a[1])>24: break
            ts=[and_l(w,[x]+rest) for x in t.a[1]]
            if t.a[0]: ts.append(and_l(w,[C(w,t.a[0])]+rest))
            return xor_l(w,ts)
    l.sort(key=lambda t:t.id)
    return mk('and',w,tuple(l))
def and_(a,*b): return and_l(a.w,[a,*b])
def or_(a,b):
    if a.op=='c' or b.op=='c' or a.op=='cat' or b.op=='cat':
        ex=[]
        for t in (a,b):
            if t.op=='c': ex+=runs(t.a[0],t.w)
        return slicewise(a.w,[a,b],or_flat,ex)
    return or_flat(a.w,[a,b])
def or_flat(w,xs):
    a,b=xs
    if isc(a): a,b=b,a
    if isc(b):
        if val(b)==0: return a
        if val(b)==M(w): return b
    if a is b: return a
    return xor_l(w,[a,b,and_l(w,[a,b])])
# ---------------------------------------------------------------- sums
def add_l(w,ts,const=0):
    m=M(w); c=const&m; acc={}
    work=[(k&m,t) for k,t in ts]
    while work:
        k,t=work.pop()
        if k==0: continue
        if t.op=='c': c=(c+k*t.a[0])&m
        elif t.op=='add':
            c=(c+k*t.a[0])&m
            for k2,t2 in t.a[1]: work.append(((k*k2)&m,t2))
        elif t.op=='cat' and isc(t.a[0][-1]) and val(t.a[0][-1])==0 and t.a[0][-1].w<w:
            # x<<n with the high bits dropped: coefficient 2^n (only when this is the low part of one term)
            z=t.a[0][-1].w; hi=ext(t,w-1,z)
            b=low_of(hi,w)
            if b is not None: work.append(((k<<z)&m,b))
            else: acc[t]=(acc.get(t,0)+k)&m
        elif t.op=='cat' and len(t.a[0])==2 and isc(t.a[0][0]) and val(t.a[0][0])!=0 and False: pass
        elif t.op=='xor' and t.a[0]==m and len(t.a[1])==1:
            # ~x = -x-1
            c=(c-k)&m; work.append(((-k)&m,t.a[1][0]))
        elif t.op=='xor' and t.w==w and len(t.a[1])==1 and t.a[0]==1<<(w-1):
            c=(c+k*t.a[0])&m; work.append((k,t.a[1][0]))
        else: acc[t]=(acc.get(t,0)+k)&m
    l=[(k,t) for t,k in acc.items() if k]
    if not l: return C(w,c)
    if c==0 and len(l)==1:
        k,t=l[0]
        if k==1: return t
        if k&(k-1)==0:
            n=k.bit_length()-1; return cat([ext(t,w-1-n,0),C(n,0)])
    if len(l)==1 and l[0][1].op=='cat' and len(l[0][1].a[0])==2 and l[0][1].a[0][1].w==1 and isc(l[0][1].a[0][0]): # a mask made of one bit
        k,(hi,b)=l[0][0],l[0][1].a[0]
        if k==m and c==0 and val(hi)==0: return rep(b,w)
        if k==1 and c==1 and val(hi)==M(w-1): return rep(not_(b),w)
    l.sort(key=lambda p:p[1].id)
    return mk('add',w,c,tuple(l))
def low_of(hi,w):
    """a w-bit term whose low bits are hi"""
    if hi.op=='ext' and hi.a[2]==0 and hi.a[0].w==w: return hi.a[0]
    if hi.op=='cat':
        p=hi.a[0]
        # zero extension of something narrower: {0, y}
        if isc(p[0]) and val(p[0])==0: return cat([C(w-hi.w,0),hi])
        if p[0].op=='ext' and False: return None
        return cat([C(w-hi.w,0),hi]) # any extension works: the dropped bits are shifted out
    return cat([C(w-hi.w,0),hi])
def add(a,b): return add_l(a.w,[(1,a),(1,b)])
def sub(a,b): return add_l(a.w,[(1,a),(-1,b)])
def addc(a,n): return add_l(a.w,[(1,a)],n)
def neg(a): return add_l(a.w,[(-1,a)])
def mul(a,b):
    w=a.w
    if isc(a): a,b=b,a
    if isc(b):
        v=val(b)
        return add_l(w,[(v,a)])
    if a.op=='add' and len(a.a[1])<=4:
        return add_l(w,[(c,mul(t,b)) for c,t in a.a[1]]+[(a.a[0],b)])
    if b.op=='add' and len(b.a[1])<=4: return mul(b,a)
    fs=[]
    for x in (a,b):
        fs+=list(x.a) if x.op=='mul' else [x]
    fs.sort(key=lambda t:t.id)
    if len(fs)>2: return mk('mul',w,*fs)
    return mk('mul',w,*fs)
def shl(a,n): # constant n
    w=a.w
    if n>=w: return C(w,0)
    if n and a.dp>DEEP and a.op in('add','mul'): return cat([ext(a,w-1-n,0),C(n,0)])
    return add_l(w,[(1<<n,a)]) if n else a
def lshr(a,n):
    w=a.w
    if n>=w: return C(w,0)
    if n==0: return a
    return zext(ext(a,w-1,n),w)
def ashr(a,n):
    if n==0: return a
    n=min(n,a.w-1)
    return sext(ext(a,a.w-1,n),a.w)
def rotl(a,n):
    n%=a.w
    if n==0: return a
    return cat([ext(a,a.w-1-n,0),ext(a,a.w-1,a.w-n)])
# ---------------------------------------------------------------- tables
_lin={}
def linear(cont):
    r=_lin.get(cont)
    if r is None:
        r=cont[0]==0
        n=len(cont)
        if r:
            for i in range(1,n):
                lb=i&-i
                if cont[i]!=cont[i^lb]^cont[lb]: r=False;break
        _lin[cont]=r
    return r
OPT={'bits':False} # expand GF(2)-linear tables into bits
def tab(w,cont,idx):
    """cont[i] (w bits) at index idx (cont covers all the 2^idx.w values)"""
    n=idx.w
    assert len(cont)==1<<n
    if isc(idx): return C(w,cont[val(idx)])
    c0=cont[0]
    if all(v==c0 for v in cont): return C(w,c0)
    if idx.op=='tab': return tab(w,tuple(cont[i] for i in idx.a[0]),idx.a[1])
    if idx.op=='xor' and idx.a[0]:
        k=idx.a[0]; idx=xor_l(n,[idx],k)
        return tab(w,tuple(cont[i^k] for i in range(1<<n)),idx)
    if c0: return xor_l(w,[tab(w,tuple(v^c0 for v in cont),idx)],c0) # constant extracted
    if idx.op=='cat':
        ps=idx.a[0]
        # constant parts
        if any(isc(p) for p in ps):
            keep=[p for p in ps if not isc(p)]
            nn=sum(p.w for p in keep); out=[]
            for v in range(1<<nn):
                full=0;pos=nn
                for p in ps:
                    if isc(p): full=(full<<p.w)|val(p)
                    else:
                        pos-=p.w; full=(full<<p.w)|((v>>pos)&M(p.w))
                out.append(cont[full])
            return tab(w,tuple(out),cat(keep))
    if n>1 and OPT['bits'] and idx.op not in('xor','cat') and linear(cont):
        return xor_l(w,[and_l(w,[cat([ext(idx,i,i)]*w),C(w,cont[1<<i])]) for i in range(n)])
    if linear(cont) and (idx.op in('xor','cat') or n>1 and idx.op in()):
        if idx.op=='xor': return xor_l(w,[tab(w,cont,x) for x in idx.a[1]])
        r=[];pos=n
        for p in idx.a[0]:
            pos-=p.w
            r.append(tab(w,tuple(cont[v<<pos] for v in range(1<<p.w)),p))
        return xor_l(w,r)
    if w==n and all(v==i for i,v in enumerate(cont)): return idx
    if n==1: # a bit
        d=cont[0]^cont[1]
        return xor_l(w,[and_l(w,[cat([idx]*w) if w>1 else idx,C(w,d)])],cont[0])
    # slices: constant bits
    if w>1:
        o=0;a=M(w)
        for v in cont: o|=v^c0
        if o!=M(w):
            ex=runs(o,w); s=sorted(set(ex)|{w}); lo=0;r=[]
            for hi in s:
                m=M(hi-lo)
                r.append(tab(hi-lo,tuple((v>>lo)&m for v in cont),idx)); lo=hi
            return mk_catraw(r[::-1])
    elif w==1:
        # affine single bit tables are xors of bits
        c=cont[0]; lc=tuple(v^c for v in cont)
        if linear(lc):
            return xor_l(1,[ext(idx,i,i) for i in range(n) if lc[1<<i]],c)
        # drop the index bits that do not matter
    dep=[i for i in range(n) if any(cont[v]!=cont[v^(1<<i)] for v in range(1<<n))]
    if len(dep)<n:
        out=[]
        for v in range(1<<len(dep)):
            f=0
            for j,i in enumerate(dep): f|=((v>>j)&1)<<i
            out.append(cont[f])
        return tab(w,tuple(out),cat([ext(idx,i,i) for i in reversed(dep)]))
    return mk('tab',w,cont,idx)
def mk_catraw(ps):
    return cat(ps)
# ---------------------------------------------------------------- booleans, comparisons
def ite(c,a,b):
    if isc(c): return a if val(c) else b
    if a is b: return a
    w=a.w
    if w==1: return xor_l(1,[b,and_l(1,[c,xor_l(1,[a,b])])])
    if a.op=='cat' or b.op=='cat':
        return slicewise(w,[a,b],lambda w,xs:ite(c,xs[0],xs[1]))
    if isc(a) and isc(b):
        ex=runs(val(a)^val(b),w)
        if ex: return slicewise(w,[a,b],lambda w,xs:ite(c,xs[0],xs[1]),ex)
    elif isc(a) or isc(b):
        pass
    # nested
    if a.op=='ite' and a.a[0] is c: a=a.a[1]
    if b.op=='ite' and b.a[0] is c: b=b.a[2]
    if a is b: return a
    nc=not_(c)
    if nc.id<c.id: return mk('ite',w,nc,b,a)
    return mk('ite',w,c,a,b)
def eq(a,b):
    if a is b: return TRUE
    w=a.w
    if w==1: return xor_l(1,[a,b],1)
    d=sub(a,b)
    if isc(d): return TRUE if val(d)==0 else FALSE
    x=xor(a,b)
    if isc(x): return FALSE if val(x) else TRUE
    if x.op=='cat':
        for p in x.a[0]:
            if isc(p) and val(p)!=0: return FALSE
        ps=[p for p in x.a[0] if not isc(p)]
        if len(ps)<len(x.a[0]) and all(p.op!='xor' or True for p in ps):
            r=TRUE
            for p in ps: r=and_(r,eq0(p))
            return r
    # canonical: atom (a,b) ordered, with the constant on one side
    if a.id>b.id: a,b=b,a
    if isc(a): a,b=b,a
    return mk('eq',1,a,b)
def eq0(p):
    if p.w==1: return not_(p)
    if p.op=='xor':
        if p.a[0]==0 and len(p.a[1])==2: return eq_raw(p.a[1][0],p.a[1][1])
        if len(p.a[1])==1: return eq_raw(p.a[1][0],C(p.w,p.a[0]))
    return eq_raw(p,C(p.w,0))
def eq_raw(a,b):
    if a.w==1: return xor_l(1,[a,b],1)
    if a.id>b.id: a,b=b,a
    if isc(a): a,b=b,a
    return mk('eq',1,a,b)
def ub(t):
    """upper bound of a term"""
    if t.fv is None: t.fv=ub_(t)
    return t.fv
def ub_(t):
    if isc(t): return val(t)
    if t.op=='cat':
        r=0
        for p in t.a[0]: r=(r<<p.w)|ub(p)
        return r
    if t.op=='tab': return max(t.a[0])
    if t.op=='add': return min(M(t.w),t.a[0]+sum(c*ub(x) for c,x in t.a[1]))
    if t.op=='ite': return max(ub(t.a[1]),ub(t.a[2]))
    if t.op=='and': return min(ub(x) for x in t.a[0])
    if t.op in('xor',):
        m=t.a[0]
        for x in t.a[1]: m|=ub(x)
        return (1<<m.bit_length())-1
    if t.op=='sym' or t.op=='uf': return M(t.w)
    if t.op=='udiv': return ub(t.a[0])//max(1,val(t.a[1])) if isc(t.a[1]) else M(t.w)
    if t.op=='urem' and isc(t.a[1]) and val(t.a[1]): return val(t.a[1])-1
    return M(t.w)
def ult(a,b):
    if a is b: return FALSE
    if isc(a) and isc(b): return TRUE if val(a)<val(b) else FALSE
    if isc(b):
        if val(b)==0: return FALSE
        if ub(a)<val(b): return TRUE
        if val(b)==1: return eq(a,C(a.w,0))
    if isc(a):
        if val(a)>=ub(b): return FALSE
        if val(a)==0: return not_(eq(b,C(b.w,0)))
    return mk('ult',1,a,b)
def ule(a,b): return not_(ult(b,a))
def slt(a,b):
    if a is b: return FALSE
    h=1<<(a.w-1)
    if isc(a) and isc(b):
        s=lambda v:v-(1<<a.w) if v>=h else v
        return TRUE if s(val(a))<s(val(b)) else FALSE
    if ub(a)<h and ub(b)<h: return ult(a,b)
    if isc(b) and val(b)==0: return ext(a,a.w-1,a.w-1)
    return mk('slt',1,a,b)
def sle(a,b): return not_(slt(b,a))
def divrem(op,a,b):
    w=a.w
    if isc(a) and isc(b) and val(b):
        x,y=val(a),val(b)
        if op[0]=='s':
            h=1<<(w-1); x=x-(1<<w) if x>=h else x; y=y-(1<<w) if y>=h else y
            q=abs(x)//abs(y); q=-q if (x<0)!=(y<0) else q; r=x-q*y
        else: q,r=divmod(x,y)
        return C(w,q if op.endswith('div') else r)
    if isc(b) and val(b):
        v=val(b)
        if op[0]=='u' or (ub(a)<1<<(w-1) and v<1<<(w-1)):
            if v&(v-1)==0:
                n=v.bit_length()-1
                return lshr(a,n) if op.endswith('div') else and_(a,C(w,v-1))
            if ub(a)<v: return C(w,0) if op.endswith('div') else a
            op='u'+op[1:]
    return mk(op,w,a,b)
def shift(op,a,n):
    """symbolic shift amount"""
    if isc(n):
        k=val(n)
        if k>=a.w: return None
        return {'shl':shl,'lshr':lshr,'ashr':ashr}[op](a,k)
    return mk(op,a.w,a,n)
# ---------------------------------------------------------------- SMT
_z3s={}
def to_z3(t):
    if t.z is not None: return t.z
    st=[t]
    while st:
        x=st[-1]
        if x.z is not None: st.pop(); continue
        ch=[c for c in children(x) if c.z is None]
        if ch: st.extend(ch); continue
        x.z=conv(x); st.pop()
    return t.z
def children(t):
    op=t.op
    if op in('c','sym'): return ()
    if op=='add': return [x for _,x in t.a[1]]
    if op=='xor': return t.a[1]
    if op in('and','cat'): return t.a[0]
    if op=='ext': return (t.a[0],)
    if op=='tab': return (t.a[1],)
    if op=='uf': return [x for x in t.a[1] if isinstance(x,T)]
    return [x for x in t.a if isinstance(x,T)]
def conv(t):
    op=t.op;w=t.w
    if op=='c': return z3.BitVecVal(t.a[0],w)
    if op=='sym': return z3.BitVec(t.a[0],w)
    if op=='add':
        r=None
        for c,x in t.a[1]:
            y=x.z if c==1 else (-x.z if c==M(w) else x.z*z3.BitVecVal(c,w))
            r=y if r is None else r+y
        return r+z3.BitVecVal(t.a[0],w) if t.a[0] else r
    if op=='xor':
        r=None
        for x in t.a[1]: r=x.z if r is None else r^x.z
        return r^z3.BitVecVal(t.a[0],w) if t.a[0] else r
    if op=='and':
        r=None
        for x in t.a[0]: r=x.z if r is None else r&x.z
        return r
    if op=='cat': return z3.Concat(*[p.z for p in t.a[0]])
    if op=='ext': return z3.Extract(t.a[1],t.a[2],t.a[0].z)
    if op=='tab':
        f=z3.Function('tab_%d_%d_%s'%(w,t.a[1].w,_tabname(t.a[0])),z3.BitVecSort(t.a[1].w),z3.BitVecSort(w))
        return f(t.a[1].z)
    if op=='uf':
        args=[x for x in t.a[1] if isinstance(x,T)]; nm=t.a[0]+''.join('_%s'%x for x in t.a[1] if not isinstance(x,T))
        if not args: return z3.BitVec(nm,w)
        f=z3.Function(nm,*([z3.BitVecSort(x.w) for x in args]+[z3.BitVecSort(w)]))
        return f(*[x.z for x in args])
    B=lambda e:z3.If(e,z3.BitVecVal(1,1),z3.BitVecVal(0,1))
    a=[x.z if isinstance(x,T) else x for x in t.a]
    if op=='eq': return B(a[0]==a[1])
    if op=='ult': return B(z3.ULT(a[0],a[1]))
    if op=='slt': return B(a[0]<a[1])
    if op=='ite': return z3.If(a[0]==1,a[1],a[2])
    if op=='mul':
        r=a[0]
        for x in a[1:]: r=r*x
        return r
    if op=='udiv': return z3.UDiv(a[0],a[1])
    if op=='urem': return z3.URem(a[0],a[1])
    if op=='sdiv': return a[0]/a[1]
    if op=='srem': return z3.SRem(a[0],a[1])
    if op=='shl': return a[0]<<a[1]
    if op=='lshr': return z3.LShR(a[0],a[1])
    if op=='ashr': return a[0]>>a[1]
    raise NotImplementedError(op)
_tn={}
def _tabname(c):
    r=_tn.get(c)
    if r is None: r=_tn[c]=len(_tn)
    return r
def tab_axioms(ts,limit=1<<30):
    """for refutation: the contents of the tables that occur in ts"""
    seen=set();st=list(ts);out=[]
    tabs={}
    while st:
        x=st.pop()
        if x in seen: continue
        seen.add(x); st.extend(children(x))
        if x.op=='tab': tabs[(x.w,x.a[1].w,x.a[0])]=1
    if sum(len(c) for _,_,c in tabs)>limit: return []
    for (w,n,c) in tabs:
        f=z3.Function('tab_%d_%d_%s'%(w,n,_tabname(c)),z3.BitVecSort(n),z3.BitVecSort(w))
        for i,v in enumerate(c): out.append(f(z3.BitVecVal(i,n))==v)
    return out
# ---------------------------------------------------------------- evaluation
def evaluate(t,env,memo=None,ufs=None):
    """value of t; env: name -> int for the symbols; ufs(name,args,w) -> int"""
    memo={} if memo is None else memo
    st=[t]
    while st:
        x=st[-1]
        if x in memo: st.pop(); continue
        ch=[c for c in children(x) if c not in memo]
        if ch: st.extend(ch); continue
        st.pop(); memo[x]=ev1(x,env,memo,ufs)
    return memo[t]
def ev1(t,env,m,ufs):
    op=t.op;w=t.w
    if op=='c': return t.a[0]
    if op=='sym': return env(t.a[0],w) if callable(env) else env[t.a[0]]
    if op=='add': return (t.a[0]+sum(c*m[x] for c,x in t.a[1]))&M(w)
    if op=='xor':
        r=t.a[0]
        for x in t.a[1]: r^=m[x]
        return r
    if op=='and':
        r=M(w)
        for x in t.a[0]: r&=m[x]
        return r
    if op=='cat':
        r=0
        for p in t.a[0]: r=(r<<p.w)|m[p]
        return r
    if op=='ext': return (m[t.a[0]]>>t.a[2])&M(w)
    if op=='tab': return t.a[0][m[t.a[1]]]
    if op=='uf': return ufs(t.a[0],tuple(m[x] if isinstance(x,T) else x for x in t.a[1]),w)
    a=[m[x] if isinstance(x,T) else x for x in t.a]
    if op=='eq': return int(a[0]==a[1])
    if op=='ult': return int(a[0]<a[1])
    if op=='slt':
        h=1<<(t.a[0].w-1); return int((a[0]^h)<(a[1]^h))
    if op=='ite': return a[1] if a[0] else a[2]
    if op=='mul':
        r=1
        for x in a: r=r*x&M(w)
        return r
    if op in('udiv','urem','sdiv','srem'):
        if a[1]==0: return 0
        return val(divrem(op,C(w,a[0]),C(w,a[1])))
    if op=='shl': return (a[0]<<a[1])&M(w) if a[1]<w else 0
    if op=='lshr': return a[0]>>a[1] if a[1]<w else 0
    if op=='ashr': return val(ashr(C(w,a[0]),min(a[1],w-1)))
    raise NotImplementedError(op)
def subst(t,mp,memo=None):
    """replace terms (mp: dict term->term)"""
    memo=dict(mp) if memo is None else memo
    st=[t]
    while st:
        x=st[-1]
        if x in memo: st.pop(); continue
        ch=[c for c in children(x) if c not in memo]
        if ch: st.extend(ch); continue
        st.pop(); memo[x]=rebuild(x,memo)
    return memo[t]
def rebuild(t,m):
    op=t.op;w=t.w
    if op in('c','sym'): return t
    if op=='add': return add_l(w,[(c,m[x]) for c,x in t.a[1]],t.a[0])
    if op=='xor': return xor_l(w,[m[x] for x in t.a[1]],t.a[0])
    if op=='and': return and_l(w,[m[x] for x in t.a[0]])
    if op=='cat': return cat([m[p] for p in t.a[0]])
    if op=='ext': return ext(m[t.a[0]],t.a[1],t.a[2])
    if op=='tab': return tab(w,t.a[0],m[t.a[1]])
    if op=='uf': return uf(w,t.a[0],*[m[x] if isinstance(x,T) else x for x in t.a[1]])
    a=[m[x] if isinstance(x,T) else x for x in t.a]
    return {'eq':eq,'ult':ult,'slt':slt,'ite':ite}[op](*a) if op in('eq','ult','slt','ite') else \
           mul_n(a) if op=='mul' else divrem(op,*a) if op in('udiv','urem','sdiv','srem') else (shift(op,*a) or mk(op,w,*a))
def mul_n(a):
    r=a[0]
    for x in a[1:]: r=mul(r,x)
    return r
