"""Contract oracles of the multi precision integers (big integers of Python are the specification)."""
import ctypes as C
from math import gcd,isqrt
from reg import *
from lib import Mpi,Fail,digits,B64

def ops(lib,rng,va,vb,want_alias=True):
    """operands a,b and result r with random aliasing; returns r,a,b"""
    a=Mpi(lib,va,rng.choice((0,0,1,5)))
    m=rng.randrange(6) if want_alias else 0
    if va==vb and rng.random()<0.5: b=a
    else: b=Mpi(lib,vb,rng.choice((0,0,1,5)))
    if m==1: r=a
    elif m==2: r=b
    else:
        r=Mpi(lib,rng.choice((0,0,-3,integer(rng,6))),rng.choice((0,1,9)))
    return r,a,b
def chk_unchanged(r,pairs,inp):
    for m,v,n in pairs:
        if m.p!=r.p and m.val(what=n)!=v: raise Fail('operand %s was modified'%n,**inp)
def bin_case(lib,rng,fname,fn,gen=None,mx=40,mag=False):
    # mag: an operation on magnitudes (non negative operands; the sign of the result is the business of the caller)
    va,vb=(gen or (lambda:(integer(rng,mx),integer(rng,mx))))()
    if rng.random()<0.1: vb=va
    if rng.random()<0.05: vb=-va
    if mag: va,vb=abs(va),abs(vb)
    r,a,b=ops(lib,rng,va,vb)
    inp=dict(fn=fname,a=va,b=vb,alias='r=a' if r.p==a.p else 'r=b' if r.p==b.p else '',same=(a.p==b.p))
    try:
        rc=getattr(lib,fname)(r,a,b)
        if rc!=0: raise Fail('%s returned %d'%(fname,rc))
        got=abs(r.val(canon='mag')) if mag else r.val(); want=fn(va,vb)
        if got!=want: raise Fail('%s: got %x want %x'%(fname,got,want))
        chk_unchanged(r,[(a,va,'a'),(b,vb,'b')],inp)
    except Fail as e: e.inp={**inp,**e.inp}; raise
    finally:
        for m in {id(x):x for x in (r,a,b)}.values(): m.free()

def addgen(rng,mx=40):
    def g():
        va,vb=integer(rng,mx),integer(rng,mx)
        t=rng.random()
        if t<0.2:   # carry chains
            n=rng.randrange(1,mx); va=(1<<(64*n))-1-(nat(rng,1) if rng.random()<.5 else 0); vb=rng.choice((1,2,nat(rng,2)))
            if rng.random()<.5: va,vb=vb,va
            if rng.random()<.5: va=-va
            if rng.random()<.5: vb=-vb
        elif t<0.4: # borrow chains
            n=rng.randrange(1,mx); va=(nat(rng,2)+1)<<(64*n); vb=rng.choice((1,B64-1,nat(rng,n)))
            if rng.random()<.5: va,vb=vb,va
            if rng.random()<.3: va=-va
            if rng.random()<.3: vb=-vb
        elif t<0.5: vb=va+rng.choice((-1,1,1<<64,-(1<<64),1<<rng.randrange(1,200)))
        return va,vb
    return g
@case('M01')
def add(lib,rng): bin_case(lib,rng,'cry_mpi_add',lambda a,b:a+b,addgen(rng))
@case('M01')
def sub(lib,rng): bin_case(lib,rng,'cry_mpi_sub',lambda a,b:a-b,addgen(rng))
@case('M01')
def add_abs(lib,rng): 
    # the sign of the result is that of the caller's choice: compare the magnitude
    va,vb=[abs(x) for x in addgen(rng)()]
    bin_case(lib,rng,'cry_mpi_add_abs',lambda a,b:a+b,lambda:(va,vb),mag=True)
@case('M01')
def sub_abs(lib,rng):
    def g():
        a,b=[abs(x) for x in addgen(rng)()]
        return (a,b) if a>=b else (b,a)
    va,vb=g()
    r,a,b=ops(lib,rng,va,vb)
    inp=dict(fn='cry_mpi_sub_abs',a=va,b=vb)
    try:
        if r.p not in(a.p,b.p): r.c.sign=0
        rc=lib.cry_mpi_sub_abs(r,a,b)
        if rc!=0: raise Fail('returned %d'%rc)
        if abs(r.val(canon=True))!=va-vb: raise Fail('sub_abs wrong')
    except Fail as e: e.inp={**inp,**e.inp}; raise
@case('M01')
def cmp(lib,rng):
    va,vb=addgen(rng)()
    if rng.random()<0.3:
        vb=va^(1<<rng.randrange(0,max(1,abs(va).bit_length()))) if va>=0 else va+rng.choice((-1,1))
    if rng.random()<0.2: vb=va
    a,b=Mpi(lib,va),Mpi(lib,vb)
    sg=lambda x:(x>0)-(x<0)
    for f,w in (('cry_mpi_cmp',sg(va-vb)),('cry_mpi_cmp_abs',sg(abs(va)-abs(vb)))):
        g=sg(getattr(lib,f)(a,b))
        if g!=w: raise Fail('%s: got %d want %d'%(f,g,w),a=va,b=vb)
@case('M01',0.3)
def absv(lib,rng):
    va=integer(rng); a=Mpi(lib,va); r=a if rng.random()<.3 else Mpi(lib,integer(rng,3))
    if lib.cry_mpi_abs(r,a)!=0 or r.val()!=abs(va): raise Fail('abs wrong',a=va)
@case('M01',0.3)
def copyv(lib,rng):
    va=integer(rng); a=Mpi(lib,va); r=a if rng.random()<.2 else Mpi(lib,integer(rng,3))
    if lib.cry_mpi_copy(r,a)!=0 or r.val()!=va or a.val()!=va: raise Fail('copy wrong',a=va)
    r2=Mpi(lib,0); lib.vp_free(C.cast(r2.c.data,C.c_void_p))
    if lib.cry_mpi_init_copy(r2,a)!=0 or r2.val()!=va: raise Fail('init_copy wrong',a=va)

# ---- multiplication
MUL={'cry_mpi_mul':None,'cry_mpi_mul_baseline':None,'cry_mpi_mul_comba':None}
def mulgen(rng,lo,hi):
    def g():
        n,m=rng.randrange(lo,hi),rng.randrange(lo,hi)
        if rng.random()<.2: m=n
        f=lambda n:nat(rng,n=n)
        t=rng.random()
        a,b=f(n),f(m)
        if t<.15: a=(1<<(64*n))-1
        if t<.1: b=(1<<(64*m))-1
        if .15<t<.25: a=(f(max(n//2,1))<<(64*(n-n//2)))          # zero low half
        if .2<t<.3: b=f(1)
        if .3<t<.36: a=(f(max(n//3,1))<<(64*(n-n//3)))+f(1)
        if rng.random()<.3: a=-a
        if rng.random()<.3: b=-b
        return a,b
    return g
@case('M02')
def mul(lib,rng): bin_case(lib,rng,'cry_mpi_mul',lambda a,b:a*b,mulgen(rng,0,12))
@case('M02')
def mul_baseline(lib,rng): bin_case(lib,rng,'cry_mpi_mul_baseline',lambda a,b:a*b,mulgen(rng,0,9),mag=True)
@case('M02')
def mul_comba(lib,rng): bin_case(lib,rng,'cry_mpi_mul_comba',lambda a,b:a*b,mulgen(rng,0,9),mag=True)
@case('M02')
def mul_karatsuba(lib,rng): bin_case(lib,rng,'cry_mpi_mul_karatsuba',lambda a,b:a*b,mulgen(rng,*rng.choice(((0,9),(30,80),(60,140)))),mag=True)
@case('M02')
def mul_toom3(lib,rng): bin_case(lib,rng,'cry_mpi_mul_toom3',lambda a,b:a*b,mulgen(rng,*rng.choice(((0,12),(3,30),(30,80),(60,140)))),mag=True)
@case('M02')
def mul_large(lib,rng): bin_case(lib,rng,'cry_mpi_mul',lambda a,b:a*b,mulgen(rng,*rng.choice(((60,70),(120,140),(290,330),(300,301)))))
@case('M02',0.5)
def mul_dig(lib,rng):
    va=integer(rng,12); d=digit(rng); a=Mpi(lib,va); r=a if rng.random()<.3 else Mpi(lib,integer(rng,3))
    rc=lib.cry_mpi_mul_dig(r,a,d)
    if rc!=0 or r.val()!=va*d: raise Fail('mul_dig wrong',a=va,d=d)
def un_case(lib,rng,fname,fn,va):
    a=Mpi(lib,va,rng.choice((0,0,1,7))); r=a if rng.random()<.35 else Mpi(lib,integer(rng,3),rng.choice((0,3)))
    try:
        rc=getattr(lib,fname)(r,a)
        if rc!=0: raise Fail('returned %d'%rc)
        if r.val()!=fn(va): raise Fail('%s wrong: got %x want %x'%(fname,r.val(),fn(va)))
        if r.p!=a.p and a.val()!=va: raise Fail('operand modified')
    except Fail as e: e.inp={'fn':fname,'a':va,'inplace':r.p==a.p,**e.inp}; raise
def sqgen(rng):
    n=rng.choice((rng.randrange(0,10),rng.randrange(0,10),rng.randrange(60,70),rng.randrange(60,140)))
    v=nat(rng,n=n)
    if rng.random()<.15: v=(1<<(64*n))-1
    return -v if rng.random()<.3 else v
@case('M02')
def sqr(lib,rng): un_case(lib,rng,'cry_mpi_sqr',lambda a:a*a,sqgen(rng))
@case('M02')
def sqr_baseline(lib,rng): un_case(lib,rng,'cry_mpi_sqr_baseline',lambda a:a*a,sqgen(rng))
@case('M02')
def sqr_comba(lib,rng): un_case(lib,rng,'cry_mpi_sqr_comba',lambda a:a*a,sqgen(rng))
@case('M02')
def sqr_karatsuba(lib,rng): un_case(lib,rng,'cry_mpi_sqr_karatsuba',lambda a:a*a,sqgen(rng))

# ---- division
def divgen(rng):
    t=rng.random()
    a,b=integer(rng,14),integer(rng,8)
    if t<.25:
        q=nat(rng,5); b=nat(rng,5) or 1; r=rng.choice((0,b-1,nat(rng,4)%b)); a=q*b+r
    elif t<.4: # quotient digit estimates that need correction
        n=rng.randrange(1,6); b=(rng.choice(((1<<63),(1<<63)+1,(1<<62),B64-1,(1<<63)-1,1))<<(64*n))|nat(rng,n=n) 
        q=rng.choice((B64-1,B64-2,(1<<63),nat(rng,n=2),(B64-1)<<64)); a=q*b+rng.choice((0,b-1,-1,1))
    elif t<.5: # top digits of a equal to those of b
        n=rng.randrange(1,5); b=nat(rng,n=n) or 1; a=(b<<(64*rng.randrange(1,4)))-rng.choice((0,1,nat(rng,1)))
    if rng.random()<.25: a=-a
    if rng.random()<.25: b=-b
    return a,(b or 1)
def div_case(lib,rng,fname,spec):
    va,vb=divgen(rng)
    a,b=Mpi(lib,va,rng.choice((0,2))),Mpi(lib,vb)
    q=Mpi(lib,integer(rng,2)); r=Mpi(lib,integer(rng,2))
    m=rng.randrange(8)
    al=''
    if m==1: q=a; al='q=a'
    elif m==2: r=a; al='r=a'
    elif m==3: q=b; al='q=b'
    elif m==4: r=b; al='r=b'
    elif m==5: q,r=a,b; al='q=a r=b'
    elif m==6: q,r=b,a; al='q=b r=a'
    wq,wr=rng.random()<.8,rng.random()<.8
    inp=dict(fn=fname,a=va,b=vb,alias=al,want_q=wq,want_r=wr)
    try:
        rc=getattr(lib,fname)(q if wq else None,r if wr else None,a,b)
        if rc!=0: raise Fail('returned %d'%rc)
        eq,er=spec(va,vb)
        if wq and q.val()!=eq: raise Fail('quotient %x, want %x'%(q.val(),eq))
        if wr and r.val()!=er: raise Fail('remainder %x, want %x'%(r.val(),er))
        for x,v,n in((a,va,'a'),(b,vb,'b')):
            if not(wq and x.p==q.p) and not(wr and x.p==r.p) and x.val()!=v: raise Fail('operand %s modified'%n)
    except Fail as e: e.inp={**inp,**e.inp}; raise
@case('M03',2)
def div_abs(lib,rng): div_case(lib,rng,'cry_mpi_div_abs',lambda a,b:divmod(abs(a),abs(b)))
@case('M03',2)
def div(lib,rng):
    def sp(a,b):
        q=a//b; return q,abs(a-q*b)
    div_case(lib,rng,'cry_mpi_div',sp)
@case('M03',0.1)
def div_zero(lib,rng):
    a=Mpi(lib,integer(rng,4)); b=Mpi(lib,0); q=Mpi(lib,0)
    if lib.cry_mpi_div(q,None,a,b)==0: raise Fail('division by zero reported success',a=a.val())

# ---- shifts
@case('M04')
def shl(lib,rng):
    va=integer(rng,12); n=rng.choice((rng.randrange(0,10),rng.randrange(0,200),64*rng.randrange(0,9),rng.randrange(0,1200)))
    a=Mpi(lib,va,rng.choice((0,1,20))); r=a if rng.random()<.4 else Mpi(lib,integer(rng,3))
    rc=lib.cry_mpi_shl(r,a,n)
    if rc!=0 or r.val()!=(abs(va)<<n)*(-1 if va<0 else 1): raise Fail('shl wrong',a=va,n=n,inplace=r.p==a.p)
    if r.p!=a.p and a.val()!=va: raise Fail('operand modified',a=va,n=n)
@case('M04')
def shr(lib,rng):
    va=integer(rng,12); n=rng.choice((rng.randrange(0,10),rng.randrange(0,200),64*rng.randrange(0,14),rng.randrange(0,1200),abs(va).bit_length(),max(abs(va).bit_length()-1,0)))
    a=Mpi(lib,va,rng.choice((0,1,20))); r=a if rng.random()<.4 else Mpi(lib,integer(rng,3))
    rc=lib.cry_mpi_shr(r,a,n)
    if rc!=0 or r.val()!=(abs(va)>>n)*(-1 if va<0 else 1): raise Fail('shr wrong',a=va,n=n,inplace=r.p==a.p)
    if r.p!=a.p and a.val()!=va: raise Fail('operand modified',a=va,n=n)
@case('M04')
def bits(lib,rng):
    va=rng.choice((integer(rng,12),(1<<rng.randrange(0,700))-rng.randrange(2),1<<rng.randrange(0,700)))
    a=Mpi(lib,va)
    if lib.cry_mpi_count_bits(a)!=abs(va).bit_length(): raise Fail('count_bits wrong',a=va)
    if lib.vp_mpi_is_odd(a)!=(abs(va)&1): raise Fail('is_odd wrong',a=va)

# ---- conversions
@case('M05')
def load_bin(lib,rng):
    n=size(rng,200); d=data(rng,n)
    if rng.random()<.3: k=rng.randrange(0,n+1); d=bytes(k)+d[k:]
    b=lib.buf(d); a=Mpi(lib,integer(rng,rng.choice((0,1,30))),rng.choice((0,1,4)))
    try:
        rc=lib.cry_mpi_load_bin(a,b,n)
        if rc!=0 or a.val()!=int.from_bytes(d,'big'): raise Fail('load_bin wrong')
        if b.get()!=d: raise Fail('input modified')
        x=Mpi(lib,0); lib.vp_free(C.cast(x.c.data,C.c_void_p))
        rc=lib.cry_mpi_init_bin(x,b,n)
        if rc!=0 or x.val()!=int.from_bytes(d,'big'): raise Fail('init_bin wrong')
    except Fail as e: e.inp={'data':d,**e.inp}; raise
@case('M05')
def store_bin(lib,rng):
    va=rng.choice((integer(rng,12),integer(rng,3),1<<rng.randrange(0,300)))
    nb=(abs(va).bit_length()+7)//8
    n=rng.choice((nb,nb+1,nb+rng.randrange(0,40),max(nb-1,0),rng.randrange(0,nb+1)))
    pad=rng.randrange(2); b=lib.buf(n); a=Mpi(lib,va)
    rc=lib.cry_mpi_store_bin(a,b,n,pad)
    got=b.get()
    if n<nb: ok=rc!=0 and got==b'\x77'*n
    elif pad: ok=rc==0 and got==abs(va).to_bytes(n,'big')
    else: ok=rc==0 and got==abs(va).to_bytes(nb,'big')+b'\x77'*(n-nb)
    if not ok: raise Fail('store_bin wrong',a=va,n=n,pad=pad,rc=rc,out=got)
@case('M05',0.5)
def ints(lib,rng):
    v=rng.choice((rng.getrandbits(64)-(1<<63),-(1<<63),(1<<63)-1,0,1,-1,rng.getrandbits(rng.randrange(1,63))))
    a=Mpi(lib,integer(rng,3)); 
    if lib.cry_mpi_set_int(a,C.c_long(v))!=0 or a.val()!=v: raise Fail('set_int wrong',v=v)
    w=rng.choice((v,integer(rng,2),1<<63,-(1<<63),-(1<<63)-1,(1<<63)-1)); a=Mpi(lib,w); o=C.c_long(77)
    rc=lib.cry_mpi_get_int(a,C.byref(o))
    if -(1<<63)<=w<(1<<63):
        if rc!=0 or o.value!=w: raise Fail('get_int wrong',v=w)
    elif rc==0: raise Fail('get_int accepted a value out of range',v=w)
DIG='0123456789abcdefghijklmnopqrstuvwxyz'
def tostr(v,r):
    if v==0: return '0'
    s='';n=abs(v)
    while n: s=DIG[n%r]+s; n//=r
    return ('-' if v<0 else '')+s
@case('M05')
def strs(lib,rng):
    v=integer(rng,rng.choice((1,2,8))); r=rng.choice((10,16,2,8,3,7,15,rng.randrange(2,17)))
    s=tostr(v,r); a=Mpi(lib,v); b=lib.buf(len(s)+1+ (1 if r==16 else 0))
    rc=lib.cry_mpi_store_str(a,r,b)
    got=b.get().split(b'\0')[0].decode('latin1')
    if rc!=0 or got!=s: raise Fail('store_str: got %r want %r'%(got,s),v=v,radix=r)
    r2=rng.choice((r,r,16,10,36,rng.randrange(2,37)))
    t=tostr(v,r2); 
    if rng.random()<.3: t=t.upper()
    if rng.random()<.2: t=('-' if t[0]=='-' else '+')+'0'*rng.randrange(0,5)+t.lstrip('-')
    bad=rng.random()<.15
    if bad:
        i=rng.randrange(1 if t[0] in '+-' else 0,len(t)+1)
        t=t[:i]+rng.choice(['!','g' if r2<=16 else '_','/',':','@','[','`','{','~',' '] + ([DIG[r2]] if r2<36 else []))+t[i:]
    x=Mpi(lib,integer(rng,2))
    tb=lib.buf(t.encode()+b'\0')
    rc=lib.cry_mpi_load_str(x,r2,tb)
    if bad:
        if rc==0: raise Fail('load_str accepted an invalid digit',s=t,radix=r2)
        return
    if rc!=0 or x.val()!=v: raise Fail('load_str wrong',s=t,radix=r2)

# ---- number theory
@case('M06')
def gcdl(lib,rng):
    g=nat(rng,3); a,b=integer(rng,5),integer(rng,5)
    if rng.random()<.5: a*=g;b*=g
    if rng.random()<.1: a=0
    if rng.random()<.1: b=0
    bin_case(lib,rng,'cry_mpi_gcd',lambda x,y:gcd(x,y),lambda:(a,b))
@case('M06',0.5)
def lcm(lib,rng):
    g=nat(rng,2); a,b=nat(rng,4),nat(rng,4)
    if rng.random()<.5: a*=g;b*=g
    a=a or 1;b=b or 1
    bin_case(lib,rng,'cry_mpi_lcm',lambda x,y:x*y//gcd(x,y),lambda:(a,b))
@case('M06')
def inv(lib,rng):
    m=(nat(rng,rng.choice((1,2,5))) or 3)
    if m<2: m=2
    a=nat(rng,rng.choice((1,2,5)))%m
    if rng.random()<.15: a=nat(rng,6)
    if rng.random()<.1: a=m-1
    if rng.random()<.1: a=1
    A,M=Mpi(lib,a),Mpi(lib,m); R=rng.choice((A,M,None,None)) or Mpi(lib,0)
    rc=lib.cry_mpi_inv(R,A,M)
    if gcd(a,m)!=1:
        if rc==0: raise Fail('inverse of a non-invertible value',a=a,m=m)
    else:
        if rc!=0: raise Fail('inv failed',a=a,m=m,rc=rc)
        v=R.val()
        if not(0<=v<m) or (v*a-1)%m!=0: raise Fail('inverse wrong',a=a,m=m,got=v)
@case('M06')
def modexp(lib,rng):
    m=nat(rng,rng.choice((1,2,4))) or 1
    b=nat(rng,rng.choice((1,4,6))); e=rng.choice((nat(rng,1),nat(rng,2),rng.randrange(0,20),1<<rng.randrange(0,130),(1<<rng.randrange(0,130))-1))
    if rng.random()<.3: b%=m
    A,E,M=Mpi(lib,b),Mpi(lib,e),Mpi(lib,m); R=rng.choice((A,E,M,None,None,None)) or Mpi(lib,integer(rng,2))
    rc=lib.cry_mpi_mod_exp(R,A,E,M)
    if rc!=0 or R.val()!=pow(b,e,m): raise Fail('mod_exp wrong',b=b,e=e,m=m,rc=rc,alias=[R.p==A.p,R.p==E.p,R.p==M.p])
    for x,v in((A,b),(E,e),(M,m)):
        if x.p!=R.p and x.val()!=v: raise Fail('mod_exp modified an operand',b=b,e=e,m=m)
@case('M06',0.4)
def expn(lib,rng):
    b=integer(rng,2); e=rng.randrange(0,20)
    A,E=Mpi(lib,b),Mpi(lib,e); R=rng.choice((A,E,None,None)) or Mpi(lib,integer(rng,2))
    rc=lib.cry_mpi_exp(R,A,E)
    if rc!=0 or R.val()!=b**e: raise Fail('exp wrong',b=b,e=e,rc=rc)
@case('M06')
def sqrt(lib,rng):
    v=nat(rng,rng.choice((1,2,6)))
    t=rng.random()
    if t<.3: v=v*v
    elif t<.5: v=max(v*v-1,0)
    elif t<.6: v=v*v+2*v
    un_case(lib,rng,'cry_mpi_sqrt',isqrt,v)

# ---- allocation failures
def mk(lib,vals): return [Mpi(lib,v,0) for v in vals]
def fault(lib,rng,what,setup,call,outs,teardown=None,spec=None):
    """call under every allocation failure point: error reported, nothing leaked, inputs intact"""
    k=0
    while True:
        lib.vp_reset()
        objs=setup(); ins=[(o,o.val()) for o in objs if o not in outs(objs)]
        # (the struct itself is malloc'ed, only library memory is counted)
        lib.vp_fail_at(k)
        rc=call(objs)
        n=lib.vp_count(); lib.vp_fail_at(-1)
        if n>k and rc==0 and spec is None: raise Fail('%s: success although an allocation failed'%what,fail_at=k)
        if rc==0 and spec is not None and not spec(objs): raise Fail('%s: success with a wrong result after an allocation failure'%what,fail_at=k)
        if n<=k and rc!=0: raise Fail('%s: failed without an allocation failure (%d)'%(what,rc),fail_at=k)
        for o,v in ins:
            if o.val()!=v: raise Fail('%s: input modified'%what,fail_at=k)
        for o in outs(objs):
            c=o.c
            if c.data and c.used>c.alloc: raise Fail('%s: output not well formed after failure'%what,fail_at=k)
            if c.used and not c.data: raise Fail('%s: output has digits but no data after failure'%what,fail_at=k)
        for o in objs:
            if o.c.data: lib.cry_mpi_clear(o)
        if lib.vp_live()!=0: raise Fail('%s: %d blocks leaked'%(what,lib.vp_live()),fail_at=k)
        if lib.vp_bad(): raise Fail('%s: heap corrupted / bad free'%what,fail_at=k)
        if n<=k: return
        k+=1
        if k>60: k+=rng.randrange(1,40)
        if k>4000: return
def S(fn,nargs,gen,outi=(0,)):
    def c(lib,rng):
        vals=gen(rng)
        try:
            fault(lib,rng,fn,lambda:mk(lib,vals),lambda o:getattr(lib,fn)(*o[:nargs]),lambda o:[o[i] for i in outi],
                  spec=None)
        except Fail as e: e.inp={'fn':fn,'vals':vals,**e.inp}; raise
    c.__name__='fault_'+fn
    return c
big=lambda rng,n:nat(rng,n=n)|(1<<(64*n-1))
for fn,na,g in [('cry_mpi_add',3,lambda r:[0,big(r,rr(r)),big(r,rr(r))]),('cry_mpi_sub',3,lambda r:[0,big(r,rr(r)),-big(r,rr(r))]),
    ('cry_mpi_mul',3,lambda r:[0,big(r,rr(r)),big(r,rr(r))]),('cry_mpi_mul_karatsuba',3,lambda r:[0,big(r,20),big(r,20)]),('cry_mpi_mul_toom3',3,lambda r:[0,big(r,24),big(r,24)]),
    ('cry_mpi_mul_comba',3,lambda r:[0,big(r,rr(r)),big(r,rr(r))]),('cry_mpi_mul_baseline',3,lambda r:[0,big(r,rr(r)),big(r,rr(r))]),
    ('cry_mpi_sqr',2,lambda r:[0,big(r,rr(r))]),('cry_mpi_sqr_karatsuba',2,lambda r:[0,big(r,20)]),('cry_mpi_gcd',3,lambda r:[0,big(r,2)*6,big(r,2)*6]),
    ('cry_mpi_lcm',3,lambda r:[0,big(r,2),big(r,2)]),('cry_mpi_mod_exp',4,lambda r:[0,big(r,3),r.randrange(2,90),big(r,3)]),('cry_mpi_sqrt',2,lambda r:[0,big(r,4)]),
    ('cry_mpi_exp',3,lambda r:[0,big(r,2),r.randrange(0,9)]),('cry_mpi_copy',2,lambda r:[0,big(r,rr(r))]),('cry_mpi_abs',2,lambda r:[0,-big(r,rr(r))])]:
    case('S01')(S(fn,na,g))
def rr(r): return r.randrange(1,20)
@case('S01')
def fault_div(lib,rng):
    vals=[0,0,big(rng,rng.randrange(1,9)),big(rng,rng.randrange(1,5))]
    if rng.random()<.4: vals[2]=-vals[2]
    try: fault(lib,rng,'cry_mpi_div',lambda:mk(lib,vals),lambda o:lib.cry_mpi_div(*o),lambda o:o[:2])
    except Fail as e: e.inp={'vals':vals,**e.inp}; raise
@case('S01')
def fault_inv(lib,rng):
    m=big(rng,2)|1; a=rng.randrange(2,m)
    while gcd(a,m)!=1: a=rng.randrange(2,m)
    try: fault(lib,rng,'cry_mpi_inv',lambda:mk(lib,[0,a,m]),lambda o:lib.cry_mpi_inv(*o),lambda o:o[:1])
    except Fail as e: e.inp={'a':a,'m':m,**e.inp}; raise
@case('S01')
def fault_shift(lib,rng):
    v=big(rng,rng.randrange(1,5)); n=rng.randrange(0,900); f=rng.choice(('cry_mpi_shl','cry_mpi_shr'))
    try: fault(lib,rng,f,lambda:mk(lib,[0,v]),lambda o:getattr(lib,f)(o[0],o[1],n),lambda o:o[:1])
    except Fail as e: e.inp={'v':v,'n':n,**e.inp}; raise
@case('S01')
def fault_conv(lib,rng):
    d=rng.randbytes(rng.randrange(0,300)); b=lib.buf(d); 
    try:
        fault(lib,rng,'cry_mpi_load_bin',lambda:mk(lib,[0]),lambda o:lib.cry_mpi_load_bin(o[0],b,len(d)),lambda o:o[:1])
        s=str(int.from_bytes(d[:60],'big')).encode()+b'\0'; sb=lib.buf(s)
        fault(lib,rng,'cry_mpi_load_str',lambda:mk(lib,[0]),lambda o:lib.cry_mpi_load_str(o[0],10,sb),lambda o:o[:1])
        h=b'%x\0'%int.from_bytes(d,'big'); hb=lib.buf(h)
        fault(lib,rng,'cry_mpi_load_str16',lambda:mk(lib,[0]),lambda o:lib.cry_mpi_load_str(o[0],16,hb),lambda o:o[:1])
        out=lib.buf(4000); v=int.from_bytes(d[:60],'big')
        fault(lib,rng,'cry_mpi_store_str',lambda:mk(lib,[v]),lambda o:lib.cry_mpi_store_str(o[0],10,out),lambda o:[])
    except Fail as e: e.inp={'data':d,**e.inp}; raise
@case('S01')
def fault_init_list(lib,rng):
    n=rng.randrange(1,9); st=C.create_string_buffer(32*n)
    base=C.addressof(st)
    for k in range(n+1):
        lib.vp_reset(); C.memset(base,0x41,32*n)
        lib.vp_fail_at(k)
        rc=lib.cry_mpi_init_list(*[C.c_void_p(base+32*i) for i in range(n)],C.c_void_p(None))
        lib.vp_fail_at(-1)
        if (rc==0)!=(k>=n): raise Fail('init_list result %d with %d of %d allocations'%(rc,k,n))
        if rc==0: lib.cry_mpi_clear_list(*[C.c_void_p(base+32*i) for i in range(n)],C.c_void_p(None))
        if lib.vp_live() or lib.vp_bad(): raise Fail('init_list leaks or corrupts',n=n,fail_at=k)
# ---- random generation
@case('G01',0.5)
def mpi_rand(lib,rng):
    seed=rng.randbytes(rng.randrange(0,40)); lib.cry_prng_aes_init(seed,len(seed))
    n=rng.choice((rng.randrange(1,80),64*rng.randrange(1,5),rng.randrange(1,700)))
    a=Mpi(lib,integer(rng,2))
    rc=lib.cry_mpi_rand(a,n)
    if rc!=0 or a.val()<0 or a.val().bit_length()>n: raise Fail('mpi_rand out of range',bits=n,seed=seed,got=a.val())
    mx=(nat(rng,4) or 1)+1
    rc=lib.cry_mpi_rand_range(a,Mpi(lib,mx))
    if rc!=0 or not(0<=a.val()<mx): raise Fail('rand_range out of range',max=mx,seed=seed,got=a.val())
