"""Contract oracles of the curve arithmetic and of the public key schemes."""
import ctypes as C
from reg import *
from lib import Fail,Buf,Mpi,P,SZ
def sub(lib,buf,t): return Mpi(lib,p=buf.addr+lib.offsetof(t))
def at(lib,buf,o): return Mpi(lib,p=buf.addr+o)
def isp(n):
    if n<2: return False
    for p in (2,3,5,7,11,13,17,19,23,29,31,37):
        if n%p==0: return n==p
    d=n-1;s=0
    while d%2==0: d//=2;s+=1
    for a in (2,3,5,7,11,13,17,19,23,29,31,37):
        x=pow(a,d,n)
        if x in(1,n-1): continue
        for _ in range(s-1):
            x=x*x%n
            if x==n-1: break
        else: return False
    return True
# ------------------------------------------------------------------ affine reference
def e_add(cv,a,b):
    p,A,_=cv
    if a is None: return b
    if b is None: return a
    if (a[0]-b[0])%p==0:
        if (a[1]+b[1])%p==0: return None
        l=(3*a[0]*a[0]+A)*pow(2*a[1],-1,p)%p
    else: l=(b[1]-a[1])*pow(b[0]-a[0],-1,p)%p
    x=(l*l-a[0]-b[0])%p
    return (x,(l*(a[0]-x)-a[1])%p)
def e_mul(cv,a,k):
    r=None
    while k:
        if k&1: r=e_add(cv,r,a)
        a=e_add(cv,a,a); k>>=1
    return r
CURVES={0:('p192r1',2**192-2**64-1),1:('p224r1',2**224-2**96+1),2:('p256r1',2**256-2**224+2**192+2**96-1),3:('p384r1',2**384-2**128-2**96+2**32-1),4:('p521r1',2**521-1),
 5:('p192k1',2**192-2**32-2**12-2**8-2**7-2**6-2**3-1),6:('p224k1',2**224-2**32-2**12-2**11-2**9-2**7-2**4-2-1),7:('p256k1',2**256-2**32-977),8:('bp256r1',None),9:('bp384r1',None),10:('bp512r1',None)}
ORD={0:0xFFFFFFFFFFFFFFFFFFFFFFFF99DEF836146BC9B1B4D22831,1:0xFFFFFFFFFFFFFFFFFFFFFFFFFFFF16A2E0B8F03E13DD29455C5C2A3D,2:0xFFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551,
 7:0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141}
class Grp:
    def __init__(self,lib,gid=None,cv=None,g=None,n=None):
        self.lib=lib; self.b=lib.ctx('cry_ecp_grp')
        o=lambda f:lib.offsetof('cry_ecp_grp.'+f)
        if gid is not None:
            if lib.cry_ecp_grp_load(self.b,gid): raise Fail('group %d cannot be loaded'%gid)
        else:
            if lib.cry_ecp_grp_init(self.b): raise Fail('init')
            at(lib,self.b,o('p')).set(cv[0]); at(lib,self.b,o('a')).set(cv[1]); at(lib,self.b,o('b')).set(cv[2]); at(lib,self.b,o('n')).set(n or 0)
            setpt(lib,self.b,o('g'),g)
        self.og=o('g')
        self.cv=tuple(at(lib,self.b,o(f)).val(canon=False) for f in 'pab'); self.n=at(lib,self.b,o('n')).val(); self.g=getpt(lib,self.b,o('g'))
    def free(self): self.lib.cry_ecp_grp_clear(self.b)
def setpt(lib,b,off,pt):
    x,y,z=[at(lib,b,off+lib.offsetof('cry_ecp.'+f)) for f in 'xyz']
    if pt is None: x.set(1);y.set(1);z.set(0)
    else: x.set(pt[0]);y.set(pt[1]);z.set(1)
def getpt(lib,b,off=0):
    x,y,z=[at(lib,b,off+lib.offsetof('cry_ecp.'+f)).val() for f in 'xyz']
    if z==0: return None
    if z!=1: raise Fail('point with z=%d'%z)
    return (x,y)
def newpt(lib,pt,seen=None):
    b=lib.ctx('cry_ecp')
    if lib.cry_ecp_init(b): raise Fail('init')
    setpt(lib,b,0,pt); return b
_small=[]
def small(rng):
    """all the points of a curve over a small field"""
    if not _small:
        r=random.Random(5)
        for p in (5,7,11,13,17,19,23,29,31,37,41,43,97,101):
            for _ in range(3):
                a,b=r.randrange(p),r.randrange(p)
                if (4*a**3+27*b*b)%p==0: continue
                pts=[None]+[(x,y) for x in range(p) for y in range(p) if (y*y-x**3-a*x-b)%p==0]
                _small.append(((p,a,b),pts))
    return rng.choice(_small)
@case('P01',1.0)
def ecp_small(lib,rng):
    cv,pts=small(rng); g=Grp(lib,cv=cv,g=pts[-1],n=7)
    for _ in range(12):
        a,b=rng.choice(pts),rng.choice(pts)
        if rng.random()<.2: b=a
        elif rng.random()<.2 and a: b=(a[0],(-a[1])%cv[0])
        A,B=newpt(lib,a),newpt(lib,b); al=rng.randrange(4)
        R=newpt(lib,rng.choice(pts)) if al<2 else (A if al==2 else B)
        r=lib.cry_ecp_add(R,A,B,g.b)
        if r or getpt(lib,R)!=e_add(cv,a,b): raise Fail('ecp addition wrong',curve=cv,a=a,b=b,alias=al,ret=r,got=getpt(lib,R))
        if al!=2 and getpt(lib,A)!=a or (al!=3 and getpt(lib,B)!=b): raise Fail('ecp addition modified an operand',curve=cv,a=a,b=b)
        A=newpt(lib,a); R=newpt(lib,None) if al<2 else A
        r=lib.cry_ecp_dbl(R,A,g.b)
        if r or getpt(lib,R)!=e_add(cv,a,a): raise Fail('ecp doubling wrong',curve=cv,a=a,ret=r,got=getpt(lib,R))
        k=rng.randrange(0,3*len(pts)); A=newpt(lib,a); K=Mpi(lib,k); R=newpt(lib,None) if al<3 else A
        r=lib.cry_ecp_mul(R,A,K,g.b)
        if r or getpt(lib,R)!=e_mul(cv,a,k): raise Fail('ecp multiplication wrong',curve=cv,a=a,k=k,ret=r,got=getpt(lib,R))
        K.free()
@case('P01',1.0)
def ecp_big(lib,rng):
    gid=rng.randrange(11); g=Grp(lib,gid)
    k=rng.choice((0,1,2,3,rng.getrandbits(8),g.n-1,g.n,g.n+1,rng.randrange(g.n),rng.randrange(g.n),(1<<rng.randrange(1,200))-1,1<<rng.randrange(1,200),rng.getrandbits(60)<<rng.randrange(60)))
    A=newpt(lib,g.g); K=Mpi(lib,k); R=newpt(lib,None); r=lib.cry_ecp_mul(R,A,K,g.b); q=e_mul(g.cv,g.g,k)
    if r or getpt(lib,R)!=q: raise Fail('ecp multiplication wrong',grp=gid,k=k)
    k2=rng.getrandbits(30); q2=e_mul(g.cv,g.g,k2); B=newpt(lib,q2); r=lib.cry_ecp_add(R,R,B,g.b)
    if r or getpt(lib,R)!=e_add(g.cv,q,q2): raise Fail('ecp addition wrong',grp=gid,k=k,k2=k2)
    g.free()
@case('P01',0.2,exhaustive=11)
def ecp_groups(lib,rng,i):
    """the group parameters: prime field, generator on the curve and of prime order n"""
    i%=11; g=Grp(lib,i); p,a,b=g.cv
    if CURVES[i][1] is not None and p!=CURVES[i][1]: raise Fail('wrong field of %s'%CURVES[i][0])
    if i in ORD and g.n!=ORD[i]: raise Fail('wrong order of %s'%CURVES[i][0])
    if not isp(p) or not isp(g.n): raise Fail('%s: field or order not prime'%CURVES[i][0])
    if g.g is None or (g.g[1]**2-g.g[0]**3-a*g.g[0]-b)%p: raise Fail('%s: generator not on the curve'%CURVES[i][0])
    if e_mul(g.cv,g.g,g.n) is not None: raise Fail('%s: n is not the order of the generator'%CURVES[i][0])
    if abs(g.n-p-1)>2*__import__('math').isqrt(p)+2: raise Fail('%s: order outside of the Hasse interval'%CURVES[i][0])
    g.free()
# ------------------------------------------------------------------ DSA
_dsa={}
def dsa_params(bits,qb,r):
    k=(bits,qb)
    l=_dsa.setdefault(k,[])
    if len(l)<3:
        while True:
            q=r.getrandbits(qb)|1|1<<(qb-1)
            if isp(q): break
        while True:
            p=r.getrandbits(bits)|1<<(bits-1); p-=p%(2*q)-1
            if p>q and isp(p): break
        while True:
            g=pow(r.randrange(2,p),(p-1)//q,p)
            if g>1: break
        l.append((p,q,g))
    return l[r.randrange(len(l))]
def msg(rng,n): return data(rng,n)
@case('D01')
def dsa(lib,rng):
    sz=rng.choice(((24,8),(64,16),(128,32),(256,160),(512,160),(20,10)))
    p,q,g=dsa_params(sz[0],sz[1],random.Random(str(sz)+str(rng.randrange(3)))); x=rng.randrange(1,q); y=pow(g,x,p)
    c=lib.ctx('cry_dsa_ctx')
    if lib.cry_dsa_init(c): raise Fail('init')
    for f,v in (('p',p),('q',q),('g',g),('pvt',x),('pub',y)): sub(lib,c,'cry_dsa_ctx.'+f).set(v)
    s=lib.ctx('cry_dsa_sig'); r_=sub(lib,s,'cry_dsa_sig.r'); s_=sub(lib,s,'cry_dsa_sig.s'); lib.cry_mpi_init(r_); lib.cry_mpi_init(s_)
    m=msg(rng,size(rng,40)); qlen=(q.bit_length()+7)//8; z=int.from_bytes(m[:qlen],'big'); inp=dict(p=p,q=q,g=g,x=x,msg=m)
    def valid(r,t,z=z):
        if not(0<r<q and 0<t<q): return False
        w=pow(t,-1,q); return pow(g,z*w%q,p)*pow(y,r*w%q,p)%p%q==r
    try:
        seed=rng.randbytes(32); lib.cry_prng_aes_init(lib.buf(seed),32)
        res=lib.cry_dsa_sign(c,s,lib.buf(m),len(m))
        if res==0:
            r,t=r_.val(),s_.val()
            if not valid(r,t): raise Fail('dsa produced an invalid signature',r=r,s=t,seed=seed)
            if lib.cry_dsa_verify(c,s,lib.buf(m),len(m)): raise Fail('dsa rejects its own signature',r=r,s=t,seed=seed)
        elif q>1<<30: raise Fail('dsa signing fails',ret=res,seed=seed)
        for _ in range(6):
            w=rng.randrange(8)
            if res==0 and w<4: r,t=r_.val(),s_.val()
            else: r,t=rng.randrange(0,q+2),rng.randrange(0,q+2)
            if w==0: r+=q
            elif w==1: t+=q
            elif w==2: t=q-t
            elif w==3: r=rng.choice((r,r,-r)); t=-t if r>=0 else t
            elif w==4: r=rng.choice((0,q,1,-1))
            elif w==5: t=rng.choice((0,q,2*q))
            r_.set(r); s_.set(t); m2=m if rng.random()<.6 else msg(rng,size(rng,40)); z2=int.from_bytes(m2[:qlen],'big')
            got=lib.cry_dsa_verify(c,s,lib.buf(m2),len(m2))
            if (got==0)!=valid(r,t,z2): raise Fail('dsa verify wrong',r=r,s=t,msg2=m2,got=got)
            if res==0: break
    except Fail as e: e.inp={**inp,**e.inp}; raise
    lib.cry_dsa_clear(c)
@case('D01',0.05)
def dsa_keygen(lib,rng):
    c=lib.ctx('cry_dsa_ctx'); lib.cry_dsa_init(c); seed=rng.randbytes(32); lib.cry_prng_aes_init(lib.buf(seed),32)
    if lib.cry_dsa_keygen(c,0): return
    p,q,g,x,y=[sub(lib,c,'cry_dsa_ctx.'+f).val() for f in('p','q','g','pvt','pub')]
    if not(isp(p) and isp(q) and (p-1)%q==0 and 1<g<p and pow(g,q,p)==1 and 0<x<q and y==pow(g,x,p)): raise Fail('dsa key wrong',seed=seed,p=p,q=q,g=g,x=x,y=y)
    lib.cry_dsa_clear(c)
# ------------------------------------------------------------------ ECDSA
_pc=[]
def prime_curve(rng):
    """small curves of prime order"""
    if not _pc:
        r=random.Random(9)
        while len(_pc)<12:
            p=r.choice((23,29,31,37,41,43,47,61,97,101,127,211,251)); a,b=r.randrange(p),r.randrange(p)
            if (4*a**3+27*b*b)%p==0: continue
            pts=[(x,y) for x in range(p) for y in range(p) if (y*y-x**3-a*x-b)%p==0]
            n=len(pts)+1
            if isp(n) and n!=p and n>7: _pc.append(((p,a,b),pts,n))
    return rng.choice(_pc)
@case('D02')
def ecdsa(lib,rng):
    c=lib.ctx('cry_ecdsa_ctx'); o=lambda f:lib.offsetof('cry_ecdsa_ctx.'+f)
    sm=rng.random()<.75
    if sm:
        cv,pts,n=prime_curve(rng); g=rng.choice(pts)
        if lib.cry_ecdsa_init(c,C.c_int(-1)): raise Fail('init')
        for f,v in zip('pab',cv): at(lib,c,o('grp')+lib.offsetof('cry_ecp_grp.'+f)).set(v)
        at(lib,c,o('grp')+lib.offsetof('cry_ecp_grp.n')).set(n); setpt(lib,c,o('grp')+lib.offsetof('cry_ecp_grp.g'),g)
    else:
        if lib.cry_ecdsa_init(c,rng.choice((0,2,7,8,1))): raise Fail('init')
        cv=tuple(at(lib,c,o('grp')+lib.offsetof('cry_ecp_grp.'+f)).val(canon=False) for f in 'pab'); n=at(lib,c,o('grp')+lib.offsetof('cry_ecp_grp.n')).val(); g=getpt(lib,c,o('grp')+lib.offsetof('cry_ecp_grp.g'))
    d=rng.randrange(1,n); Q=e_mul(cv,g,d); at(lib,c,o('d')).set(d); setpt(lib,c,o('q'),Q)
    s=lib.ctx('cry_ecdsa_sig'); r_=sub(lib,s,'cry_ecdsa_sig.r'); s_=sub(lib,s,'cry_ecdsa_sig.s'); lib.cry_mpi_init(r_); lib.cry_mpi_init(s_)
    m=msg(rng,size(rng,70)); nl=(n.bit_length()+7)//8; z=int.from_bytes(m[:nl],'big'); inp=dict(curve=cv,n=n,g=g,d=d,msg=m)
    def valid(r,t,z=z):
        if not(0<r<n and 0<t<n): return False
        w=pow(t,-1,n); pt=e_add(cv,e_mul(cv,g,z*w%n),e_mul(cv,Q,r*w%n)); return pt is not None and pt[0]%n==r
    try:
        seed=rng.randbytes(32); lib.cry_prng_aes_init(lib.buf(seed),32)
        res=lib.cry_ecdsa_sign(c,s,lib.buf(m),len(m))
        if res==0:
            r,t=r_.val(),s_.val()
            if not valid(r,t): raise Fail('ecdsa produced an invalid signature',r=r,s=t,seed=seed)
            if lib.cry_ecdsa_verify(c,s,lib.buf(m),len(m)): raise Fail('ecdsa rejects its own signature',r=r,s=t,seed=seed)
        elif not sm: raise Fail('ecdsa signing fails',ret=res,seed=seed)
        for _ in range(4 if sm else 1):
            w=rng.randrange(8)
            if res==0 and w<4: r,t=r_.val(),s_.val()
            else: r,t=rng.randrange(0,n+2),rng.randrange(0,n+2)
            if w==0: r+=n
            elif w==1: t+=n
            elif w==2: t=n-t
            elif w==3: r,t=rng.choice(((-r,t),(r,-t)))
            elif w==4: r=rng.choice((0,n,1,-1))
            elif w==5: t=rng.choice((0,n,2*n))
            r_.set(r); s_.set(t); m2=m if rng.random()<.6 else msg(rng,size(rng,70)); z2=int.from_bytes(m2[:nl],'big')
            got=lib.cry_ecdsa_verify(c,s,lib.buf(m2),len(m2))
            if (got==0)!=valid(r,t,z2): raise Fail('ecdsa verify wrong',r=r,s=t,msg2=m2,got=got)
            if res==0: break
    except Fail as e: e.inp={**inp,**e.inp}; raise
    lib.cry_ecdsa_clear(c)
@case('D02',0.2)
def ecdsa_keygen(lib,rng):
    c=lib.ctx('cry_ecdsa_ctx'); gid=rng.choice((0,2,7)); o=lambda f:lib.offsetof('cry_ecdsa_ctx.'+f)
    if lib.cry_ecdsa_init(c,gid): raise Fail('init')
    seed=rng.randbytes(32); lib.cry_prng_aes_init(lib.buf(seed),32)
    if lib.cry_ecdsa_keygen(c): raise Fail('keygen fails',seed=seed)
    cv=tuple(at(lib,c,o('grp')+lib.offsetof('cry_ecp_grp.'+f)).val(canon=False) for f in 'pab'); n=at(lib,c,o('grp')+lib.offsetof('cry_ecp_grp.n')).val(); g=getpt(lib,c,o('grp')+lib.offsetof('cry_ecp_grp.g'))
    d=at(lib,c,o('d')).val()
    if not 0<=d<n or getpt(lib,c,o('q'))!=e_mul(cv,g,d): raise Fail('ecdsa key wrong',grp=gid,seed=seed,d=d)
    lib.cry_ecdsa_clear(c)
# ------------------------------------------------------------------ ElGamal
_eg={}
def eg_params(bits,r):
    l=_eg.setdefault(bits,[])
    if len(l)<4:
        while True:
            p=r.getrandbits(bits)|1|1<<(bits-1)
            if isp(p): break
        l.append((p,r.randrange(2,p-1)))
    return l[r.randrange(len(l))]
@case('D03')
def elgamal(lib,rng):
    bits=rng.choice((8,12,20,64,65,128,200)); p,g=eg_params(bits,random.Random('%d %d'%(bits,rng.randrange(4)))); d=rng.randrange(1,p-1); y=pow(g,d,p)
    c=lib.ctx('cry_elgamal_ctx')
    if lib.cry_elgamal_init(c): raise Fail('init')
    for f,v in (('p',p),('g',g),('y',y),('d',d)): sub(lib,c,'cry_elgamal_ctx.'+f).set(v)
    pl=(p.bit_length()+7)//8; m=msg(rng,rng.choice((0,1,pl,pl-1,pl+1,rng.randrange(0,pl+1)))); z=int.from_bytes(m,'big'); inp=dict(p=p,g=g,d=d,msg=m)
    def valid(r,s,m):
        if len(m)>pl or not 0<r<p: return False
        return pow(g,int.from_bytes(m,'big'),p)==pow(y,r,p)*pow(r,s,p)%p
    try:
        seed=rng.randbytes(32); lib.cry_prng_aes_init(lib.buf(seed),32)
        sg=lib.buf(2*pl); res=lib.cry_elgamal_sign(c,sg,lib.buf(m),len(m)); sg.check()
        if res==0:
            b=sg.get(); r,s=int.from_bytes(b[:pl],'big'),int.from_bytes(b[pl:],'big')
            if not valid(r,s,m): raise Fail('elgamal produced an invalid signature',sig=b,seed=seed)
            if lib.cry_elgamal_verify(c,lib.buf(b),lib.buf(m),len(m)): raise Fail('elgamal rejects its own signature',sig=b,seed=seed)
        elif len(m)<=pl and p>1<<60: raise Fail('elgamal signing fails',seed=seed,ret=res)
        elif len(m)>pl and res==0: raise Fail('elgamal signs a message longer than the modulus')
        for _ in range(4):
            w=rng.randrange(7)
            if res==0 and w<4: r,s=int.from_bytes(b[:pl],'big'),int.from_bytes(b[pl:],'big')
            else: r,s=rng.randrange(0,1<<8*pl),rng.randrange(0,1<<8*pl)
            if w==0: r+=p
            elif w==1: s^=1<<rng.randrange(8*pl)
            elif w==2: r^=1<<rng.randrange(8*pl)
            elif w==4: r=0
            elif w==5: r=p
            m2=m if rng.random()<.6 else msg(rng,rng.randrange(0,pl+2))
            r%=1<<8*pl; s%=1<<8*pl
            got=lib.cry_elgamal_verify(c,lib.buf(r.to_bytes(pl,'big')+s.to_bytes(pl,'big')),lib.buf(m2),len(m2))
            if (got==0)!=valid(r,s,m2): raise Fail('elgamal verify wrong',r=r,s=s,msg2=m2,got=got)
    except Fail as e: e.inp={**inp,**e.inp}; raise
    lib.cry_elgamal_clear(c)
# ------------------------------------------------------------------ RSA
_rsa={}
def rsa_params(bits,r):
    l=_rsa.setdefault(bits,[])
    if len(l)<3:
        while True:
            h=bits//2; p=r.getrandbits(h)|1|3<<(h-2); q=r.getrandbits(bits-h)|1|3<<(bits-h-2)
            if p!=q and isp(p) and isp(q) and (p*q).bit_length()==bits:
                phi=(p-1)*(q-1); e=r.choice((3,5,17,257,65537))
                try: d=pow(e,-1,phi)
                except ValueError: continue
                break
        l.append((p*q,e,d))
    return l[r.randrange(len(l))]
def rsa_ctx(lib,n,e,d,pad):
    c=lib.ctx('cry_rsa_ctx')
    if lib.cry_rsa_init(c,pad): raise Fail('init')
    for f,v in (('n',n),('e',e),('d',d)): sub(lib,c,'cry_rsa_ctx.'+f).set(v)
    return c
def rsa_call(lib,fn,c,m):
    out=lib.buf(8,8); ol=lib.buf(8,8); r=fn(c,out,ol,lib.buf(m),len(m))
    p=int.from_bytes(out.get(),'little'); n=int.from_bytes(ol.get(),'little')
    res=C.string_at(p,n) if p and n else b''
    if r!=0 and (p or n): raise Fail('rsa failure leaves an output')
    if p: lib.vp_free(C.c_void_p(p))
    return r,res
def unpad(eb,bt):
    if len(eb)<3 or eb[0]!=0 or eb[1]!=bt: return None
    i=eb.find(b'\0',2)
    if i<0: return None
    if bt==1 and any(x!=0xff for x in eb[2:i]): return None
    return eb[i+1:]
@case('D04')
def rsa(lib,rng):
    bits=rng.choice((90,96,128,129,256,257,512)); n,e,d=rsa_params(bits,random.Random('%d %d'%(bits,rng.randrange(3)))); k=(bits+7)//8
    c=rsa_ctx(lib,n,e,d,1); m=msg(rng,rng.choice((0,1,k-11,k-10,2*(k-11),rng.randrange(0,3*k)))); inp=dict(n=n,e=e,d=d,msg=m)
    try:
        seed=rng.randbytes(32); lib.cry_prng_aes_init(lib.buf(seed),32)
        r,ct=rsa_call(lib,lib.cry_rsa_encrypt,c,m)
        if r: raise Fail('rsa encryption fails',ret=r)
        if len(ct)!=k*((len(m)+k-12)//(k-11)): raise Fail('rsa ciphertext length')
        pt=b''
        for i in range(0,len(ct),k):
            v=int.from_bytes(ct[i:i+k],'big'); x=unpad(pow(v,d,n).to_bytes(k,'big'),2)
            if v>=n or x is None or (k-3-len(x)<8): raise Fail('rsa ciphertext is not a PKCS#1 v1.5 block',ct=ct)
            pt+=x
        if pt!=m: raise Fail('rsa ciphertext does not carry the message',ct=ct)
        r,back=rsa_call(lib,lib.cry_rsa_decrypt,c,ct)
        if r or back!=m: raise Fail('rsa decryption does not invert encryption',ct=ct,ret=r,got=back)
        r,sg=rsa_call(lib,lib.cry_rsa_sign,c,m)
        want=b''
        for i in range(0,len(m),k-11):
            b=m[i:i+k-11]; want+=pow(int.from_bytes(b'\0\1'+b'\xff'*(k-3-len(b))+b'\0'+b,'big'),d,n).to_bytes(k,'big')
        if r or sg!=want: raise Fail('rsa signature wrong',ret=r,got=sg)
        if lib.cry_rsa_verify(c,lib.buf(sg),len(sg),lib.buf(m),len(m)): raise Fail('rsa rejects its own signature')
        if m:
            m2=bytearray(m); m2[rng.randrange(len(m2))]^=1<<rng.randrange(8)
            for x in (bytes(m2),m[:-1],m+b'\0'):
                if lib.cry_rsa_verify(c,lib.buf(sg),len(sg),lib.buf(x),len(x))==0: raise Fail('rsa accepts a signature of another message',msg2=x)
        # arbitrary blocks
        bt=rng.choice((1,2)); eb=bytearray(rng.randbytes(k)); eb[0]=rng.choice((0,0,0,1)); eb[1]=rng.choice((bt,bt,bt,0,1,2,3))
        w=rng.randrange(4)
        if w<2: eb[2:k]=bytes(255 if bt==1 else x|1 for x in eb[2:k])
        if w==1: eb[rng.randrange(2,k)]=0
        if w==2: eb[k-1]=0
        eb=bytes(eb)
        if int.from_bytes(eb,'big')<n:
            want=unpad(eb,bt); ct=pow(int.from_bytes(eb,'big'),e if bt==2 else d,n).to_bytes(k,'big')
            if bt==2:
                r,got=rsa_call(lib,lib.cry_rsa_decrypt,c,ct)
                if (r==0)!=(want is not None) or (r==0 and got!=want): raise Fail('rsa block decoding wrong',eb=eb,ret=r,got=got)
            else:
                t=want if want is not None else b'abc'
                r=lib.cry_rsa_verify(c,lib.buf(ct),len(ct),lib.buf(t),len(t))
                if (r==0)!=(want is not None): raise Fail('rsa signature block decoding wrong',eb=eb,ret=r)
        if ct:
            cut=rng.randrange(1,k); r,got=rsa_call(lib,lib.cry_rsa_decrypt,c,ct+bytes(cut))
            if r==0: raise Fail('rsa decrypts a text that is not a whole number of blocks',ct=ct,extra=cut)
        if lib.vp_bad(): raise Fail('heap corruption')
    except Fail as x: x.inp={**inp,**x.inp}; raise
    lib.cry_rsa_clear(c)
    if lib.vp_live(): raise Fail('leak',**inp)
@case('D04',0.1)
def rsa_keygen(lib,rng):
    bits=rng.choice((32,64,128,192)); e=rng.choice((3,17,65537,0)); c=lib.ctx('cry_rsa_ctx'); lib.cry_rsa_init(c,1); seed=rng.randbytes(32); lib.cry_prng_aes_init(lib.buf(seed),32)
    if lib.cry_rsa_keygen(c,bits,e): return
    n,E,d,p,q=[sub(lib,c,'cry_rsa_ctx.'+f).val() for f in('n','e','d','p','q')]
    if not(isp(p) and isp(q) and p!=q and n==p*q and n.bit_length()==bits and (E*d-1)%((p-1)*(q-1))==0 and (e==0 or E==e)): raise Fail('rsa key wrong',seed=seed,bits=bits,e=e,n=n,E=E,d=d,p=p,q=q)
    lib.cry_rsa_clear(c)
# ------------------------------------------------------------------ DH, ECDH
@case('D05')
def dh(lib,rng):
    bits=rng.choice((8,20,64,128,200,256)); p,g=eg_params(bits,random.Random('%d %d'%(bits,rng.randrange(4)))); ex=[rng.randrange(0,p) for _ in 'ab']; cs=[]
    inp=dict(p=p,g=g,e=ex); pl=(p.bit_length()+7)//8+rng.choice((0,0,1,5))
    for e in ex:
        c=lib.ctx('cry_dh_ctx')
        if lib.cry_dh_init(c): raise Fail('init')
        for f,v in (('p',p),('g',g),('e',e)): sub(lib,c,'cry_dh_ctx.'+f).set(v)
        cs.append(c)
    tok=[]
    for c,e in zip(cs,ex):
        o=lib.buf(pl)
        if lib.cry_dh_agree(c) or lib.cry_dh_get_tok(c,o,pl): raise Fail('dh fails',**inp)
        if int.from_bytes(o.get(),'big')!=pow(g,e,p): raise Fail('dh token wrong',**inp)
        tok.append(o.get())
    for i in (0,1):
        o=lib.buf(pl)
        if lib.cry_dh_set_tok(cs[i],lib.buf(tok[1-i]),pl) or lib.cry_dh_finalize(cs[i]) or lib.cry_dh_get_sec(cs[i],o,pl): raise Fail('dh fails',**inp)
        if int.from_bytes(o.get(),'big')!=pow(g,ex[0]*ex[1],p): raise Fail('dh secret wrong',**inp)
        if pow(g,ex[0]*ex[1],p)>255:
            s=lib.buf(1)
            if lib.cry_dh_get_sec(cs[i],s,1)==0: raise Fail('dh secret stored in a buffer that is too small',**inp)
            s.check()
    for c in cs: lib.cry_dh_clear(c)
@case('D05')
def ecdh(lib,rng):
    cs=[];o=lambda f:lib.offsetof('cry_ecdh_ctx.'+f); og=lambda f:o('ec')+lib.offsetof('cry_ecp_grp.'+f)
    if rng.random()<.85: cv,pts,n=prime_curve(rng); g=rng.choice(pts)
    else:
        G=Grp(lib,rng.choice((0,2,7,8))); cv,n,g=G.cv,G.n,G.g; G.free()
    ds=[rng.randrange(1,n) for _ in 'ab']; inp=dict(curve=cv,g=g,d=ds)
    for d in ds:
        c=lib.ctx('cry_ecdh_ctx')
        if lib.cry_ecdh_init(c): raise Fail('init')
        for f,v in zip('pab',cv): at(lib,c,og(f)).set(v)
        at(lib,c,og('n')).set(n); setpt(lib,c,og('g'),g); at(lib,c,o('d')).set(d); cs.append(c)
        if lib.cry_ecdh_agree(c): raise Fail('ecdh fails',**inp)
        if getpt(lib,c,o('q'))!=e_mul(cv,g,d): raise Fail('ecdh token wrong',**inp)
    q=[getpt(lib,c,o('q')) for c in cs]
    for i in (0,1):
        setpt(lib,cs[i],o('q'),q[1-i])
        if lib.cry_ecdh_final(cs[i]) or getpt(lib,cs[i],o('z'))!=e_mul(cv,g,ds[0]*ds[1]): raise Fail('ecdh secret wrong',**inp)
    for c in cs: lib.cry_ecdh_clear(c)
    if lib.vp_live(): raise Fail('leak',**inp)
# ------------------------------------------------------------------ clearing of the public key contexts
@case('Z01')
def clear_pk(lib,rng):
    for t,fs in (('dsa',('p','q','g','pvt','pub')),('elgamal',('p','g','y','d')),('rsa',('n','e','d','p','q')),('dh',('p','g','e','Y','Z'))):
        c=lib.ctx('cry_%s_ctx'%t)
        if t=='rsa': lib.cry_rsa_init(c,1)
        else: getattr(lib,'cry_%s_init'%t)(c)
        for f in fs: sub(lib,c,'cry_%s_ctx.%s'%(t,f)).set(nat(rng,5))
        getattr(lib,'cry_%s_clear'%t)(c)
        if any(c.get()): raise Fail('%s: clear leaves data behind'%t)
        if lib.vp_live(): raise Fail('%s: clear leaks'%t)
    c=lib.ctx('cry_ecdsa_ctx'); lib.cry_ecdsa_init(c,rng.randrange(11)); at(lib,c,lib.offsetof('cry_ecdsa_ctx.d')).set(rng.getrandbits(200)); lib.cry_ecdsa_clear(c)
    if any(c.get()): raise Fail('ecdsa: clear leaves data behind')
    if lib.vp_live(): raise Fail('ecdsa: clear leaks')
    c=lib.ctx('cry_ecdh_ctx'); lib.cry_ecdh_init(c); at(lib,c,lib.offsetof('cry_ecdh_ctx.d')).set(rng.getrandbits(200)); lib.cry_ecdh_clear(c)
    if lib.vp_live(): raise Fail('ecdh: clear leaks')
