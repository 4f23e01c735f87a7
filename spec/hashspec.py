"""MD5 (RFC 1321), SHA-1/256/384/512 (FIPS 180-4): compression functions, written from the standards,
   generic over the word algebra (integers for the native oracles, terms for the proofs)."""
import math
class IntAlg:
    def const(s,w,v): return v&((1<<w)-1)
    def add(s,w,*a): return sum(a)&((1<<w)-1)
    def xor(s,w,*a):
        r=0
        for x in a: r^=x
        return r
    def and_(s,w,a,b): return a&b
    def or_(s,w,a,b): return a|b
    def not_(s,w,a): return ~a&((1<<w)-1)
    def rotl(s,w,a,n): return ((a<<n)|(a>>(w-n)))&((1<<w)-1)
    def rotr(s,w,a,n): return s.rotl(w,a,w-n)
    def shr(s,w,a,n): return a>>n
    def be(s,bs): return int.from_bytes(bytes(bs),'big')
    def le(s,bs): return int.from_bytes(bytes(bs),'little')
def primes(n):
    r=[];k=2
    while len(r)<n:
        if all(k%p for p in r): r.append(k)
        k+=1
    return r
def icbrt(n):
    x=int(round(n**(1/3))) if n<1<<50 else 1<<((n.bit_length()+2)//3)
    while True:
        y=(2*x+n//(x*x))//3
        if y>=x: break
        x=y
    while x**3>n: x-=1
    while (x+1)**3<=n: x+=1
    return x
def frac_sqrt(p,w): return math.isqrt(p<<(2*w))&((1<<w)-1)
def frac_cbrt(p,w): return icbrt(p<<(3*w))&((1<<w)-1)
K256=[frac_cbrt(p,32) for p in primes(64)]
K512=[frac_cbrt(p,64) for p in primes(80)]
IV={'md5':[0x67452301,0xefcdab89,0x98badcfe,0x10325476],
    'sha1':[0x67452301,0xefcdab89,0x98badcfe,0x10325476,0xc3d2e1f0],
    'sha256':[frac_sqrt(p,32) for p in primes(8)],
    'sha512':[frac_sqrt(p,64) for p in primes(8)],
    'sha384':[frac_sqrt(p,64) for p in primes(16)[8:]]}
KMD5=[int(abs(math.sin(i+1))*2**32)&0xffffffff for i in range(64)]
SMD5=[[7,12,17,22],[5,9,14,20],[4,11,16,23],[6,10,15,21]]
def md5(A,st,blk):
    w=32; x=[A.le(blk[4*i:4*i+4]) for i in range(16)]
    a,b,c,d=st
    for i in range(64):
        r=i//16
        if r==0: f=A.or_(w,A.and_(w,b,c),A.and_(w,A.not_(w,b),d)); k=i
        elif r==1: f=A.or_(w,A.and_(w,b,d),A.and_(w,c,A.not_(w,d))); k=(5*i+1)%16
        elif r==2: f=A.xor(w,b,c,d); k=(3*i+5)%16
        else: f=A.xor(w,c,A.or_(w,b,A.not_(w,d))); k=7*i%16
        t=A.add(w,a,f,x[k],A.const(w,KMD5[i]))
        a,d,c,b=d,c,b,A.add(w,b,A.rotl(w,t,SMD5[r][i%4]))
    return [A.add(w,p,q) for p,q in zip(st,(a,b,c,d))]
def sha1(A,st,blk):
    w=32; x=[A.be(blk[4*i:4*i+4]) for i in range(16)]
    for i in range(16,80): x.append(A.rotl(w,A.xor(w,x[i-3],x[i-8],x[i-14],x[i-16]),1))
    a,b,c,d,e=st
    for i in range(80):
        r=i//20
        if r==0: f=A.xor(w,A.and_(w,b,c),A.and_(w,A.not_(w,b),d))
        elif r==2: f=A.xor(w,A.and_(w,b,c),A.and_(w,b,d),A.and_(w,c,d))
        else: f=A.xor(w,b,c,d)
        t=A.add(w,A.rotl(w,a,5),f,e,A.const(w,(0x5a827999,0x6ed9eba1,0x8f1bbcdc,0xca62c1d6)[r]),x[i])
        e,d,c,b,a=d,c,A.rotl(w,b,30),a,t
    return [A.add(w,p,q) for p,q in zip(st,(a,b,c,d,e))]
def _sha2(A,st,blk,w,K,n,S):
    B=w//8
    x=[A.be(blk[B*i:B*i+B]) for i in range(16)]
    rr=lambda v,k:A.rotr(w,v,k)
    for i in range(16,n):
        s0=A.xor(w,rr(x[i-15],S[0]),rr(x[i-15],S[1]),A.shr(w,x[i-15],S[2]))
        s1=A.xor(w,rr(x[i-2],S[3]),rr(x[i-2],S[4]),A.shr(w,x[i-2],S[5]))
        x.append(A.add(w,x[i-16],s0,x[i-7],s1))
    a,b,c,d,e,f,g,h=st
    for i in range(n):
        S1=A.xor(w,rr(e,S[9]),rr(e,S[10]),rr(e,S[11])); ch=A.xor(w,A.and_(w,e,f),A.and_(w,A.not_(w,e),g))
        t1=A.add(w,h,S1,ch,A.const(w,K[i]),x[i])
        S0=A.xor(w,rr(a,S[6]),rr(a,S[7]),rr(a,S[8])); mj=A.xor(w,A.and_(w,a,b),A.and_(w,a,c),A.and_(w,b,c))
        t2=A.add(w,S0,mj)
        h,g,f,e,d,c,b,a=g,f,e,A.add(w,d,t1),c,b,a,A.add(w,t1,t2)
    return [A.add(w,p,q) for p,q in zip(st,(a,b,c,d,e,f,g,h))]
def sha256(A,st,blk): return _sha2(A,st,blk,32,K256,64,(7,18,3,17,19,10,2,13,22,6,11,25))
def sha512(A,st,blk): return _sha2(A,st,blk,64,K512,80,(1,8,7,19,61,6,28,34,39,14,18,41))
COMP={'md5':(md5,32,64,4,'little'),'sha1':(sha1,32,64,5,'big'),'sha256':(sha256,32,64,8,'big'),'sha384':(sha512,64,128,6,'big'),'sha512':(sha512,64,128,8,'big')}
def pad(h,total):
    """padding after `total` message bytes"""
    bs=COMP[h][2]; lf=bs//8
    z=(-(total+1+lf))%bs
    n=8*total
    ln=(n%(1<<(8*lf))).to_bytes(lf,'little' if h=='md5' else 'big')
    return b'\x80'+bytes(z)+ln
def digest_tail(h,tail,total):
    f,w,bs,no,en=COMP[h]; A=IntAlg(); st=list(IV[h]); d=tail+pad(h,total)
    assert len(d)%bs==0
    for i in range(0,len(d),bs): st=f(A,st,d[i:i+bs])
    return b''.join(x.to_bytes(w//8,en) for x in st[:no])
if __name__=='__main__':
    import hashlib
    for h in COMP:
        for n in list(range(0,300,7))+[55,56,63,64,111,112,119,120,127,128]:
            d=bytes((i*7+3)&255 for i in range(n)); assert digest_tail(h,d,n)==hashlib.new(h,d).digest(),h
    print('ok')
