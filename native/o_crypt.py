"""Contract oracles of the symmetric algorithms."""
import ctypes as C, hashlib, hmac as pyhmac, zlib, base64 as pb64, struct
from reg import *
from lib import Fail,Buf
# ------------------------------------------------------------------ AES reference (FIPS-197, from the definition)
def xt(a): return ((a<<1)^0x11b)&0xff if a&0x80 else a<<1
def gmul(a,b):
    r=0
    while b:
        if b&1: r^=a
        a=xt(a); b>>=1
    return r
def _sbox():
    s=[0]*256
    for x in range(256):
        inv=0
        if x:
            for y in range(1,256):
                if gmul(x,y)==1: inv=y;break
        r=0
        for i in range(8):
            b=(inv>>i ^ inv>>((i+4)%8) ^ inv>>((i+5)%8) ^ inv>>((i+6)%8) ^ inv>>((i+7)%8) ^ 0x63>>i)&1
            r|=b<<i
        s[x]=r
    return s
SB=_sbox(); IS=[0]*256
for i,v in enumerate(SB): IS[v]=i
M2=[gmul(i,2) for i in range(256)];M3=[gmul(i,3) for i in range(256)]
M9,M11,M13,M14=[[gmul(i,k) for i in range(256)] for k in(9,11,13,14)]
def aes_expand(key):
    nk=len(key)//4; nr=nk+6
    w=[list(key[4*i:4*i+4]) for i in range(nk)]; rc=1
    for i in range(nk,4*(nr+1)):
        t=list(w[i-1])
        if i%nk==0:
            t=[SB[x] for x in t[1:]+t[:1]]; t[0]^=rc; rc=xt(rc)
        elif nk>6 and i%nk==4: t=[SB[x] for x in t]
        w.append([a^b for a,b in zip(w[i-nk],t)])
    return nr,[sum(w[4*r:4*r+4],[]) for r in range(nr+1)]
def aes_enc(ks,blk):
    nr,rk=ks
    s=[a^b for a,b in zip(blk,rk[0])]
    for r in range(1,nr+1):
        s=[SB[s[(4*c+5*i)%16 if False else 4*((c+i)%4)+i]] for c in range(4) for i in range(4)]
        if r!=nr:
            o=[]
            for c in range(4):
                a,b,d,e=s[4*c:4*c+4]
                o+=[M2[a]^M3[b]^d^e,a^M2[b]^M3[d]^e,a^b^M2[d]^M3[e],M3[a]^b^d^M2[e]]
            s=o
        s=[a^b for a,b in zip(s,rk[r])]
    return bytes(s)
def aes_dec(ks,blk):
    nr,rk=ks
    s=[a^b for a,b in zip(blk,rk[nr])]
    for r in range(nr-1,-1,-1):
        s=[IS[s[4*((c-i)%4)+i]] for c in range(4) for i in range(4)]
        s=[a^b for a,b in zip(s,rk[r])]
        if r:
            o=[]
            for c in range(4):
                a,b,d,e=s[4*c:4*c+4]
                o+=[M14[a]^M11[b]^M13[d]^M9[e],M9[a]^M14[b]^M11[d]^M13[e],M13[a]^M9[b]^M14[d]^M11[e],M11[a]^M13[b]^M9[d]^M14[e]]
            s=o
    return bytes(s)
assert aes_enc(aes_expand(bytes(range(16))),bytes.fromhex('00112233445566778899aabbccddeeff')).hex()=='69c4e0d86a7b0430d8cdb78070b4c55a'
def ecb(f,bs,d): return b''.join(f(d[i:i+bs]) for i in range(0,len(d),bs))
class LibAes:
    def __init__(self,lib,key): self.lib=lib; self.c=aes_key(lib,key); self.b=lib.buf(16)
    def E(self,b):
        r=self.b; C.memmove(r.addr,bytes(b),16); self.lib.cry_aes_encrypt(self.c,r,r,16); return C.string_at(r.addr,16)
def aes_key(lib,key):
    c=lib.ctx('cry_aes_ctx'); lib.cry_aes_init(c); kb=lib.buf(key); lib.cry_aes_key_set(c,kb,len(key)); return c
def ecb_case(lib,rng,name,c,bs,n,src,want):
    fn=getattr(lib,name)
    extra=0
    if rng.random()<.4:
        b=lib.buf(src+bytes([0x33])*0); fn(c,b,b,len(src)); got=b.get(); mode='inplace'
    else:
        s=lib.buf(src); d=lib.buf(len(src)); fn(c,d,s,len(src)); got=d.get(); mode='outofplace'
        if s.get()!=src: raise Fail('source modified')
    c.check()
    if got!=want: raise Fail('%s wrong (%s)'%(name,mode),src=src,got=got,want=want)
@case('A01')
def aes(lib,rng):
    key=data(rng,rng.choice((16,24,32))); nb=rng.choice((1,1,2,3,5)); src=data(rng,16*nb)
    ks=aes_expand(key); c=aes_key(lib,key)
    try:
        e=ecb(lambda b:aes_enc(ks,b),16,src); d=ecb(lambda b:aes_dec(ks,b),16,src); hist=''
        for _ in range(rng.choice((2,3,4))):
            w=rng.randrange(3); hist+='eid'[w]
            if w==0: ecb_case(lib,rng,'cry_aes_encrypt',c,16,nb,src,e)
            elif w==1: ecb_case(lib,rng,'cry_aes_decrypt',c,16,nb,e,src)
            else: ecb_case(lib,rng,'cry_aes_decrypt',c,16,nb,src,d)
    except Fail as x: x.inp.update(key=key,history=hist); raise
# ------------------------------------------------------------------ DES reference (FIPS 46-3 tables)
import sys,os
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","spec"))
import desspec as D
def des_ks(key): return D.subkeys(int.from_bytes(key,'big'))
def des_blk(ks,b,dec=False): return D.crypt(int.from_bytes(b,'big'),ks,dec).to_bytes(8,'big')
def tdes(key,dec=False):
    k=[des_ks(key[i:i+8]) for i in range(0,len(key),8)]
    if len(k)==1: return lambda b:des_blk(k[0],b,dec)
    if len(k)==2: k=[k[0],k[1],k[0]]
    if not dec: return lambda b:des_blk(k[2],des_blk(k[1],des_blk(k[0],b),True))
    return lambda b:des_blk(k[0],des_blk(k[1],des_blk(k[2],b,True)),True)
def des_key(lib,key):
    c=lib.ctx('cry_des_ctx'); lib.cry_des_init(c); kb=lib.buf(key); lib.cry_des_key_set(c,kb,len(key)); return c
@case('A02')
def des(lib,rng):
    key=data(rng,rng.choice((8,8,24))); nb=rng.choice((1,1,2,3)); src=data(rng,8*nb)
    c=des_key(lib,key)
    try:
        e=ecb(tdes(key),8,src)
        for _ in range(2):
            if rng.random()<.5: ecb_case(lib,rng,'cry_des_encrypt',c,8,nb,src,e)
            else: ecb_case(lib,rng,'cry_des_decrypt',c,8,nb,e,src)
    except Fail as x: x.inp['key']=key; raise
# ------------------------------------------------------------------ modes (over the library's own block cipher)
class Ciph:
    def __init__(self,lib,rng):
        self.lib=lib
        self.des=rng.random()<.4
        self.bs=8 if self.des else 16
        self.key=data(rng,rng.choice((8,24)) if self.des else rng.choice((16,24,32)))
        # the block cipher itself is the business of A01 and A02
        self.rc=lib.ctx('cry_des_ctx' if self.des else 'cry_aes_ctx'); p='cry_des_' if self.des else 'cry_aes_'
        getattr(lib,p+'init')(self.rc); getattr(lib,p+'key_set')(self.rc,lib.buf(self.key),len(self.key))
        self.rb=lib.buf(self.bs); self.fe,self.fd=getattr(lib,p+'encrypt'),getattr(lib,p+'decrypt')
    def E(self,b):
        r=self.rb; C.memmove(r.addr,bytes(b),self.bs); self.fe(self.rc,r,r,self.bs); return C.string_at(r.addr,self.bs)
    def D(self,b):
        r=self.rb; C.memmove(r.addr,bytes(b),self.bs); self.fd(self.rc,r,r,self.bs); return C.string_at(r.addr,self.bs)
    def open(self,mode,iv):
        lib=self.lib
        self.cc=lib.ctx('cry_des_ctx' if self.des else 'cry_aes_ctx')
        c=lib.ctx('cry_%s_ctx'%mode); p='cry_%s_'%mode
        getattr(lib,p+'init')(c,self.cc,C.c_void_p(lib.sym('vp_des_itf' if self.des else 'vp_aes_itf')))
        kb=lib.buf(self.key); getattr(lib,p+'key_set')(c,kb,len(self.key))
        ib=lib.buf(iv); getattr(lib,p+'iv_set')(c,ib,len(iv))
        return c
def X(a,b): return bytes(x^y for x,y in zip(a,b))
def chunks(rng,n,unit):
    """cut n bytes in pieces, all but the last multiple of unit"""
    out=[];left=n
    while left>0 and rng.random()<.6:
        k=unit*rng.choice((0,1,1,2,3,rng.randrange(0,left//unit+1)))
        if k>left: break
        out.append(k); left-=k
    out.append(left); return out
def stream(lib,rng,fn,c,src,unit,pieces=None):
    out=b'';o=0
    for k in pieces or chunks(rng,len(src),unit):
        s=src[o:o+k]; o+=k
        if rng.random()<.45:
            b=lib.buf(s); fn(c,b,b,k); out+=b.get()
        else:
            sb=lib.buf(s); d=lib.buf(k); fn(c,d,sb,k); out+=d.get()
            if sb.get()!=s: raise Fail('source modified')
        c.check()
    return out
def mode_case(lib,rng,mode,enc,dec,spec,unit,szmul):
    ci=Ciph(lib,rng); iv=data(rng,ci.bs)
    n=size(rng); 
    if szmul: n-=n%ci.bs
    src=data(rng,n); u=unit(ci.bs)
    inp=dict(des=ci.des,key=ci.key,iv=iv,src=src)
    try:
        want=spec(ci,iv,src)
        c=ci.open(mode,iv); pc=chunks(rng,n,u); inp['pieces']=pc
        got=stream(lib,rng,getattr(lib,enc),c,src,u,pc)
        if got!=want: raise Fail('%s wrong'%enc,got=got,want=want)
        c=ci.open(mode,iv); pc=chunks(rng,n,u); inp['pieces']=pc
        back=stream(lib,rng,getattr(lib,dec),c,want,u,pc)
        if back!=src: raise Fail('%s does not invert encryption'%dec,got=back)
    except Fail as x: x.inp={**inp,**x.inp}; raise
def s_cbc(ci,iv,p):
    o=b'';v=iv
    for i in range(0,len(p),ci.bs): v=ci.E(X(p[i:i+ci.bs],v)); o+=v
    return o
@case('B01')
def cbc(lib,rng): mode_case(lib,rng,'cbc','cry_cbc_encrypt','cry_cbc_decrypt',s_cbc,lambda b:b,True)
@case('B01',0.4)
def cbc_nomem(lib,rng):
    ci=Ciph(lib,rng); iv=data(rng,ci.bs); n=size(rng); n-=n%ci.bs; src=data(rng,n)
    want=s_cbc(ci,iv,src); c=ci.open('cbc',iv); b=lib.buf(want)
    lib.vp_fail_at(0); lib.cry_cbc_decrypt(c,b,b,n); lib.vp_fail_at(-1)
    if b.get()!=src: raise Fail('in-place cbc decryption wrong when the allocation fails',des=ci.des,key=ci.key,iv=iv,src=src)
    if lib.vp_live(): raise Fail('leak')
def s_cfb(ci,iv,p):
    o=b'';v=iv
    for i in range(0,len(p),ci.bs): v=X(p[i:i+ci.bs],ci.E(v)); o+=v
    return o
@case('B02')
def cfb(lib,rng): mode_case(lib,rng,'cfb','vp_cfb_encrypt','vp_cfb_decrypt',s_cfb,lambda b:b,False)
def s_cfb8(ci,iv,p):
    o=b'';v=iv
    for x in p:
        y=bytes([x^ci.E(v)[0]]); o+=y; v=v[1:]+y
    return o
@case('B02')
def cfb8(lib,rng):
    mode_case(lib,rng,'cfb','cry_cfb8_encrypt','cry_cfb8_decrypt',s_cfb8,lambda b:1,False)
def s_ctr(ci,iv,p):
    o=b'';v=int.from_bytes(iv,'big');m=1<<(8*ci.bs)
    for i in range(0,len(p),ci.bs):
        o+=X(p[i:i+ci.bs],ci.E(v.to_bytes(ci.bs,'big'))); v=(v+1)%m
    return o
@case('B03')
def ctr(lib,rng):
    mode_case(lib,rng,'ctr','cry_ctr_encrypt','vp_ctr_decrypt',s_ctr,lambda b:b,False)
@case('B03')
def ctr_wrap(lib,rng):
    ci=Ciph(lib,rng); k=rng.randrange(0,ci.bs+1); iv=data(rng,ci.bs-k)+b'\xff'*k
    iv=(int.from_bytes(iv,'big')-rng.randrange(0,9))%(1<<8*ci.bs); iv=iv.to_bytes(ci.bs,'big')
    n=rng.randrange(0,200); src=data(rng,n)
    c=ci.open('ctr',iv); got=stream(lib,rng,lib.cry_ctr_encrypt,c,src,ci.bs)
    if got!=s_ctr(ci,iv,src): raise Fail('ctr counter wrong',des=ci.des,key=ci.key,iv=iv,src=src)
# GCM
def ghash_mul(x,y):
    z=0;v=x
    for i in range(127,-1,-1):
        if y>>i&1: z^=v
        v=(v>>1)^(0xE1<<120 if v&1 else 0)
    return z
def ghash(h,d,y=0):
    for i in range(0,len(d),16):
        y=ghash_mul(y^int.from_bytes(d[i:i+16].ljust(16,b'\0'),'big'),h)
    return y
def s_gcm(E,iv,aad,p):
    h=int.from_bytes(E(bytes(16)),'big')
    if len(iv)==12: j0=iv+b'\0\0\0\1'
    else: j0=ghash(h,struct.pack('>QQ',0,8*len(iv)),ghash(h,iv)).to_bytes(16,'big')
    c=int.from_bytes(j0[12:],'big');o=b''
    for i in range(0,len(p),16):
        c=(c+1)&0xffffffff; o+=X(p[i:i+16],E(j0[:12]+c.to_bytes(4,'big')))
    s=ghash(h,struct.pack('>QQ',8*len(aad),8*len(o)),ghash(h,o,ghash(h,aad)))
    return o,X(s.to_bytes(16,'big'),E(j0)),j0
def gcm_open(lib,rng,key,iv):
    c=lib.ctx('cry_gcm_ctx'); cc=lib.ctx('cry_aes_ctx'); lib.cry_gcm_init(c,cc,C.c_void_p(lib.sym('vp_aes_itf')))
    kb=lib.buf(key); lib.cry_gcm_key_set(c,kb,len(key)); ib=lib.buf(iv); lib.cry_gcm_iv_set(c,ib,len(iv)); return c
@case('B04',2)
def gcm(lib,rng):
    key=data(rng,rng.choice((16,24,32))); iv=data(rng,rng.choice((12,12,12,16,8,1,13,60,rng.randrange(1,70))))
    aad=data(rng,size(rng,130)); src=data(rng,size(rng,260)); E=LibAes(lib,key).E
    ct,tag,_=s_gcm(E,iv,aad,src); tl=rng.choice((16,16,12,4,rng.randrange(0,17)))
    inp=dict(key=key,iv=iv,aad=aad,src=src,tl=tl)
    try:
        for enc in (1,0):
            c=gcm_open(lib,rng,key,iv)
            o=0
            for k in chunks(rng,len(aad),16):
                ab=lib.buf(aad[o:o+k]); lib.cry_gcm_update(c,ab,k); o+=k
            got=stream(lib,rng,lib.cry_gcm_encrypt if enc else lib.cry_gcm_decrypt,c,src if enc else ct,16)
            if got!=(ct if enc else src): raise Fail('gcm text wrong',enc=enc)
            m=lib.buf(tl); lib.cry_gcm_digest(c,m,tl)
            if m.get()!=tag[:tl]: raise Fail('gcm tag wrong',enc=enc)
    except Fail as x: x.inp={**inp,**x.inp}; raise
@case('B04',0.5)
def gcm_wrap(lib,rng):
    """32 bit counter wrap: the counter of the context is placed next to the wrap point"""
    key=data(rng,16); E=LibAes(lib,key).E; c=gcm_open(lib,rng,key,data(rng,12))
    off=lib.offsetof('cry_gcm_ctx.ctr'); st=rng.randbytes(12)+struct.pack('>I',(0-rng.randrange(0,5)-(rng.choice((0,0xff00,0xfffe00,0x0100))))&0xffffffff)
    c.set(off,st); src=data(rng,rng.randrange(0,160))
    got=stream(lib,rng,lib.cry_gcm_encrypt,c,src,16)
    v=int.from_bytes(st[12:],'big'); o=b''
    for i in range(0,len(src),16):
        o+=X(src[i:i+16],E(st[:12]+v.to_bytes(4,'big'))); v=(v+1)&0xffffffff
    if got!=o: raise Fail('gcm counter wrap wrong',key=key,ctr=st,src=src)
@case('B04',0.5)
def gcm_len(lib,rng):
    """tag with large length counters (the lengths in the context are advanced by whole 2^k)"""
    key=data(rng,16); E=LibAes(lib,key).E; iv=data(rng,12); c=gcm_open(lib,rng,key,iv)
    al,cl=rng.choice((0,1<<29,rng.getrandbits(36))),rng.choice((0,1<<29,(1<<32)-1,rng.getrandbits(36)))
    c.set(lib.offsetof('cry_gcm_ctx.auth_len'),struct.pack('<Q',al)); c.set(lib.offsetof('cry_gcm_ctx.ciph_len'),struct.pack('<Q',cl))
    m=lib.buf(16); lib.cry_gcm_digest(c,m,16)
    h=int.from_bytes(E(bytes(16)),'big'); t=X(ghash(h,struct.pack('>QQ',8*al,8*cl)).to_bytes(16,'big'),E(iv+b'\0\0\0\1'))
    if m.get()!=t: raise Fail('gcm length block wrong',auth=al,ciph=cl,key=key,iv=iv)
# ------------------------------------------------------------------ hashes
def hinit(lib,h):
    base='sha512' if h=='sha384' else h
    c=lib.ctx('cry_%s_ctx'%base)
    if base=='sha512': lib.cry_sha512_init(c,C.c_char(1 if h=='sha384' else 0))
    else: getattr(lib,'cry_%s_init'%h)(c)
    return c,getattr(lib,'cry_%s_update'%base),getattr(lib,'cry_%s_digest'%base)
HS=('md5','sha1','sha256','sha512','sha384')
@case('H01',2)
def hashes(lib,rng):
    h=rng.choice(HS); d=data(rng,size(rng)); want=hashlib.new(h,d).digest()
    c,u,f=hinit(lib,h); o=0; pc=[]
    while o<len(d) and rng.random()<.8:
        k=rng.choice((0,1,rng.randrange(0,65),rng.randrange(0,200),64,128,55,56)); k=min(k,len(d)-o); pc.append(k)
        b=lib.buf(d[o:o+k]); u(c,b,k); o+=k
        if b.get()!=d[o-k:o]: raise Fail('input modified',h=h,d=d,pieces=pc)
    b=lib.buf(d[o:]); pc.append(len(d)-o); u(c,b,len(d)-o)
    out=lib.buf(len(want)); f(c,out); c.check()
    if out.get()!=want: raise Fail('%s wrong'%h,h=h,data=d,pieces=pc,got=out.get(),want=want)
@case('H01',0.5,exhaustive=5*300)
def hash_len(lib,rng,i):
    h=HS[i%5]; n=i//5%300; d=rng.randbytes(n); want=hashlib.new(h,d).digest(); out=lib.buf(len(want))
    b=lib.buf(d); getattr(lib,'cry_'+h)(out,b,n)
    if out.get()!=want: raise Fail('%s wrong'%h,h=h,data=d)
@case('H01',0.3)
def hash_big(lib,rng):
    """length field: the counters of the context are advanced by a multiple of the block"""
    h=rng.choice(HS); d=rng.randbytes(rng.randrange(0,150)); c,u,f=hinit(lib,h)
    bs=128 if h in('sha512','sha384') else 64
    skip=bs*rng.choice((1,(1<<32)//bs//8,(1<<29)//bs,(1<<32)//bs-1,(1<<32)//bs,rng.getrandbits(45)))
    # the counter after `skip` bytes
    if h=='sha256': c.set(lib.offsetof('cry_sha256_ctx.bitlen'),struct.pack('<Q',8*skip))
    elif h=='sha1': c.set(lib.offsetof('cry_sha1_ctx.len'),struct.pack('<II',skip&0xffffffff,skip>>32))
    elif h=='md5': c.set(lib.offsetof('cry_md5_ctx.len'),struct.pack('<II',(8*skip)&0xffffffff,(8*skip)>>32&0xffffffff))
    else: c.set(lib.offsetof('cry_sha512_ctx.len'),struct.pack('<QQ',skip,0))
    b=lib.buf(d); u(c,b,len(d)); out=lib.buf(64); f(c,out)
    # reference: compression over the padded tail with the big length
    want=ref_tail(h,d,skip+len(d))
    if out.get(0,len(want))!=want: raise Fail('%s: wrong length encoding'%h,h=h,data=d,skip=skip)
def ref_tail(h,d,total):
    import hashspec as hashref
    return hashref.digest_tail(h,d,total)
@case('H02')
def hmac_(lib,rng):
    h=rng.choice(('md5','sha1','sha256')); key=data(rng,size(rng,200)); d=data(rng,size(rng,400))
    want=pyhmac.new(key,d,h).digest(); c=lib.ctx('cry_hmac_ctx'); hc=lib.ctx('cry_%s_ctx'%h)
    kb=lib.buf(key); lib.cry_hmac_init(c,hc,C.c_void_p(lib.sym('vp_%s_itf'%h)),len(want),kb,len(key))
    o=0
    for k in chunks(rng,len(d),1):
        b=lib.buf(d[o:o+k]); lib.cry_hmac_update(c,b,k); o+=k
    out=lib.buf(len(want)); lib.cry_hmac_digest(c,out); c.check(); hc.check()
    if out.get()!=want: raise Fail('hmac-%s wrong'%h,key=key,data=d)
def s_cmac(E,d):
    def dbl(v):
        n=int.from_bytes(v,'big')<<1
        if n>>128: n^=(1<<128)|0x87
        return n.to_bytes(16,'big')
    L=E(bytes(16)); k1=dbl(L); k2=dbl(k1)
    n=max(1,(len(d)+15)//16)
    last=d[16*(n-1):]
    last=X(last,k1) if len(last)==16 else X(last+b'\x80'+bytes(15-len(last)),k2)
    x=bytes(16)
    for i in range(n-1): x=E(X(x,d[16*i:16*i+16]))
    return E(X(x,last))
@case('H03')
def cmac(lib,rng):
    key=data(rng,rng.choice((16,24,32))); d=data(rng,size(rng,300)); E=LibAes(lib,key).E
    c=lib.ctx('cry_cmac_ctx'); cc=lib.ctx('cry_aes_ctx'); kb=lib.buf(key)
    lib.cry_cmac_init(c,cc,C.c_void_p(lib.sym('vp_aes_itf')),kb,len(key))
    o=0;pc=chunks(rng,len(d),rng.choice((1,16)))
    for k in pc:
        b=lib.buf(d[o:o+k]); lib.cry_cmac_update(c,b,k); o+=k
    out=lib.buf(16); lib.cry_cmac_digest(c,out); c.check()
    if out.get()!=s_cmac(E,d): raise Fail('cmac wrong',key=key,data=d,pieces=pc)
# ------------------------------------------------------------------ crc
def crc_ref(width,poly,init,refl,xorout,d):
    r=init; m=(1<<width)-1
    for b in d:
        if refl:
            r^=b
            for _ in range(8): r=(r>>1)^(poly if r&1 else 0)
        else:
            r^=b<<(width-8)
            for _ in range(8): r=((r<<1)^(poly if r>>(width-1) else 0))&m
    return r^xorout
# (width, reflected polynomial, initial value, complement, swap bytes)
CRCS={'crc16_ccitt':(16,0x8408,0xFFFF,1,1),'crc16_ibm':(16,0xA001,0xFFFF,0,0),'crc16_dnp':(16,0xA6BC,0,1,1),'crc32_eth':(32,0xEDB88320,0xFFFFFFFF,1,0)}
def s_crc(name,d):
    w,poly,init,cpl,swap=CRCS[name]
    r=crc_ref(w,poly,init,True,0,d)
    if cpl: r^=(1<<w)-1
    if swap: r=int.from_bytes(r.to_bytes(w//8,'big'),'little')
    return r
@case('K01')
def crc(lib,rng):
    name=rng.choice(list(CRCS)); d=data(rng,size(rng,300)); want=s_crc(name,d); w=CRCS[name][0]; fam='crc%d'%w
    b=lib.buf(d); got=getattr(lib,'cry_'+name)(b,len(d))
    if got!=want or b.get()!=d: raise Fail('%s wrong'%name,data=d,got=got,want=want)
    pc=chunks(rng,len(d),1)
    for dig in (0,1):
        c=lib.ctx('cry_%s_ctx'%fam); getattr(lib,'cry_%s_init'%name)(c); o=0
        for k in pc:
            b=lib.buf(d[o:o+k]); getattr(lib,'cry_%s_update'%fam)(c,b,k); o+=k
        if dig:
            out=lib.buf(w//8); getattr(lib,'cry_%s_digest'%fam)(c,out); got=int.from_bytes(out.get(),'big')
        else: got=getattr(lib,'cry_%s_final'%fam)(c)
        c.check()
        if got!=want: raise Fail('%s incremental wrong'%name,data=d,pieces=pc,digest=dig,got=got,want=want)
# ------------------------------------------------------------------ base64
ALPH=b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
@case('E01')
def base64(lib,rng):
    d=data(rng,size(rng,300)); want=pb64.b64encode(d)
    s=lib.buf(d); o=lib.buf(len(want)); n=lib.cry_base64_encode(o,s,len(d))
    if n!=len(want) or o.get()!=want or s.get()!=d: raise Fail('base64 encoding wrong',data=d,n=n,got=o.get())
    s=lib.buf(want); o=lib.buf(len(d)); n=lib.cry_base64_decode(o,s,len(want))
    if n!=len(d) or o.get()!=d: raise Fail('base64 decoding wrong',text=want,n=n,got=o.get())
@case('E01',0.6)
def base64_illegal(lib,rng):
    """a character outside of the alphabet, or a length that is not a multiple of four, is refused"""
    n=4*rng.randrange(1,20); t=bytearray(rng.choice(ALPH) for _ in range(n))
    if rng.random()<.7:
        for _ in range(rng.choice((1,1,2))):
            while True:
                x=rng.randrange(256)
                if x not in ALPH and x!=0x3d: break
            t[rng.randrange(n)]=x
    else: t=t[:n-rng.randrange(1,4)]
    s=lib.buf(bytes(t)); o=lib.buf(3*(n//4)+3); r=lib.cry_base64_decode(o,s,len(t)); o.check()
    if r!=(1<<64)-1: raise Fail('base64 decoding accepted an illegal text',text=bytes(t),ret=r)
# ------------------------------------------------------------------ memxor with any overlap
@case('X01')
def memxor(lib,rng):
    N=200; n=rng.choice((0,1,2,3,4,8,rng.randrange(0,60)))
    base=rng.randbytes(N); a,b=[rng.randrange(0,min(N-n,3*n+4)+1) for _ in 'ab']
    buf=lib.buf(base); lib.cry_memxor(buf.at(a),buf.at(b),n)
    w=bytearray(base); w[a:a+n]=X(base[a:a+n],base[b:b+n])
    if buf.get()!=bytes(w): raise Fail('memxor wrong',n=n,dst=a,src=b)
@case('X01',1.5)
def memxor2(lib,rng):
    N=200; n=rng.choice((1,2,3,4,5,8,rng.randrange(0,60)))
    base=rng.randbytes(N); d,a,b=[rng.randrange(0,min(N-n,3*n+4)+1) for _ in 'dab']
    buf=lib.buf(base); lib.cry_memxor2(buf.at(d),buf.at(a),buf.at(b),n)
    w=bytearray(base); w[d:d+n]=X(base[a:a+n],base[b:b+n])
    if buf.get()!=bytes(w): raise Fail('memxor2 wrong',n=n,dst=d,src1=a,src2=b)
    if lib.vp_live(): raise Fail('leak',n=n,dst=d,src1=a,src2=b)
@case('X01',0.3,exhaustive=17**3)
def memxor2_small(lib,rng,i):
    i%=17**3; d,a,b=i%17,i//17%17,i//289; 
    for n in (1,2,3,5,7,8):
        base=rng.randbytes(24); buf=lib.buf(base); lib.cry_memxor2(buf.at(d),buf.at(a),buf.at(b),n)
        w=bytearray(base); w[d:d+n]=X(base[a:a+n],base[b:b+n])
        if d+n>24 or max(a,b)+n>24: continue
        if buf.get()!=bytes(w): raise Fail('memxor2 wrong',n=n,dst=d,src1=a,src2=b)
# ------------------------------------------------------------------ classic ciphers
@case('C01')
def affine(lib,rng):
    kl=rng.choice((1,2,3,8,31,32,33,40)); ka=bytearray(data(rng,kl)); kb=data(rng,kl); odd=rng.random()<.85
    if odd: ka=bytearray(x|1 for x in ka)
    c=lib.ctx('cry_affine_ctx'); r=lib.cry_affine_init(c,lib.buf(bytes(ka)),lib.buf(kb),kl); c.check()
    kk=min(kl,32); bad=any(x&1==0 for x in ka[:kk])
    if (r!=0)!=bad: raise Fail('affine key acceptance wrong',ka=bytes(ka),ret=r)
    if bad: return
    d=data(rng,size(rng,120)); e=bytes((x*ka[i%kk]+kb[i%kk])&255 for i,x in enumerate(d))
    if rng.random()<.5: s=lib.buf(d); o=lib.buf(len(d))
    else: s=o=lib.buf(d)
    lib.cry_affine_encrypt(c,o,s,len(d))
    if o.get()!=e: raise Fail('affine encryption wrong',ka=bytes(ka),kb=kb,data=d)
    if rng.random()<.5: s=lib.buf(e); o=lib.buf(len(d))
    else: s=o=lib.buf(e)
    lib.cry_affine_decrypt(c,o,s,len(d))
    if o.get()!=d: raise Fail('affine decryption does not invert encryption',ka=bytes(ka),kb=kb,data=d)
def det(m,n):
    # exact integer determinant (Bareiss)
    m=[list(m[i*n:i*n+n]) for i in range(n)]; s=1; p=1
    for k in range(n-1):
        if m[k][k]==0:
            for i in range(k+1,n):
                if m[i][k]: m[k],m[i]=m[i],m[k]; s=-s; break
            else: return 0
        for i in range(k+1,n):
            for j in range(k+1,n): m[i][j]=(m[i][j]*m[k][k]-m[i][k]*m[k][j])//p
        p=m[k][k]
    return s*m[n-1][n-1]
def matvec(k,n,v): return bytes(sum(k[i*n+j]*v[j] for j in range(n))&255 for i in range(n))
@case('C01')
def hill(lib,rng):
    n=rng.choice((1,1,2,2,3,3,4,5)); kl=n*n; key=data(rng,kl); c=lib.ctx('cry_hill_ctx')
    r=lib.cry_hill_init(c,lib.buf(key),None,kl); c.check(); inv=det(key,n)&1
    if (r==0)!=bool(inv): raise Fail('hill key acceptance wrong',key=key,ret=r)
    if r: return
    d=data(rng,n*rng.randrange(0,12)); e=b''.join(matvec(key,n,d[i:i+n]) for i in range(0,len(d),n))
    s=lib.buf(d); o=lib.buf(len(d)) if rng.random()<.6 else s
    lib.cry_hill_encrypt(c,o,s,len(d))
    if o.get()!=e: raise Fail('hill encryption wrong',key=key,data=d)
    s=lib.buf(e); o=lib.buf(len(d)) if rng.random()<.6 else s
    lib.cry_hill_decrypt(c,o,s,len(d))
    if o.get()!=d: raise Fail('hill decryption does not invert encryption',key=key,data=d)
@case('C01',0.4)
def hill_gen(lib,rng):
    """generated keys, odd key lengths"""
    n=rng.choice((1,2,3,4)); kl=n*n+rng.randrange(0,2*n+1); c=lib.ctx('cry_hill_ctx')
    if lib.cry_hill_init(c,None,None,kl): return
    key=c.get(lib.offsetof('cry_hill_ctx.key'),n*n)
    d=data(rng,n*rng.randrange(0,6)); e=b''.join(matvec(key,n,d[i:i+n]) for i in range(0,len(d),n))
    s=lib.buf(d); o=lib.buf(len(d)); lib.cry_hill_encrypt(c,o,s,len(d))
    if o.get()!=e: raise Fail('hill encryption wrong with a generated key',key=key,data=d)
    s=lib.buf(e); o=lib.buf(len(d)); lib.cry_hill_decrypt(c,o,s,len(d))
    if o.get()!=d: raise Fail('hill: generated key is not inverted',key=key,data=d)
# ------------------------------------------------------------------ stream ciphers
def s_arc4(key,n):
    s=list(range(256)); j=0
    for i in range(256): j=(j+s[i]+key[i%len(key)])&255; s[i],s[j]=s[j],s[i]
    i=j=0;o=[]
    for _ in range(n):
        i=(i+1)&255; j=(j+s[i])&255; s[i],s[j]=s[j],s[i]; o.append(s[(s[i]+s[j])&255])
    return bytes(o)
@case('R01')
def arc4(lib,rng):
    key=data(rng,rng.choice((1,2,5,16,32,255,256,257,rng.randrange(1,300)))); d=data(rng,size(rng,700)); want=X(d,s_arc4(key,len(d)))
    c=lib.ctx('cry_arc4_ctx'); lib.cry_arc4_init(c); lib.cry_arc4_key_set(c,lib.buf(key),len(key)); pc=chunks(rng,len(d),1)
    got=stream(lib,rng,lib.cry_arc4_crypt,c,d,1,pc)
    if got!=want: raise Fail('arc4 wrong',key=key,data=d,pieces=pc)
def s_trivium(key,iv,n):
    # the register bits are taken from the bytes in order, least significant bit first
    a=[key[i//8]>>(i%8)&1 for i in range(80)]+[0]*13; b=[iv[i//8]>>(i%8)&1 for i in range(80)]+[0]*4; c=[0]*108+[1]*3
    def step():
        nonlocal a,b,c
        t1=a[65]^a[92]; t2=b[68]^b[83]; t3=c[65]^c[110]; z=t1^t2^t3
        t1^=(a[90]&a[91])^b[77]; t2^=(b[81]&b[82])^c[86]; t3^=(c[108]&c[109])^a[68]
        a=[t3]+a[:-1]; b=[t1]+b[:-1]; c=[t2]+c[:-1]
        return z
    for _ in range(1152): step()
    o=b''
    while len(o)<n: # the first of 32 steps is the most significant bit of a little endian word
        o+=sum(step()<<(31-i) for i in range(32)).to_bytes(4,'little')
    return o[:n]
@case('T01')
def trivium(lib,rng):
    kl,il=rng.choice((10,10,5,12)),rng.choice((10,10,4,13)); key,iv=data(rng,kl),data(rng,il)
    d=data(rng,size(rng,100)); want=X(d,s_trivium(key[:10].ljust(10,b'\0'),iv[:10].ljust(10,b'\0'),len(d)))
    c=lib.ctx('cry_trivium_ctx'); lib.cry_trivium_init(c); lib.cry_trivium_key_set(c,lib.buf(key),kl); lib.cry_trivium_iv_set(c,lib.buf(iv),il)
    pc=chunks(rng,len(d),4); got=stream(lib,rng,lib.cry_trivium_crypt,c,d,4,pc)
    if got!=want: raise Fail('trivium wrong',key=key,iv=iv,data=d,pieces=pc)
# ------------------------------------------------------------------ key wrap (RFC 3394)
def s_wrap(E,d):
    n=len(d)//8; a=b'\xa6'*8; r=[d[8*i:8*i+8] for i in range(n)]
    for j in range(6):
        for i in range(n):
            b=E(a+r[i]); a=X(b[:8],(n*j+i+1).to_bytes(8,'big')); r[i]=b[8:]
    return a+b''.join(r)
@case('W01')
def wrap(lib,rng):
    key=data(rng,rng.choice((16,24,32))); n=rng.choice((0,1,2,3,4,8,rng.randrange(1,20))); 
    if rng.random()<.1: n=rng.choice((42,43,44,50))
    d=data(rng,8*n); want=s_wrap(LibAes(lib,key).E,d); s=lib.buf(d); o=lib.buf(8*n+8); kb=lib.buf(key)
    r=lib.cry_aes_wrap(o,s,8*n,kb,len(key))
    if r or o.get()!=want: raise Fail('key wrap wrong',key=key,data=d,got=o.get())
    s=lib.buf(want); o=lib.buf(8*n); r=lib.cry_aes_unwrap(o,s,8*n,kb,len(key))
    if r or o.get()!=d: raise Fail('key unwrap does not invert wrap',key=key,data=d,ret=r)
    x=bytearray(want); x[rng.randrange(len(x))]^=1<<rng.randrange(8)
    s=lib.buf(bytes(x)); o=lib.buf(8*n); r=lib.cry_aes_unwrap(o,s,8*n,kb,len(key))
    if r==0 or any(o.get()): raise Fail('key unwrap accepted a modified key or returned key data',key=key,wrapped=bytes(x),ret=r)
# ------------------------------------------------------------------ generators
@case('G01')
def prng_aes(lib,rng):
    seed=data(rng,rng.choice((0,1,15,16,17,24,31,32,33,48))); lib.cry_prng_aes_init(lib.buf(seed),len(seed))
    E=LibAes(lib,seed[:16].ljust(16,b'\0')).E; ctr=int.from_bytes(seed[16:32].ljust(16,b'\0'),'big'); out=b'';pc=[]
    for _ in range(rng.randrange(1,8)):
        k=rng.choice((0,1,2,15,16,17,31,32,33,rng.randrange(0,60))); pc.append(k); b=lib.buf(k)
        if lib.cry_prng_aes_rand(b,k): raise Fail('prng failed')
        out+=b.get()
    w=b''
    while len(w)<len(out): w+=E(ctr.to_bytes(16,'big')); ctr=(ctr+1)%(1<<128)
    if out!=w[:len(out)]: raise Fail('aes generator: not the counter stream of its seed',seed=seed,pieces=pc)
def s_lfsr(seed):
    z=[0]*16
    for i,x in enumerate(seed): z[i%16]^=x
    z=list(struct.unpack('<4I',bytes(z))); M=0xffffffff
    for i,m in enumerate((1,7,15,127)):
        if z[i]<=m: z[i]=987654321
    while True:
        b=((z[0]<<6&M)^z[0])>>13; z[0]=((z[0]&4294967294)<<18&M)^b
        b=((z[1]<<2&M)^z[1])>>27; z[1]=((z[1]&4294967288)<<2&M)^b
        b=((z[2]<<13&M)^z[2])>>21; z[2]=((z[2]&4294967280)<<7&M)^b
        b=((z[3]<<3&M)^z[3])>>12; z[3]=((z[3]&4294967168)<<13&M)^b
        yield z[0]^z[1]^z[2]^z[3]
@case('G01')
def prng_lfsr(lib,rng):
    seed=data(rng,rng.choice((0,1,4,15,16,17,31,32,40))); lib.cry_prng_lfsr113_init(lib.buf(seed),len(seed)); g=s_lfsr(seed); pc=[]
    for _ in range(rng.randrange(1,6)):
        k=rng.choice((0,1,2,3,4,5,8,rng.randrange(0,40))); pc.append(k); b=lib.buf(k); lib.cry_prng_lfsr113_rand(b,k)
        w=b''.join(next(g).to_bytes(4,'big') for _ in range((k+3)//4))[:k]
        if b.get()!=w: raise Fail('lfsr113: not the sequence of its seed',seed=seed,pieces=pc)
# ------------------------------------------------------------------ clearing
def zero(c,what,n=None):
    if any(c.get(0,n)): raise Fail('%s: clear leaves data behind'%what)
@case('Z01')
def clear_sym(lib,rng):
    for h in ('md5','sha1','sha256','sha512'):
        c,u,f=hinit(lib,h); d=rng.randbytes(rng.randrange(0,200)); u(c,lib.buf(d),len(d))
        if rng.random()<.5: f(c,lib.buf(64))
        getattr(lib,'cry_%s_clear'%h)(c); zero(c,h)
    c=aes_key(lib,rng.randbytes(16)); lib.cry_aes_clear(c); zero(c,'aes')
    c=des_key(lib,rng.randbytes(24)); lib.cry_des_clear(c); zero(c,'des')
    for m in ('cbc','cfb','ctr'):
        ci=Ciph(lib,rng); c=ci.open(m,rng.randbytes(ci.bs)); getattr(lib,'cry_%s_clear'%m)(c); zero(c,m); zero(ci.cc,m+' cipher')
    c=lib.ctx('cry_gcm_ctx'); cc=lib.ctx('cry_aes_ctx'); lib.cry_gcm_init(c,cc,C.c_void_p(lib.sym('vp_aes_itf')))
    lib.cry_gcm_key_set(c,lib.buf(rng.randbytes(16)),16); lib.cry_gcm_iv_set(c,lib.buf(bytes(12)),12); lib.cry_gcm_clear(c); zero(c,'gcm'); zero(cc,'gcm cipher')
    c=lib.ctx('cry_arc4_ctx'); lib.cry_arc4_key_set(c,lib.buf(b'abc'),3); lib.cry_arc4_clear(c); zero(c,'arc4')
    c=lib.ctx('cry_trivium_ctx'); lib.cry_trivium_init(c); lib.cry_trivium_clear(c); zero(c,'trivium')
