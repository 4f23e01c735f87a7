"""A01: AES encryption and decryption equal FIPS 197 for every key, every data, every number of blocks
and every history of operations on a context."""
from pv import *
from aesspec import *
AES='src/crypt/aes.c'
ST=tuple(SB); IT=tuple(IS)
M_={k:tuple(gmul(i,k) for i in range(256)) for k in(2,3,9,11,13,14)}
def S(x): return tab(8,ST,x)
def I(x): return tab(8,IT,x)
def G(k,x): return tab(8,M_[k],x)
def expand(key):
    nk=len(key)//4; nr=nk+6; w=[list(key[4*i:4*i+4]) for i in range(nk)]; rc=1
    for i in range(nk,4*(nr+1)):
        t=list(w[i-1])
        if i%nk==0:
            t=[S(x) for x in t[1:]+t[:1]]; t[0]=xor(t[0],C(8,rc)); rc=xt(rc)
        elif nk>6 and i%nk==4: t=[S(x) for x in t]
        w.append([xor(a,b) for a,b in zip(w[i-nk],t)])
    return nr,[sum(w[4*r:4*r+4],[]) for r in range(nr+1)]
def enc(ks,b):
    nr,rk=ks; s=[xor(x,y) for x,y in zip(b,rk[0])]
    for r in range(1,nr+1):
        s=[S(s[4*((c+i)%4)+i]) for c in range(4) for i in range(4)]
        if r!=nr:
            o=[]
            for c in range(4):
                a,b,d,e=s[4*c:4*c+4]
                o+=[xor(G(2,a),G(3,b),d,e),xor(a,G(2,b),G(3,d),e),xor(a,b,G(2,d),G(3,e)),xor(G(3,a),b,d,G(2,e))]
            s=o
        s=[xor(x,y) for x,y in zip(s,rk[r])]
    return s
def dec(ks,b):
    nr,rk=ks; s=[xor(x,y) for x,y in zip(b,rk[nr])]
    for r in range(nr-1,-1,-1):
        s=[I(s[4*((c-i)%4)+i]) for c in range(4) for i in range(4)]
        s=[xor(x,y) for x,y in zip(s,rk[r])]
        if r:
            o=[]
            for c in range(4):
                a,b,d,e=s[4*c:4*c+4]
                o+=[xor(G(14,a),G(11,b),G(13,d),G(9,e)),xor(G(9,a),G(14,b),G(11,d),G(13,e)),xor(G(13,a),G(9,b),G(14,d),G(11,e)),xor(G(11,a),G(13,b),G(9,d),G(14,e))]
            s=o
    return s
def ctxsize():
    m=ir.module(AES); return m.size(Ty('name','struct.cry_aes_ctx'))
def aes(kl,inplace):
    ex=Ex(invs=[Auto()]); st=St(); n=ctxsize()
    ctx=ex.region(st,'ctx',n,ufbytes('ctx')); key=ex.region(st,'key',kl,ufbytes('key'),ro=True)
    K=[uf(8,'key',c64(i)) for i in range(kl)]; ks=expand(K)
    rs=ex.call(st,'cry_aes_key_set',[Ptr(ctx,c64(0)),Ptr(key,c64(0)),c64(kl)],top=True)
    ex.ob('deterministic',len(rs)==1,'key_set forks')
    N=zext(sym(44,'N'),64); size=mul(N,c64(16))
    def snap(s): return tuple(ex.rbyte(s,s.mem[ctx],ctx,c64(i)) for i in range(n))
    st0=rs[0][0]; seen={snap(st0):'key_set'}; work=[(st0.mem[ctx],'key_set')]
    while work:
        cont,hist=work.pop(0)
        if len(seen)>8: raise Unsupported('more than 8 states of the context')
        for op,spec in (('cry_aes_encrypt',enc),('cry_aes_decrypt',dec)):
            s=St(); cont.shared=True; s.mem[ctx]=cont; s.add(ult(N,c64(1<<44)))
            src=ex.region(s,'data',size,ufbytes('data'),ro=not inplace)
            dst=src if inplace else ex.region(s,'out',size,ufbytes('out'))
            outs=ex.call(s,op,[Ptr(ctx,c64(0)),Ptr(dst,c64(0)),Ptr(src,c64(0)),size],top=True)
            nf=0
            for s2,v in outs:
                if not ex.feasible(s2): continue
                nf+=1
                j=zext(fresh(44,'j'),64); s3=s2.fork(); s3.add(ult(j,N))
                if ex.feasible(s3):
                    got=ex.peek(s3,Ptr(dst,mul(j,c64(16))),16)
                    exp=spec(ks,[uf(8,'data',addc(mul(j,c64(16)),i)) for i in range(16)])
                    for i in range(16): ex.ob('ensures block == FIPS-197',got[i] is exp[i] or ex.same(s3,got[i],exp[i]),'%s after %s: byte %d of a block'%(op,hist,i))
                else: ex.ob('covers all blocks',ex.proves(s2,eq(N,c64(0))),'path without data')
                if not inplace: ex.equal_content(s2,src,s2.mem[src],Cont(),'frame: source unchanged')
                sn=snap(s2)
                if sn not in seen: seen[sn]=hist+','+op; work.append((s2.mem[ctx],seen[sn]))
            ex.ob('reachable',nf>0,'no feasible path')
for kl in(16,24,32):
    for ip in(0,1): task('AES-%d %s: histories x blocks'%(kl*8,'in place' if ip else 'disjoint'),aes,kl,ip)
