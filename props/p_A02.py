"""A02: DES and EDE3 equal FIPS 46-3 for every key, data, number of blocks and history."""
from pv import *
import desspec as D
DES='src/crypt/des.c'
def bits(bs): return [ext(b,i,i) for b in bs for i in range(7,-1,-1)]
def bytes_(bt): return [cat(bt[8*i:8*i+8]) for i in range(len(bt)//8)]
def sub_(i,b):
    t=tuple(D.sbox(i,v) for v in range(64)); v=tab(4,t,cat(b)); return [ext(v,3-k,3-k) for k in range(4)]
def crypt(key,blk,dec): return bytes_(D.crypt_bits(bits(blk),D.subkey_bits(bits(key)),sub_,lambda a,b:xor(a,b),dec))
def spec(K,b,dec):
    if len(K)==8: return crypt(K,b,dec)
    k=[K[0:8],K[8:16],K[16:24]]
    if not dec: return crypt(k[2],crypt(k[1],crypt(k[0],b,False),True),False)
    return crypt(k[0],crypt(k[1],crypt(k[2],b,True),False),True)
def des(kl,inplace,op):
    ex=Ex(invs=[Auto()]); st=St(); n=ir.module(DES).size(Ty('name','struct.cry_des_ctx'))
    ctx=ex.region(st,'ctx',n,ufbytes('ctx')); key=ex.region(st,'key',kl,ufbytes('key'),ro=True)
    K=[uf(8,'key',c64(i)) for i in range(kl)]
    rs=ex.call(st,'cry_des_key_set',[Ptr(ctx,c64(0)),Ptr(key,c64(0)),c64(kl)],top=True)
    ex.ob('deterministic',len(rs)==1,'key_set forks')
    cont=rs[0][0].mem[ctx]; cont.shared=True
    N=zext(sym(44,'N'),64); size=mul(N,c64(8))
    s=St(); s.mem[ctx]=cont
    src=ex.region(s,'data',size,ufbytes('data'),ro=not inplace); dst=src if inplace else ex.region(s,'out',size,ufbytes('out'))
    outs=ex.call(s,op,[Ptr(ctx,c64(0)),Ptr(dst,c64(0)),Ptr(src,c64(0)),size],top=True); nf=0
    for s2,v in outs:
        if not ex.feasible(s2): continue
        nf+=1; j=zext(fresh(44,'j'),64); s3=s2.fork(); s3.add(ult(j,N))
        if ex.feasible(s3):
            got=ex.peek(s3,Ptr(dst,mul(j,c64(8))),8)
            exp=spec(K,[uf(8,'data',addc(mul(j,c64(8)),i)) for i in range(8)],op.endswith('decrypt'))
            for i in range(8): ex.ob('ensures block == FIPS-46-3',got[i] is exp[i] or ex.same(s3,got[i],exp[i]),'%s: byte %d of a block'%(op,i))
        else: ex.ob('covers all blocks',ex.proves(s2,eq(N,c64(0))),'path without data')
        # the context is not changed: every history reduces to one operation
        ex.equal_content(s2,ctx,s2.mem[ctx],cont,'frame: context unchanged')
        if not inplace: ex.equal_content(s2,src,s2.mem[src],Cont(),'frame: source unchanged')
    ex.ob('reachable',nf>0,'no feasible path')
for kl in(8,24):
    for ip in(0,1):
        for op in('cry_des_encrypt','cry_des_decrypt'): task('%s key %d %s'%(op,kl,'in place' if ip else 'disjoint'),des,kl,ip,op)
