"""B04: Galois/counter mode; field product proved against SP 800-38D algorithm 1, block cipher an arbitrary function."""
from clib import *
B=16
def be(v,n): return [ext(v,8*(n-1-i)+7,8*(n-1-i)) for i in range(n)]
def G(x,y): return [uf(8,'G',*(list(x)+list(y)+[C(8,i)])) for i in range(B)]
def gmod(): return ir.module('src/crypt/gcm.c')
def h_gf(ex,st,a):
    """contract of gcm_gf_mul: x becomes the product x*y"""
    x=ex.load_bytes(st,a[0],B); y=ex.load_bytes(st,a[1],B); ex.storeb(st,a[0],G(x,y)); return [(st,None)]
def product(x,y):
    """SP 800-38D, algorithm 1 (bit 0 is the most significant bit)"""
    V=x; Z=C(128,0); R=C(128,0xE1<<120)
    for i in range(128):
        Z=xor(Z,and_(rep(ext(y,127-i,127-i),128),V)); V=xor(lshr(V,1),and_(rep(ext(V,0,0),128),R))
    return Z
def t_gf(i):
    """bytes of y other than byte i are zero; the general case by linearity in y (next task)"""
    ex=Ex(); st=St(); X=[sym(8,'x%d'%j) for j in range(B)]; Y=[sym(8,'y%d'%j) if j==i or i is None else C(8,0) for j in range(B)]
    x=ex.region(st,'x',B,None); y=ex.region(st,'y',B,None); ex.storeb(st,Ptr(x,c64(0)),X); ex.storeb(st,Ptr(y,c64(0)),Y); y.ro=True; nf=0
    w=be(product(cat(X),cat(Y)),B)
    for s2,_ in ex.call(st,'gcm_gf_mul',[Ptr(x,c64(0)),Ptr(y,c64(0))],mod=gmod(),top=True):
        nf+=1; g=ex.peek(s2,Ptr(x,c64(0)),B)
        for j in range(B): ex.ob('ensures: product in GF(2^128)',g[j] is w[j],'byte %d: %s, expected %s'%(j,str(g[j])[:200],str(w[j])[:200]))
    ex.ob('reachable',nf==1)
def lay(): return layout('cry/gcm.h','struct cry_gcm_ctx',('ciph_ctx','ciph_itf','iv','ctr','hs','key','auth_len','ciph_len'))
class M_:
    def __init__(s):
        ex=s.ex=Ex(XORS); ex.hooks['gcm_gf_mul']=h_gf; ex.forksel=True; ex.summaries=[IncBE()]; st=s.st=St(); L=s.L=lay(); I=layout('cry/ciph.h','struct cry_ciph_itf',('init','clear','key_set','encrypt','decrypt'))
        s.ctx=ex.region(st,'ctx',L[''][1],ufbytes('ctx')); s.ciph=ex.region(st,'ciph',64,ufbytes('ciph')); s.itf=ex.region(st,'itf',I[''][1],None)
        for f in I:
            if f: ex.storeptr(st,Ptr(s.itf,c64(I[f][0])),FnPtr('ciph_'+f))
        s.itf.ro=s.ciph.ro=True; ex.hooks['ciph_encrypt']=h_block('E',B)
    def P(s,f,i=0): return Ptr(s.ctx,c64(s.L[f][0]+i))
    def ready(s):
        ex=s.ex; st=s.st; ex.storeptr(st,s.P('ciph_ctx'),Ptr(s.ciph,c64(0))); ex.storeptr(st,s.P('ciph_itf'),Ptr(s.itf,c64(0)))
        for f in ('iv','ctr','hs','key'):
            v=[sym(8,f+str(i)) for i in range(B)]; setattr(s,f,v); ex.storeb(st,s.P(f),v)
        s.al=sym(64,'alen'); s.cl=sym(64,'clen'); ex.store(st,s.P('auth_len'),s.al); ex.store(st,s.P('ciph_len'),s.cl)
    def block(s,st,f,w,name):
        g=s.ex.peek(st,s.P(f),B)
        for i in range(B): s.ex.ob(name,s.ex.same(st,g[i],w[i]),'%s %d: %s, expected %s'%(f,i,str(g[i])[:300],str(w[i])[:300]))
    def num(s,st,f,w,name): g=s.ex.load(st,s.P(f),64); s.ex.ob(name,s.ex.same(st,g,w),'%s: %s, expected %s'%(f,g,w))
    def kept(s,st,*fs):
        ex=s.ex
        for f in fs:
            if f in('auth_len','ciph_len'): s.num(st,f,s.al if f[0]=='a' else s.cl,'frame: '+f)
            else: s.block(st,f,getattr(s,f),'frame: '+f)
        ex.ob('frame: cipher recorded',ex.sameptr(st,ex.loadptr(st,s.P('ciph_ctx')),Ptr(s.ciph,c64(0))) and ex.sameptr(st,ex.loadptr(st,s.P('ciph_itf')),Ptr(s.itf,c64(0))))
def t_init():
    m=M_(); ex=m.ex; log=[]
    def rec(n):
        def h(ex,st,a): st.ghost['log']=st.ghost.get('log',())+((n,)+tuple(a),); return [(st,C(32,0) if n=='key_set' else None)]
        return h
    for f in ('init','key_set'): ex.hooks['ciph_'+f]=rec(f)
    ks=zext(sym(6,'ks'),64); key=ex.region(m.st,'key',ks,ufbytes('keyarg'),ro=True); nf=0
    for s1,_ in ex.call(m.st,'cry_gcm_init',[Ptr(m.ctx,c64(0)),Ptr(m.ciph,c64(0)),Ptr(m.itf,c64(0))],top=True):
        l=s1.ghost.get('log',()); ex.ob('ensures: cipher initialised',len(l)==1 and l[0][0]=='init' and l[0][1].r is m.ciph); s1.ghost={}
        for s2,_ in ex.call(s1,'cry_gcm_key_set',[Ptr(m.ctx,c64(0)),Ptr(key,c64(0)),ks],top=True):
            nf+=1; l=s2.ghost.get('log',()); ex.ob('ensures: the key is handed to the cipher',len(l)==1 and l[0][0]=='key_set' and l[0][1].r is m.ciph and ex.sameptr(s2,l[0][2],Ptr(key,c64(0))) and ex.same(s2,l[0][3],ks))
            m.block(s2,'key',[E_('E',[C(8,0)]*B,i) for i in range(B)],'ensures: hash subkey')
            m.block(s2,'hs',[C(8,0)]*B,'ensures: hash state reset'); m.num(s2,'auth_len',c64(0),'ensures: length reset'); m.num(s2,'ciph_len',c64(0),'ensures: length reset'); m.kept(s2)
    ex.ob('reachable',nf>0)
class Chain(Inv):
    """the hash at offset off after k blocks"""
    def __init__(s,m,S,off,q): s.m=m; s.S=S; s.off=off; s.exact=q; s.name='hash of k blocks at %d'%off
    def unfold(s,ex,st,k): s.S.unfold(k)
    def applies(s,ex,f,h,env,st): return all(x is y for x,y in zip(ex.peek(st,Ptr(s.m.ctx,c64(s.off)),B),s.S.vec(c64(0))))
    def mem(s,ex,st0,st,k):
        for i,x in enumerate(s.S.vec(k)): ex.wcont(st,s.m.ctx).cells[s.off+i]=x
        return {s.m.ctx}
def chain(ex,init,key,byte): return Rec(ex,'S',B,lambda:list(init),lambda k,v:G([xor(v[j],byte(addc(mul(k,c64(B)),j))) for j in range(B)],key))
def ghash(ex,st,S,q,r,key,byte):
    """the hash of 16q+r bytes"""
    v=S.vec(c64(0)) if ex.proves(st,eq(q,c64(0))) else S.vec_raw(q)
    if r: v=G([xor(v[j],byte(addc(mul(q,c64(B)),j))) if j<r else v[j] for j in range(B)],key)
    return v
def ctr32(c,j): return c[:12]+be(add(cat(c[12:]),ext(j,31,0)),4)
def sizes(r): q=zext(sym(40,'q'),64); return q,addc(mul(q,c64(B)),r)
def t_update(r):
    m=M_(); m.ready(); ex=m.ex; q,n=sizes(r); src=ex.region(m.st,'data',n,ufbytes('data'),ro=True); byte=lambda o:uf(8,'data',o); S=chain(ex,m.hs,m.key,byte); ex.invs=[Chain(m,S,m.L['hs'][0],q),Auto()]; nf=0
    for s2,_ in ex.call(m.st,'cry_gcm_update',[Ptr(m.ctx,c64(0)),Ptr(src,c64(0)),n],top=True):
        if not ex.feasible(s2): continue
        nf+=1; m.block(s2,'hs',ghash(ex,s2,S,q,r,m.key,byte),'ensures: hash of the additional data'); m.num(s2,'auth_len',add(m.al,n),'ensures: length of the additional data'); m.kept(s2,'iv','ctr','key','ciph_len')
    ex.ob('reachable',nf>0)
def t_iv(r):
    m=M_(); m.ready(); ex=m.ex; q,n=sizes(r); src=ex.region(m.st,'data',n,ufbytes('data'),ro=True); byte=lambda o:uf(8,'data',o); S=chain(ex,[C(8,0)]*B,m.key,byte); ex.invs=[Chain(m,S,m.L['iv'][0],q),Auto()]; nf=0; z=[C(8,0)]*8
    for s2,_ in ex.call(m.st,'cry_gcm_iv_set',[Ptr(m.ctx,c64(0)),Ptr(src,c64(0)),n],top=True):
        if not ex.feasible(s2): continue
        nf+=1
        if r==12 and ex.proves(s2,eq(q,c64(0))): j0=[byte(c64(i)) for i in range(12)]+be(C(32,1),4)
        else:
            if r==12: ex.ob('case of 12 bytes separated',ex.proves(s2,not_(eq(q,c64(0)))))
            v=ghash(ex,s2,S,q,r,m.key,byte); j0=G([xor(x,y) for x,y in zip(v,z+be(shl(n,3),8))],m.key)
        m.block(s2,'iv',j0,'ensures: pre-counter block'); m.block(s2,'ctr',ctr32(j0,c64(1)),'ensures: first counter'); m.block(s2,'hs',[C(8,0)]*B,'ensures: hash reset'); m.num(s2,'auth_len',c64(0),'ensures: lengths reset'); m.num(s2,'ciph_len',c64(0),'ensures: lengths reset'); m.block(s2,'key',m.key,'frame: key'); m.kept(s2)
    ex.ob('reachable',nf>0)
class Op(Inv):
    name='k blocks, counter advanced'
    def __init__(s,m,dst,out,q): s.m=m; s.dst=dst; s.out=out; s.exact=q
    def applies(s,ex,f,h,env,st): return all(x is y for x,y in zip(ex.peek(st,s.m.P('ctr'),B),s.m.ctr))
    def mem(s,ex,st0,st,k):
        for i,x in enumerate(ctr32(s.m.ctr,k)): ex.wcont(st,s.m.ctx).cells[s.m.L['ctr'][0]+i]=x
        ex.addlam(st,s.dst,c64(0),mul(k,c64(B)),s.out); return {s.m.ctx,s.dst}
def t_crypt(fn,r,inplace):
    m=M_(); m.ready(); ex=m.ex; st=m.st; q,n=sizes(r); src=ex.region(st,'data',n,ufbytes('data'),ro=not inplace); dst=src if inplace else ex.region(st,'out',n,ufbytes('out')); src.gran=dst.gran=B
    def out(ex,st,o): b,j=udm(o,B); return xor(uf(8,'data',o),E_('E',ctr32(m.ctr,lshr(b,4)),val(j) if isc(j) else zext(j,8)))
    byte=(lambda o:out(ex,None,o)) if fn=='encrypt' else (lambda o:uf(8,'data',o))
    S=chain(ex,m.hs,m.key,byte); ex.invs=[Op(m,dst,out,q),Chain(m,S,m.L['hs'][0],q),Auto()]; nf=0
    for s2,_ in ex.call(st,'cry_gcm_'+fn,[Ptr(m.ctx,c64(0)),Ptr(dst,c64(0)),Ptr(src,c64(0)),n],top=True):
        if not ex.feasible(s2): continue
        nf+=1; ex.ensures(s2,dst,out,'ensures: data xor key stream',n); m.block(s2,'hs',ghash(ex,s2,S,q,r,m.key,byte),'ensures: hash of the ciphertext'); m.num(s2,'ciph_len',add(m.cl,n),'ensures: length of the ciphertext')
        if not r: m.block(s2,'ctr',ctr32(m.ctr,q),'ensures: counter advanced')
        m.kept(s2,'iv','key','auth_len')
    ex.ob('reachable',nf>0)
def t_digest(n):
    m=M_(); m.ready(); ex=m.ex; mac=ex.region(m.st,'mac',n,ufbytes('mac')); nf=0; w=[xor(x,E_('E',m.iv,i)) for i,x in enumerate(G([xor(x,y) for x,y in zip(m.hs,be(shl(m.al,3),8)+be(shl(m.cl,3),8))],m.key))]
    for s2,_ in ex.call(m.st,'cry_gcm_digest',[Ptr(m.ctx,c64(0)),Ptr(mac,c64(0)),c64(n)],top=True):
        nf+=1; g=ex.peek(s2,Ptr(mac,c64(0)),n)
        for i in range(n): ex.ob('ensures: tag',ex.same(s2,g[i],w[i]),'%d: %s, expected %s'%(i,str(g[i])[:300],str(w[i])[:300]))
    ex.ob('reachable',nf>0)
task('init, key_set',t_init); task('field product',t_gf,None)
for r in range(B):
    task('update, length mod 16 == %d'%r,t_update,r); task('iv_set, length mod 16 == %d'%r,t_iv,r); task('digest, %d bytes'%(r+1),t_digest,r+1)
    for fn in ('encrypt','decrypt'):
        for ip in (False,True): task('%s, length mod 16 == %d, %s'%(fn,r,'in place' if ip else 'disjoint'),t_crypt,fn,r,ip)
