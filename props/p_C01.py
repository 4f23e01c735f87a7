"""C01: affine and Hill ciphers."""
from pv import *
from layout import layout
import terms; terms.DEEP=200 # sums of products keep their structure
INV=tuple(pow(a,-1,256) if a&1 else 0 for a in range(256))
# ------------------------------------------------------------------ inverse modulo 256
def t_inv():
    """cry_long_inv(a,256) for every odd byte a, by execution"""
    for a in range(1,256,2):
        ex=Ex(); st=St(); rs=ex.call(st,'cry_long_inv',[c64(a),c64(256)],top=True)
        ex.ob('ensures: a * inverse == 1 modulo 256',len(rs)==1 and isc(rs[0][1]) and val(rs[0][1])*a%256==1,'a=%d: %s'%(a,rs[0][1]))
def h_inv(ex,st,args):
    a,b=args; ex.ob('requires: odd byte, modulus 256',isc(b) and val(b)==256 and ex.proves(st,eq(ext(a,63,8),C(56,0))) and ex.proves(st,eq(ext(a,0,0),C(1,1))),'%s %s'%(a,b))
    return [(st,cat([fresh(56,'inv'),tab(8,INV,ext(a,7,0))]))]
# ------------------------------------------------------------------ affine
def alay(): return layout('cry/affine.h','struct cry_affine_ctx',('keya','inva','keyb','keylen'))
def t_ainit(n):
    """n: length of the key; the maximum stands for every longer one"""
    L=alay(); mx=L['keya'][1]; ex=Ex({'cry_long_inv':h_inv}); ex.nomerge=True; st=St(); ctx=ex.region(st,'ctx',L[''][1],ufbytes('ctx')); kl=c64(n)
    if n==mx: kl=add(c64(mx),zext(sym(40,'more'),64))
    ka=ex.region(st,'a',kl,ufbytes('a'),ro=True); kb=ex.region(st,'b',kl,ufbytes('b'),ro=True); nf=0; odd=TRUE
    A=[uf(8,'a',c64(i)) for i in range(n)]
    for s2,v in ex.call(st,'cry_affine_init',[Ptr(ctx,c64(0)),Ptr(ka,c64(0)),Ptr(kb,c64(0)),kl],top=True):
        if not ex.feasible(s2): continue
        nf+=1; allodd=and_(*[ext(x,0,0) for x in A])
        if ex.same(s2,v,C(32,0)):
            ex.ob('ensures: accepted only if every multiplier is odd',ex.proves(s2,allodd))
            P=lambda f,i=0:Ptr(ctx,c64(L[f][0]+i))
            for i in range(n):
                for f,w in (('keya',A[i]),('keyb',uf(8,'b',c64(i))),('inva',tab(8,INV,A[i]))):
                    g=ex.load(s2,P(f,i),8); ex.ob('ensures: %s'%f,ex.same(s2,g,w),'%d: %s'%(i,g))
            g=ex.load(s2,P('keylen'),64); ex.ob('ensures: keylen',ex.same(s2,g,c64(n)),str(g))
        else:
            ex.ob('ensures: rejected only with an error',ex.proves(s2,slt(v,C(32,0))),str(v)); ex.ob('ensures: rejected only if a multiplier is even',ex.proves(s2,not_(allodd)))
    ex.ob('reachable',nf>=2)
class Cyc(Inv):
    """k bytes done, the key index is k modulo the key length"""
    name='k bytes'
    def __init__(s,dst,f,n): s.dst=dst; s.f=f; s.n=n
    def phis(s,ex,st,k): i=c64(0) if isc(k) and val(k)==0 else uf(64,'urem',k,s.n); return [i,ext(i,31,0)]
    def defs(s,ex,st,k): # k modulo n: from k to k+1
        if isc(k): return [eq(uf(64,'urem',c64(0),s.n),c64(0))]
        k1=addc(k,1); r=uf(64,'urem',k,s.n); r1=addc(r,1); return [ult(r,s.n),eq(uf(64,'urem',k1,s.n),ite(eq(r1,s.n),c64(0),r1))]
    def mem(s,ex,st0,st,k): ex.addlam(st,s.dst,c64(0),k,s.f); return {s.dst}
def t_acrypt(fn,inplace):
    L=alay(); mx=L['keya'][1]; ex=Ex(); ex.uremuf=True; st=St(); ctx=ex.region(st,'ctx',L[''][1],ufbytes('ctx'),ro=True); n=zext(sym(6,'n'),64); st.add(ule(c64(1),n)); st.add(ule(n,c64(mx)))
    ex.storeb.__func__; ctx.ro=False; ex.store(st,Ptr(ctx,c64(L['keylen'][0])),n); ctx.ro=True
    N=zext(sym(44,'N'),64); src=ex.region(st,'data',N,ufbytes('data'),ro=not inplace); dst=src if inplace else ex.region(st,'out',N,ufbytes('out'))
    key=lambda f,o:uf(8,'ctx',addc(uf(64,'urem',o,n),L[f][0]))
    enc=lambda ex,st,o:add(mul(uf(8,'data',o),key('keya',o)),key('keyb',o))
    dec=lambda ex,st,o:mul(sub(uf(8,'data',o),key('keyb',o)),key('inva',o))
    f=enc if fn=='encrypt' else dec; ex.invs=[Cyc(dst,f,n),Auto()]; nf=0
    for s2,_ in ex.call(st,'cry_affine_'+fn,[Ptr(ctx,c64(0)),Ptr(dst,c64(0)),Ptr(src,c64(0)),N],top=True):
        if not ex.feasible(s2): continue
        nf+=1; ex.ensures(s2,dst,f,'ensures: every byte',N)
    ex.ob('reachable',nf>0)
def t_alemma():
    """decryption of an encrypted byte: for all a odd, b, x"""
    ex=Ex(); x,a,b=(sym(8,n) for n in 'xab'); ok=all((((X*A+B)-B)*INV[A])%256==X for A in range(1,256,2) for B in (0,) for X in range(256)); ex.ob('lemma: (x*a+b-b)*inv(a) == x for every odd a',ok)
    e=sub(add(mul(x,a),b),b); ex.ob('lemma: b cancels',e is mul(x,a),str(e))
# ------------------------------------------------------------------ Hill
def hlay(): return layout('cry/hill.h','struct cry_hill_ctx',('key','ikey','n'))
def DIM(): return int(round(hlay()['key'][1]**.5))
def DET(m,n):
    """determinant of the n by n matrix m (list of rows flattened): a function symbol for n > 2"""
    if n==0: return C(8,1)
    if n==1: return m[0]
    if n==2: return sub(mul(m[0],m[3]),mul(m[1],m[2]))
    return uf(8,'DET%d'%n,*m)
def minor(m,i,j,n): return [m[r*n+c] for r in range(n) if r!=i for c in range(n) if c!=j]
def laplace(m,n):
    t=[(1 if i%2==0 else -1,mul(m[i],DET(minor(m,0,i,n),n-1))) for i in range(n)]; return add_l(8,t)
def h_det(skip):
    """contract of mtx_det: the determinant modulo 256"""
    def h(ex,st,args):
        n=args[1]
        if not isc(n): raise Unsupported('determinant of symbolic dimension')
        if skip==val(n): # the function under proof, first call: inlined
            ex.hooks.pop('mtx_det'); sv=ex.hooks; 
            try:
                ex.hooks=dict(sv); ex.hooks['mtx_det']=h_det(None); return ex.call(st,'mtx_det',args,mod=hmod())
            finally: ex.hooks=sv; ex.hooks['mtx_det']=h
        m=ex.load_bytes(st,args[0],val(n)*val(n)) if val(n) else []
        return [(st,DET(m,val(n)))]
    return h
def hmod(): return ir.module('src/crypt/hill.c')
SREM=lambda c:any(x.op=='srem' for x in fvs_set(c))
def t_det(n):
    ex=Ex({'mtx_det':h_det(None)}); ex.undecided=SREM; st=St(); m=ex.region(st,'m',n*n,ufbytes('m'),ro=True); M_=[uf(8,'m',c64(i)) for i in range(n*n)]
    w=laplace(M_,n) if n>2 else DET(M_,n); nf=0
    for s2,v in ex.call(st,'mtx_det',[Ptr(m,c64(0)),c64(n)],mod=hmod(),top=True):
        nf+=1; v=ext(v,7,0); ex.ob('ensures: expansion of the determinant along the first row',ex.same(s2,v,w),'%s, expected %s'%(v,w))
    ex.ob('reachable',nf>0)
def adj(m,n,idet):
    """inverse matrix by the adjugate"""
    t=[m[j*n+i] for i in range(n) for j in range(n)]; r=[]
    for i in range(n):
        for j in range(n):
            x=mul(DET(minor(t,i,j,n),n-1),idet); r.append(neg(x) if (i+j)&1 else x)
    return r
def t_invert(n):
    ex=Ex({'mtx_det':h_det(None)}); ex.undecided=SREM; st=St(); m=ex.region(st,'m',n*n,ufbytes('m'),ro=True); o=ex.region(st,'o',n*n,ufbytes('o')); d=sym(8,'idet'); w=adj([uf(8,'m',c64(i)) for i in range(n*n)],n,d); nf=0
    for s2,_ in ex.call(st,'mtx_invert',[Ptr(o,c64(0)),Ptr(m,c64(0)),c64(n),d],mod=hmod(),top=True):
        nf+=1; g=ex.peek(s2,Ptr(o,c64(0)),n*n)
        for i in range(n*n): ex.ob('ensures: adjugate times the inverse of the determinant',ex.same(s2,g[i],w[i]),'%d: %s, expected %s'%(i,g[i],w[i]))
    ex.ob('reachable',nf>0)
def h_invert(ex,st,args):
    o,m,n,d=args; n=val(n); x=ex.load_bytes(st,m,n*n); st.ghost['invert']=d; ex.storeb(st,o,[uf(8,'ADJ',c64(i),d,*x) for i in range(n*n)]); return [(st,None)]
def t_hinit(n,mode):
    """mode: 'key' (inverse computed), 'both', 'random', 'ikey'"""
    L=hlay(); mx=DIM(); ex=Ex({'mtx_det':h_det(None),'mtx_invert':h_invert,'cry_long_inv':h_inv}); ex.nomerge=True; st=St(); ctx=ex.region(st,'ctx',L[''][1],ufbytes('ctx'))
    kl=zext(sym(40,'kl'),64); st.add(ule(c64(n*n),kl))
    if n<mx: st.add(ult(kl,c64((n+1)*(n+1))))
    key=ex.region(st,'key',kl,ufbytes('key'),ro=True); ik=ex.region(st,'ikey',kl,ufbytes('ikey'),ro=True); cnt=[0]
    def h_rand(ex,st,args):
        k=st.ghost.get('rand',0); st.ghost['rand']=k+1; p,m=args
        if not isc(m) and ex.proves(st,eq(m,c64(n*n))): m=c64(n*n)
        if not isc(m): raise Unsupported('random key of symbolic size')
        ex.storeb(st,p,[uf(8,'rnd%d'%k,c64(i)) for i in range(val(m))]); return [(st,None)]
    ex.hooks['cry_prng_aes_rand']=h_rand
    a=[NULL if mode in('random','ikey') else Ptr(key,c64(0)),Ptr(ik,c64(0)) if mode in('both','ikey') else NULL]; nf=0; rej=0
    for s2,v in ex.call(st,'cry_hill_init',[Ptr(ctx,c64(0)),a[0],a[1],kl],top=True):
        if mode!='random' and not ex.feasible(s2): continue
        nf+=1; P=lambda f,i=0:Ptr(ctx,c64(L[f][0]+i)); ok=ex.same(s2,v,C(32,0)); K=ex.peek(s2,P('key'),n*n); IK=ex.peek(s2,P('ikey'),n*n); det=DET(K,n)
        if not ok: ex.ob('ensures: an error is -1',ex.same(s2,v,C(32,M(32)))); rej+=1
        if mode=='ikey': ex.ob('ensures: an inverse without a key is rejected',not ok); continue
        g=ex.load(s2,P('n'),64); ex.ob('ensures: dimension',ex.same(s2,g,c64(n)),str(g))
        if mode!='random':
            for i in range(n*n): ex.ob('ensures: key stored',ex.same(s2,K[i],uf(8,'key',c64(i))))
        if mode=='both':
            ex.ob('ensures: accepted',ok)
            for i in range(n*n): ex.ob('ensures: inverse stored',ex.same(s2,IK[i],uf(8,'ikey',c64(i))))
            continue
        if ok:
            ex.ob('ensures: accepted only if the determinant is odd',ex.proves(s2,ext(det,0,0)),str(s2.pc)); d=tab(8,INV,det)
            for i in range(n*n): ex.ob('ensures: inverse matrix stored',ex.same(s2,IK[i],uf(8,'ADJ',c64(i),d,*K)),str(IK[i])[:300])
        elif mode=='key': ex.ob('ensures: rejected only if the determinant is even',ex.proves(s2,not_(ext(det,0,0))))
    ex.ob('reachable',nf>0 and (mode=='both' or rej>0))
class Grp(Inv):
    name='k groups'
    def __init__(s,dst,src,q,f,n): s.dst=dst; s.f=f; s.n=n; s.src=src; s.q=q
    def phis(s,ex,st,k): o=mul(k,c64(s.n)); return [o,sub(mul(s.q,c64(s.n)),o),Ptr(s.dst,o),Ptr(s.src,o)]
    def facts(s,ex,st,k): return [ule(k,s.q)]
    def mem(s,ex,st0,st,k): ex.addlam(st,s.dst,c64(0),mul(k,c64(s.n)),s.f); return {s.dst}
def grp(o,n):
    """offset = group * n + index"""
    if n&(n-1)==0 and n>1:
        j=ext(o,n.bit_length()-2,0)
        if isc(j): return addc(o,-val(j)),val(j)
    c=o.a[0] if o.op=='add' else val(o) if isc(o) else 0
    c=c-(1<<64) if c>>63 else c
    if not isc(o) and any((cf-(1<<64) if cf>>63 else cf)%n for cf,x in (o.a[1] if o.op=='add' else [(1,o)])): raise Unsupported('group of offset %s'%o)
    j=c%n; return addc(o,-j),j
def t_hcrypt(fn,n,inplace):
    L=hlay(); ex=Ex(); ex.undecided=SREM; st=St(); ctx=ex.region(st,'ctx',L[''][1],ufbytes('ctx')); ex.store(st,Ptr(ctx,c64(L['n'][0])),c64(n)); ctx.ro=True
    q=zext(sym(44,'q'),64); N=mul(q,c64(n)); src=ex.region(st,'data',N,ufbytes('data'),ro=not inplace); dst=src if inplace else ex.region(st,'out',N,ufbytes('out')); src.gran=dst.gran=n; ko=L['key' if fn=='encrypt' else 'ikey'][0]
    def f(ex,st,o):
        
        try: g,j=grp(o,n)
        except Unsupported:
            if ex.lenient: return uf(8,'anything',o)
            raise
        return add_l(8,[(1,mul(uf(8,'ctx',c64(ko+j*n+i)),uf(8,'data',addc(g,i)))) for i in range(n)])
    ex.nounroll=n>9999; ex.invs=[Grp(dst,src,q,f,n),Auto()]; nf=0
    for s2,_ in ex.call(st,'cry_hill_'+fn,[Ptr(ctx,c64(0)),Ptr(dst,c64(0)),Ptr(src,c64(0)),N],top=True):
        if not ex.feasible(s2): continue
        nf+=1; ex.ensures(s2,dst,f,'ensures: every group is multiplied by the matrix',N)
    ex.ob('reachable',nf>0)
def t_cramer():
    """adj(M) * M == det(M) * I, expanded, for dimensions up to 4 (every dimension: Cramer's rule, assumed)"""
    from sympy import Matrix,symbols,expand,eye
    ex=Ex()
    for n in range(1,5):
        m=Matrix(n,n,symbols('m0:%d'%(n*n))); A=Matrix(n,n,lambda i,j:(-1)**(i+j)*(m.T.minor(i,j) if n>1 else 1)); D=(A*m-m.det(method='berkowitz')*eye(n)).applyfunc(expand)
        ex.ob('lemma: adj(M) * M == det(M) * I, n = %d'%n,D==Matrix.zeros(n,n))
task('long_inv',t_inv); task('affine byte lemma',t_alemma); task('Cramer lemma',t_cramer)
for n in range(1,alay()['keya'][1]+1): task('affine_init, %d bytes'%n,t_ainit,n)
for fn in ('encrypt','decrypt'):
    for ip in (False,True):
        task('affine_%s, %s'%(fn,'in place' if ip else 'disjoint'),t_acrypt,fn,ip)
        for n in range(1,DIM()+1): task('hill_%s n=%d, %s'%(fn,n,'in place' if ip else 'disjoint'),t_hcrypt,fn,n,ip)
for n in range(0,DIM()+1): task('mtx_det, n=%d'%n,t_det,n)
for n in range(1,DIM()+1):
    task('mtx_invert, n=%d'%n,t_invert,n)
    for m in ('key','both','random','ikey'): task('hill_init n=%d, %s'%(n,m),t_hinit,n,m)
