"""X01: bytewise exclusive or, every arrangement of the buffers in one address space."""
from pv import *
NB=46
class B:
    """one object M of size S holding all the buffers"""
    def __init__(s,ex,names):
        s.ex=ex; s.st=St(); s.S=zext(sym(NB+2,'S'),64); s.n=zext(sym(NB,'n'),64); s.p={}
        s.r=ex.region(s.st,'mem',s.S,ufbytes('M'))
        for x in names:
            o=s.p[x]=zext(sym(NB+1,x),64); s.st.add(ule(add(o,s.n),s.S))
    def M(s,o): return uf(8,'M',o)
    def X(s,i): # wanted byte i
        r=s.M(add(s.p['src1'],i)); return xor(r,s.M(add(s.p.get('src2',s.p['dst']),i)))
    def P(s,x): return Ptr(s.r,s.p[x])
class Up(Inv):
    name='the first k bytes are done'
    def __init__(s,b): s.b=b
    def mem(s,ex,st0,st,k):
        b=s.b; a=b.p['dst']; ex.addlam(st,b.r,a,add(a,k),lambda ex,st2,o:b.X(sub(o,a))); return {b.r}
class Down(Inv):
    name='the last k bytes are done'
    def __init__(s,b): s.b=b
    def mem(s,ex,st0,st,k):
        b=s.b; a=b.p['dst']; e=add(a,b.n); ex.addlam(st,b.r,sub(e,k),e,lambda ex,st2,o:b.X(sub(o,a))); return {b.r}
def cond_lam(ex,st,r,parts):
    """one layer made of guarded ranges"""
    for lo,hi,f in parts: ex.addlam(st,r,lo,hi,f)
class Rotated(Inv):
    """k bytes done, byte i stored at (j0+i) mod n, j0 = lower source + n - dst"""
    name='the first k bytes are done, rotated'
    def __init__(s,b,low): s.b=b; s.low=low; s.name+=' '+low; s.n_=0
    free=True
    def j0(s): b=s.b; return sub(add(b.p[s.low],b.n),b.p['dst'])
    def h(s,i,k): return uf(64,'hr%d_%s'%(i,s.low),k)
    def mem(s,ex,st0,st,k):
        b=s.b; a=b.p['dst']; j0=s.j0(); h1,h2=s.h(1,k),s.h(2,k)
        ex.addlam(st,b.r,add(a,j0),add(a,h1),lambda ex,st2,o:b.X(sub(o,add(a,j0))))
        sh=sub(b.n,add(a,j0))
        ex.addlam(st,b.r,a,add(a,h2),lambda ex,st2,o:b.X(add(o,sh)))
        return {b.r}
    def defs(s,ex,st,k):
        # the ends of the two pieces
        b=s.b; n=b.n; t=add(s.j0(),k); h1,h2=s.h(1,k),s.h(2,k)
        return [or_(and_(ule(t,n),eq(h1,t),eq(h2,c64(0))),and_(ult(n,t),eq(h1,n),eq(h2,sub(t,n))))]
    def facts(s,ex,st,k):
        b=s.b; n=b.n; j0=s.j0(); t=add(j0,k); h1,h2=s.h(1,k),s.h(2,k)
        r=[ule(k,n)]
        if len(getattr(s,'frees',()))==1:
            j=s.fv(0,k); r+=[or_(and_(ult(t,n),eq(j,t)),and_(ule(n,t),eq(j,sub(t,n))))]
        return r
class Rotation(Inv):
    """bytes [0,i) are in place; what remains, [i,n), is [j,n) then [m,j) then [i,m) of the buffer"""
    name='rotation in progress'; free=True
    def __init__(s,b): s.b=b
    def mem(s,ex,st0,st,k):
        b=s.b; a=b.p['dst']; n=b.n; X=b.X
        if not getattr(s,'frees',None) or len(s.frees)!=2 or any(f[1]!=64 for f in s.frees): 
            ex.addlam(st,b.r,a,add(a,n),lambda ex,st2,o:uf(8,'rot?',k,o)); return {b.r}
        j=s.fv(0,k); m=s.fv(1,k); i=k
        ex.addlam(st,b.r,a,add(a,i),lambda ex,st2,o:X(sub(o,a)))
        ex.addlam(st,b.r,add(a,j),add(a,n),lambda ex,st2,o:X(add(i,sub(sub(o,a),j))))
        ex.addlam(st,b.r,add(a,m),add(a,j),lambda ex,st2,o:X(add(add(i,sub(n,j)),sub(sub(o,a),m))))
        ex.addlam(st,b.r,add(a,i),add(a,m),lambda ex,st2,o:X(add(sub(n,m),sub(o,a))))
        return {b.r}
    def facts(s,ex,st,k):
        if not getattr(s,'frees',None) or len(s.frees)!=2: return []
        j=s.fv(0,k); m=s.fv(1,k); n=s.b.n
        return [ule(k,m),ule(m,j),ult(j,n),or_(ult(k,m),eq(m,j))]
def check(ex,b,rs):
    nf=0; a=b.p['dst']
    for s2,v in rs:
        if not ex.feasible(s2): continue
        if s2.ghost.get('nomem'): continue # no memory for the temporary: no effect, checked below
        nf+=1; S=b.S
        ex.equal_content(s2,b.r,s2.mem[b.r],Cont((Lam(c64(0),S,lambda ex,st,o:b.M(o)),Lam(a,add(a,b.n),lambda ex,st,o:b.X(sub(o,a))))),'ensures dst == src1 ^ src2, nothing else changes',S)
        ex.noleak(s2)
    ex.ob('reachable',nf>0)
def t_memxor():
    ex=Ex(); ex.nounroll=True; ex.nomerge=True; ex.forksel=True; b=B(ex,['dst','src1']); ex.invs=[Up(b),Down(b)]
    check(ex,b,ex.call(b.st,'cry_memxor',[b.P('dst'),b.P('src1'),b.n],top=True))
def t_memxor2(swap):
    ex=Ex(); ex.nounroll=True; ex.nomerge=True; ex.forksel=True; b=B(ex,['dst','src1','src2']); lo,hi=('src2','src1') if swap else ('src1','src2')
    b.st.add(ule(b.p[lo],b.p[hi]) if not swap else ult(b.p[lo],b.p[hi]))
    ex.invs=[Up(b),Down(b),Rotated(b,lo),Rotation(b)]
    def mal(ex,st,args):
        r=b_malloc(ex,st,args); r[1][0].ghost['nomem']=True; return r
    ex.hooks['malloc']=mal
    def rec(ex,st,args):
        # the contract, applied to a destination in another object
        d,p,q,n=args; st.ghost['rec']=1
        ex.ob('requires: destination apart from the sources (the recursion ends)',d.r is not p.r and d.r is not q.r,'%s %s %s'%(d,p,q))
        from clib import xor_lam
        return xor_lam(ex,st,d,p,q,n)
    ex.hooks['cry_memxor2']=rec
    check(ex,b,ex.call(b.st,'cry_memxor2',[b.P('dst'),b.P('src1'),b.P('src2'),b.n],top=True))
task('memxor',t_memxor); task('memxor2, src1 <= src2',t_memxor2,False,timeout=600); task('memxor2, src2 < src1',t_memxor2,True,timeout=600)
