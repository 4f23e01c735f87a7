"""M04: shifts and the number of bits."""
from dig import *
DS=(0,None)       # the bit part of the amount: 0 or any of 1..63
K0=lambda t:eq(t,c64(0))
# ---------------------------------------------------------------- whole digits
class Up(DInv):
    name='digits below i are done'
class Down(DInv):
    name='the digits from i on are done'
    def __init__(s,w,word,res,top): DInv.__init__(s,w,word,res); s.top=top
    def mem(s,ex,st0,st,k):
        if s.i0 is None: return {s.rd}
        i=sub(s.i0,k) if s.i0.w==64 else zext(sub(s.i0,ext(k,s.i0.w-1,0)),64); ex.addlam(st,s.rd,x8(addc(i,1)),x8(s.top),wbytes(s.word)); return {s.rd}
def t_shld(zero):
    w=DW(); ex=w.ex; A=w.num('a'); n=zext(sym(44,'n'),64); u=A['used']; w.st.add(eq(u,c64(0)) if zero else not_(eq(u,c64(0)))); S=lambda ex,st,i:ite(ult(i,n),c64(0),A['D'](sub(i,n))); ex.invs=[Down(w,S,A,add(u,n)),Mid(w,S,A),Up(w,S,A)]
    for s2,res in outcomes(w,'cry_mpi_shld',[A['p'],n],A,fail=lambda s2,res:w.same(s2,A)):
        ex.ob('ensures: success',ex.proves(s2,is0(res))); m=w.get(s2,A,'used'); ex.ob('ensures: sign',ex.proves(s2,eq(w.get(s2,A,'sign'),A['sign'])))
        if zero: ex.ob('ensures: zero stays zero',ex.proves(s2,eq(m,c64(0)))); continue
        ex.ob('ensures: number of digits',ex.proves(s2,eq(m,add(u,n))),str(m)); w.digits(s2,A,S,m,'ensures: digits moved up')
class Mid(Up):
    """zeros from the bottom, moved digits above"""
    name='zeros below i'
def t_shrd():
    w=DW(); ex=w.ex; A=w.num('a'); n=zext(sym(44,'n'),64); u=A['used']; S=lambda ex,st,i:A['D'](add(i,n)); Z=lambda ex,st,i:ite(ult(i,sub(u,n)),A['D'](add(i,n)),c64(0)); ex.invs=[Up(w,Z,A)]
    for s2,res in outcomes(w,'cry_mpi_shrd',[A['p'],n],A):
        ex.ob('ensures: success',ex.proves(s2,is0(res))); m=w.get(s2,A,'used'); t=s2.fork(); t.add(ult(n,u)); z=s2.fork(); z.add(ule(u,n))
        if ex.feasible(z): ex.ob('ensures: everything is shifted out',ex.proves(z,and_(eq(w.get(z,A,'used'),c64(0)),eq(w.get(z,A,'sign'),C(32,0)))))
        if ex.feasible(t): ex.ob('ensures: number of digits',ex.proves(t,eq(m,sub(u,n))),str(m)); w.digits(t,A,S,m,'ensures: digits moved down'); ex.ob('ensures: sign',ex.proves(t,eq(w.get(t,A,'sign'),A['sign'])))
task('shld',t_shld,False); task('shld of zero',t_shld,True); task('shrd',t_shrd)
# ---------------------------------------------------------------- bits
# The digit shifts are used through their contracts: the digits afterwards are T(0), T(1), ..., which the tasks
# above show to be those of the number shifted by whole digits (without a leading zero where there was none).
def T(i): return uf(64,'T',i)
def h_shld(ex,st,args):
    p,m=args; L=LAY(); F=lambda f:Ptr(p.r,addc(p.o,L[f][0])); u=ex.load(st,F('used'),64); al=ex.load(st,F('alloc'),64); d=ex.loadptr(st,F('data'))
    ex.ob('requires: not zero, room for the digits',ex.proves(st,and_(not_(eq(u,c64(0))),ule(add(u,m),al))),'%s %s'%(u,al)); r=d.r
    ex.addlam(st,r,c64(0),x8(add(u,m)),wbytes(lambda ex,st,i:T(i))); st.add(not_(eq(T(addc(add(u,m),-1)),c64(0)))); ex.store(st,F('used'),add(u,m)); st.ghost['moved']=m; return [(st,C(32,0))]
def h_shrd(ex,st,args):
    p,m=args; L=LAY(); F=lambda f:Ptr(p.r,addc(p.o,L[f][0])); u=ex.load(st,F('used'),64); d=ex.loadptr(st,F('data')); z=st.fork(); z.add(ule(u,m)); st.add(ult(m,u)); out=[]; z.ghost['moved']=st.ghost['moved']=m
    if ex.feasible(z): ex.store(z,F('used'),c64(0)); ex.store(z,F('sign'),C(32,0)); ex.addlam(z,d.r,c64(0),x8(u),lambda ex,st2,o:uf(8,'gone',o)); out.append((z,C(32,0)))
    if ex.feasible(st): r=d.r; ex.addlam(st,r,c64(0),x8(sub(u,m)),wbytes(lambda ex,st,i:T(i))); st.add(not_(eq(T(addc(sub(u,m),-1)),c64(0)))); ex.store(st,F('used'),sub(u,m)); out.append((st,C(32,0)))
    return out
SL=lambda x,n:shift('shl',x,n)
SR=lambda x,n:shift('lshr',x,n)
def Sd(ex,st,i): return uf(64,'S',i)   # S(i): digit i of the shifted number (defined where it is needed)
class Bits(DInv):
    """digits below i are done, the carry is what leaves the digit before"""
    name='bits carried up'
    def defs(s,ex,st,k):
        if s.i0 is None: return []
        i=s.idx(k); return [eq(Sd(ex,st,i),s.real(ex,st,i))]
    def facts(s,ex,st,k):
        if s.i0 is None: return []
        i=s.idx(k); return [eq(s.fv(j,k),s.car(ex,st,i)) for j,(nm,w,r) in enumerate(getattr(s,'frees',())) if r is None and w==64]
class BitsDown(Down):
    name='bits carried down'
    def at(s,k): return sub(s.i0,k) if s.i0.w==64 else zext(sub(s.i0,ext(k,s.i0.w-1,0)),64)
    def defs(s,ex,st,k):
        if s.i0 is None: return []
        i=s.at(k); return [eq(Sd(ex,st,i),s.real(ex,st,i))]
    def facts(s,ex,st,k):
        if s.i0 is None: return []
        i=sub(s.i0,k) if s.i0.w==64 else zext(sub(s.i0,ext(k,s.i0.w-1,0)),64); return [eq(s.fv(j,k),s.car(ex,st,i)) for j,(nm,w,r) in enumerate(getattr(s,'frees',())) if r is None and w==64]
def amount(w,d,whole):
    m=zext(sym(44,'m'),64) if whole else c64(0)
    if whole: w.st.add(not_(eq(m,c64(0))))
    b=C(6,0) if d==0 else sym(6,'d')
    if d is None: w.st.add(not_(eq(b,C(6,0))))
    d=zext(b,64); return m,d,zext(cat([sym(44,'m'),b]),64) if whole else d
def moved(w,s2,m,whole):
    g=s2.ghost.get('moved'); w.ex.ob('ensures: whole digits moved',(g is not None and w.ex.proves(s2,eq(g,m))) if whole else g is None,str(g))
def t_shl(same,d,whole):
    w=DW(); ex=w.ex; A=w.num('a',const=not same); R=A if same else w.num('r'); m,dd,n=amount(w,d,whole); u=A['used']; D=T if whole else A['D']; z=eq(u,c64(0))
    car=lambda ex,st,i:ite(K0(i),c64(0),SR(D(addc(i,-1)),sub(c64(64),dd))) if d!=0 else c64(0)
    S=lambda ex,st,i:or_(SL(D(i),dd),car(ex,st,i)) if d!=0 else D(i)
    ex.hooks.update({'cry_mpi_copy':h_copy,'cry_mpi_shld':h_shld}); N=add(u,m); b=Bits(w,Sd if d!=0 else S,R); b.car=car; b.real=S; ex.invs=[b]
    for s2,res in outcomes(w,'cry_mpi_shl',[R['p'],A['p'],n],R):
        ex.ob('ensures: success',ex.proves(s2,is0(res))); ex.ob('ensures: sign',ex.proves(s2,eq(w.get(s2,R,'sign'),A['sign']))); v=w.get(s2,R,'used'); t=s2.fork(); t.add(z)
        if ex.feasible(t): ex.ob('ensures: zero stays zero',ex.proves(t,eq(v,c64(0))))
        s2.add(not_(z))
        if not ex.feasible(s2): continue
        if whole: moved(w,s2,m,whole)
        top=car(ex,s2,N); z0=eq(top,c64(0))
        for c in(z0,not_(z0)):
            if isc(c) and val(c)==0: continue
            t=s2.fork(); t.add(c)
            if not ex.feasible(t): continue
            e=N if c is z0 else addc(N,1); ex.ob('ensures: number of digits',ex.proves(t,eq(v,e)),'%s'%v); w.digits(t,R,Sd if d!=0 else S,N,'ensures: digits of the shifted number')
            if c is not z0: p=w.data(t,R); ex.ob('ensures: top digit',ex.proves(t,eq(ex.load(t,Ptr(p.r,x8(N)),64),top)))
            else: ex.ob('ensures: no leading zero digit',ex.proves(t,not_(eq(S(ex,t,addc(N,-1)),c64(0)))))
def t_shr(same,d,whole):
    w=DW(); ex=w.ex; A=w.num('a',const=not same); R=A if same else w.num('r'); m,dd,n=amount(w,d,whole); u=A['used']; N=sub(u,m); D=T if whole else A['D']
    dig=lambda i:ite(ult(i,N),D(i),c64(0))
    S=lambda ex,st,i:or_(SR(D(i),dd),ite(eq(addc(i,1),N),c64(0),SL(D(addc(i,1)),sub(c64(64),dd)))) if d!=0 else D(i)
    ex.hooks.update({'cry_mpi_copy':h_copy,'cry_mpi_shrd':h_shrd}); P=Sd if d!=0 else S; b=BitsDown(w,P,R,N); b.real=S; b.car=lambda ex,st,i:ite(eq(addc(i,1),N),c64(0),and_(D(addc(i,1)),addc(SL(c64(1),dd),-1))); ex.invs=[b,Adjust(w,R,P)]
    for s2,res in outcomes(w,'cry_mpi_shr',[R['p'],A['p'],n],R):
        ex.ob('ensures: success',ex.proves(s2,is0(res))); v=w.get(s2,R,'used'); sg=w.get(s2,R,'sign')
        ex.ob('ensures: sign',ex.proves(s2,eq(sg,ite(K0(v),C(32,0),A['sign']))))
        z=s2.fork(); z.add(ule(u,m))
        if ex.feasible(z): ex.ob('ensures: everything is shifted out',ex.proves(z,eq(v,c64(0))))
        s2.add(ult(m,u))
        if not ex.feasible(s2): continue
        if whole: moved(w,s2,m,whole)
        normalized(w,s2,R,P,N,'digits of the shifted number')
for same in(False,True):
    for whole in(False,True):
        for d in DS:
            if d!=0 or whole: task('shl %s%s%s'%('in place' if same else '',' digits' if whole else '',' bits' if d is None else ''),t_shl,same,d,whole); task('shr %s%s%s'%('in place' if same else '',' digits' if whole else '',' bits' if d is None else ''),t_shr,same,d,whole)
# ---------------------------------------------------------------- number of bits
def t_count(zero):
    w=DW(); ex=w.ex; A=w.num('a',const=True); u=A['used']; w.st.add(eq(u,c64(0)) if zero else not_(eq(u,c64(0)))); d=A['D'](addc(u,-1))
    for s2,res in outcomes(w,'cry_mpi_count_bits',[A['p']],None):
        if zero: ex.ob('ensures: zero has no bits',ex.proves(s2,eq(res,c64(0)))); continue
        L=sub(res,mul(addc(u,-1),c64(64))); l=addc(L,-1); ex.ob('ensures: bits of the top digit',ex.proves(s2,ult(l,c64(64))),str(L)); ex.ob('ensures: the top bit',ex.proves(s2,eq(SR(d,l),c64(1))),str(L))
task('count_bits',t_count,False); task('count_bits of zero',t_count,True)
# ---------------------------------------------------------------- what the digits mean
def t_lemmas():
    ex=Ex(); st=St(); D,E,c=(sym(64,n) for n in('D','E','c')); d=zext(sym(6,'d'),64); st.add(not_(eq(d,c64(0)))); e=sub(c64(64),d); X=lambda t:zext(t,192); W=lambda t:SL(X(t),C(192,64)); P=lambda t:SL(X(t),X(d))
    st.add(ult(c,SL(c64(1),d)))
    ex.ob('lemma: one digit moves up',ex.proves(st,eq(add(P(D),X(c)),add(X(or_(SL(D,d),c)),W(SR(D,e))))) and ex.proves(st,ult(SR(D,e),SL(c64(1),d))))
    lowd=lambda t:and_(t,addc(SL(c64(1),d),-1))
    ex.ob('lemma: one digit moves down',ex.proves(st,eq(add(P(or_(SR(D,d),SL(E,e))),X(lowd(D))),add(X(D),W(lowd(E))))))
    B=1<<64; Pw,VS,VD,s,a,c0,c1,Q,R,K=z3.Ints('P VS VD s a c0 c1 Q R K')
    def lemma(name,hyp,goal):
        sv=z3.Solver(); sv.set('timeout',60000); [sv.add(h) for h in hyp]; sv.add(z3.Not(goal)); ex.ob('lemma: '+name,sv.check()==z3.unsat)
    # K = 2^d; VS, VD: integers made of the digits below i (P = 2^64^i); c0, c1: what is carried over digit i
    lemma('digits moved up make the product',[VS+c0*Pw==K*VD,s+B*c1==K*a+c0],(VS+s*Pw)+c1*(B*Pw)==K*(VD+a*Pw))
    lemma('digits moved down make the quotient: step',[K*VS+R==VD+Pw*c0,K*s+c0==a+B*c1],K*(VS+s*Pw)+R==(VD+a*Pw)+(B*Pw)*c1)
    lemma('digits moved down make the quotient: end',[K>=1,K*VS+R==VD,R>=0,R<K],z3.And(K*VS<=VD,VD<K*(VS+1)))
task('lemmas',t_lemmas)
