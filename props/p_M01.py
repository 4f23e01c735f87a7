"""M01: addition, subtraction, comparison, copy on digits; sign dispatch on values."""
from dig import *
def carry(i): return uf(1,'carry',i)
def z65(t): return zext(t,65)
class AddInv(DInv):
    """digits below i are those of the sum, the carry is the one into digit i"""
    name='digits of the sum'
    def defs(s,ex,st,k):
        if s.i0 is None: return []
        i=s.idx(k); return s.w.defs(i)+[eq(carry(c64(0)),C(1,0))]
    def facts(s,ex,st,k):
        if s.i0 is None: return []
        c=carry(s.idx(k)); fr=[j for j,(nm,w,r) in enumerate(getattr(s,'frees',())) if r is None]
        return [eq(s.fv(j,k),zext(c,s.frees[j][1])) for j in fr] if fr else [eq(c,C(1,0))]
def sumdefs(w,A,B):
    def d(i):
        x=add(add(z65(w.digit(A,i)),z65(w.digit(B,i))),z65(carry(i))); return [eq(carry(addc(i,1)),ext(x,64,64))]
    return d
def t_add_abs(al):
    """al: which of r, a, b coincide"""
    w=DW(); ex=w.ex; A=w.num('a',const='ra' not in al); B=A if 'ab' in al else w.num('b',const='rb' not in al); R=A if 'ra' in al else B if 'rb' in al else w.num('r'); nf=0
    w.defs=sumdefs(w,A,B); S=lambda ex,st,i:add(add(w.digit(A,i),w.digit(B,i)),zext(carry(i),64))
    ex.invs=[AddInv(w,S,R)]
    mx=ite(ult(A['used'],B['used']),B['used'],A['used'])
    for s2,res in outcomes(w,'cry_mpi_add_abs',[R['p'],A['p'],B['p']],R,fail=lambda s2,res:w.same(s2,R)):
        ex.ob('ensures: success',ex.proves(s2,is0(res)))
        for c in w.defs(mx)+w.defs(addc(mx,-1)): s2.add(c)
        s2.add(eq(carry(c64(0)),C(1,0)))
        u=w.get(s2,R,'used'); ex.ob('ensures: number of digits',ex.proves(s2,eq(u,add(mx,zext(carry(mx),64)))),'%s'%u)
        w.digits(s2,R,S,u,'ensures: digits of the sum'); ex.ob('ensures: sign',ex.proves(s2,eq(w.get(s2,R,'sign'),C(32,0))))
        ex.ob('ensures: no leading zero digit',ex.proves(s2,or_(eq(u,c64(0)),not_(eq(S(ex,s2,addc(u,-1)),c64(0))))))
for al in ((),('ra',),('rb',),('ab',),('ra','ab')): task('add_abs %s'%' '.join(al),t_add_abs,al)
# ---------------------------------------------------------------- subtraction of magnitudes
class SubInv(AddInv):
    name='digits of the difference'
def t_sub_abs(al):
    w=DW(); ex=w.ex; A=w.num('a',const='ra' not in al); B=A if 'ab' in al else w.num('b',const='rb' not in al); R=A if 'ra' in al else B if 'rb' in al else w.num('r')
    def defs(i):
        x=sub(sub(z65(w.digit(A,i)),z65(w.digit(B,i))),z65(carry(i))); return [eq(carry(addc(i,1)),ext(x,64,64))]
    w.defs=defs; S=lambda ex,st,i:sub(sub(w.digit(A,i),w.digit(B,i)),zext(carry(i),64)); less=sym(1,'a<b'); mx=A['used']
    def h_cmp(ex,st,args):
        ex.ob('requires: the operands are compared',ex.sameptr(st,args[0],A['p']) and ex.sameptr(st,args[1],B['p'])); r=fresh(32,'cmp'); t=st.fork(); t.add(less); t.ghost['less']=True; st.add(not_(less)); st.add(ule(B['used'],A['used'])); st.add(eq(carry(mx),C(1,0))) # a >= b: no borrow leaves the last digit
        st.add(ule(r,C(32,1))); return [(st,r),(t,C(32,M(32)))]
    ex.hooks['cry_mpi_cmp_abs']=h_cmp; ex.invs=[Adjust(w,R,S),SubInv(w,S,R)]
    for s2,res in outcomes(w,'cry_mpi_sub_abs',[R['p'],A['p'],B['p']],R,fail=lambda s2,res:w.same(s2,R)):
        if s2.ghost.get('less'): ex.ob('ensures: a < b is an error',ex.proves(s2,not_(is0(res)))); w.same(s2,R); continue
        ex.ob('ensures: success',ex.proves(s2,is0(res)),str(res)); ex.ob('ensures: sign',ex.proves(s2,eq(w.get(s2,R,'sign'),C(32,0)))); normalized(w,s2,R,S,mx,'digits of the difference')
for al in ((),('ra',),('rb',),('ab',),('ra','ab')): task('sub_abs %s'%' '.join(al),t_sub_abs,al)
# ---------------------------------------------------------------- comparison of magnitudes
def cmpl(i): return uf(32,'cmplow',i)      # comparison of the digits below i: -1, 0, 1
class CmpInv(Inv):
    """the digits seen are equal: the rest decides"""
    name='digits seen are equal'
    def __init__(s,w,A,B): s.w=w; s.A=A; s.B=B
    def tune(s,ex,steps,init): pass
    def defs(s,ex,st,k):
        n=sub(s.A['used'],k); i=addc(n,-1); a,b=s.A['D'](i),s.B['D'](i); return [or_(eq(n,c64(0)),eq(cmpl(n),ite(ult(a,b),C(32,M(32)),ite(ult(b,a),C(32,1),cmpl(i))))),or_(not_(eq(n,c64(0))),eq(cmpl(n),C(32,0)))]
    def facts(s,ex,st,k): return [ule(k,s.A['used']),eq(cmpl(sub(s.A['used'],k)),cmpl(s.A['used']))]
def t_cmp_abs(same):
    w=DW(); ex=w.ex; A=w.num('a',const=True); B=A if same else w.num('b',const=True); ex.invs=[CmpInv(w,A,B)]
    for s2,res in outcomes(w,'cry_mpi_cmp_abs',[A['p'],B['p']],None):
        if same: s2.add(eq(cmpl(A['used']),C(32,0)))
        ua,ub_=A['used'],B['used']; sp=ite(ult(ua,ub_),C(32,M(32)),ite(ult(ub_,ua),C(32,1),cmpl(ua))); ex.ob('ensures: longer, or decided by the first digit that differs',ex.proves(s2,eq(res,sp)),'%s %s'%(res,s2.pc[-3:]))
task('cmp_abs',t_cmp_abs,False); task('cmp_abs, same object',t_cmp_abs,True)
# ---------------------------------------------------------------- copy
class CopyInv(DInv):
    name='digits copied'
def t_copy(same):
    w=DW(); ex=w.ex; A=w.num('a',const=not same); R=A if same else w.num('r'); S=lambda ex,st,i:A['D'](i); ex.invs=[CopyInv(w,S,R),Auto()]
    for s2,res in outcomes(w,'cry_mpi_copy',[R['p'],A['p']],R,fail=lambda s2,res:w.same(s2,R)):
        ex.ob('ensures: success',ex.proves(s2,is0(res))); ex.ob('ensures: sign',ex.proves(s2,eq(w.get(s2,R,'sign'),A['sign']))); u=w.get(s2,R,'used'); ex.ob('ensures: number of digits',ex.proves(s2,eq(u,A['used']))); w.digits(s2,R,S,A['used'],'ensures: digits')
task('copy',t_copy,False); task('copy to itself',t_copy,True)
# ---------------------------------------------------------------- what the digit sequences mean
def t_lemmas():
    """induction steps over the digits: P = 2^64^i, VA, VB, VR the integers made of the digits below i"""
    ex=Ex(); B=1<<64; P,VA,VB,VR,a,b,r,c,d=z3.Ints('P VA VB VR a b r c d')
    def lemma(name,hyp,goal):
        s=z3.Solver(); s.set('timeout',60000); [s.add(h) for h in hyp]; s.add(z3.Not(goal)); ex.ob('lemma: '+name,s.check()==z3.unsat)
    lemma('a sum digit by digit',[VR+c*P==VA+VB,r+B*d==a+b+c],(VR+r*P)+d*(B*P)==(VA+a*P)+(VB+b*P))
    lemma('a difference digit by digit',[VR-c*P==VA-VB,r-B*d==a-b-c],(VR+r*P)-d*(B*P)==(VA+a*P)-(VB+b*P))
    dig=[P>=1,VA>=0,VB>=0,VA<P,VB<P,a>=0,b>=0,a<B,b<B]
    lemma('the borrow tells the order',dig+[VR>=0,VR<P,z3.Or(c==0,c==1),VR-c*P==VA-VB],(c==1)==(VA<VB))
    lemma('the first digit that differs decides',dig+[a<b],VA+a*P<VB+b*P)
    lemma('equal digits do not decide',dig+[a==b],(VA+a*P<VB+b*P)==(VA<VB))
    lemma('a number with more digits is larger',dig+[a>=1],VA+a*P>VB)
    lemma('digits below i make less than P',dig,VA+a*P<B*P)
task('lemmas',t_lemmas)
# ---------------------------------------------------------------- signs, on values
import ecl,mpx,mval
from mval import inp,vadd,vsub,vneg,vabs,zv,ZERO
SG={'+':lambda n:inp(n),'-':lambda n:vneg(inp(n)),'any':lambda n:inp(n,False)}
def t_signs(fn,f,al,sa,sb):
    ex=mpx.MEx(); w=ecl.World(ex); del ex.hooks['cry_mpi_'+fn]; nf=0; A=w.num('a',SG[sa]('a'))
    if sa=='-': pos_(w,'a')
    if 'ab' in al: B=A; nb='a'
    else:
        B=w.num('b',SG[sb]('b')); nb='b'
        if sb=='-': pos_(w,'b')
    R,nr=(A,'a') if 'ra' in al else (B,nb) if 'rb' in al else (w.num('r',inp('r')),'r')
    a,b=w.v('a'),w.v(nb)
    for s2,res in ex.call(w.st,'cry_mpi_'+fn,[R,A,B] if f.__code__.co_argcount==2 else [R,A],top=True):
        if not ex.feasible(s2): continue
        w.valid(s2); w.unchanged(s2,[n for n in w.before if n!=nr])
        if ecl.failed(s2): ex.ob('ensures: failure is reported',ex.proves(s2,not_(is0(res)))); continue
        nf+=1; ex.ob('ensures: success',ex.proves(s2,is0(res)),'%s %s'%(res,s2.pc)); r=w.after(s2,nr); e=f(a,b) if f.__code__.co_argcount==2 else f(a); ex.ob('ensures: exact result',ex.veq(s2,r,e),'%s, expected %s'%(r,e))
    ex.ob('reachable',nf>0)
def pos_(w,n): w.st.add(not_(mpx.t_zero(w.v(n))))
ALS=((),('ra',),('rb',),('ab',),('ra','ab'))
for fn,f in(('add',lambda a,b:vadd(a,b)),('sub',lambda a,b:vsub(a,b))):
    for al in ALS:
        for sa in '+-':
            for sb in ('+-' if 'ab' not in al else '+'): task('%s %s signs %s%s'%(fn,' '.join(al),sa,sb),t_signs,fn,f,al,sa,sb)
for al in ((),('ra',)):
    for sa in '+-': task('abs %s sign %s'%(' '.join(al),sa),t_signs,'abs',lambda a:vabs(a),al,sa,'+')
def t_cmp(sa,sb,same):
    ex=mpx.MEx(); w=ecl.World(ex); del ex.hooks['cry_mpi_cmp']; nf=0; A=w.num('a',SG[sa]('a'))
    if sa=='-': pos_(w,'a')
    B=A if same else w.num('b',SG[sb]('b'))
    if sb=='-' and not same: pos_(w,'b')
    a,b=w.v('a'),w.v('a' if same else 'b')
    for s2,res in ex.call(w.st,'cry_mpi_cmp',[A,B],top=True):
        if not ex.feasible(s2): continue
        nf+=1; w.valid(s2); w.unchanged(s2,list(w.before))
        for nm,c,fm in(('less',slt(res,C(32,0)),zv(a)<zv(b)),('equal',is0(res),zv(a)==zv(b)),('greater',slt(C(32,0),res),zv(a)>zv(b))):
            t=s2.fork(); t.add(c)
            if isc(c) and val(c)==0: continue
            if ex.feasible(t): ex.ob('ensures: '+nm,ex.holds(t,fm,(a,b)),'%s %s'%(res,t.pc))
    ex.ob('reachable',nf>0)
for sa in '+-':
    task('cmp same %s'%sa,t_cmp,sa,sa,True)
    for sb in '+-': task('cmp %s%s'%(sa,sb),t_cmp,sa,sb,False)
