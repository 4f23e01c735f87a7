"""S01: allocation failures."""
from dig import *
import pv
_t=list(pv.TASKS); import p_M05; pv.TASKS[:]=_t
def owned(w,st,N,what='ensures: valid number'):
    """a valid object that owns its digits"""
    ex=w.ex; u=w.get(st,N,'used'); a=w.get(st,N,'alloc'); p=w.data(st,N); none=p.r is None
    ex.ob(what,ex.proves(st,ule(u,a)) and (ex.proves(st,eq(a,c64(0))) if none else p.r not in st.freed and p.r.kind=='heap' and isc(p.o) and val(p.o)==0 and ex.proves(st,ule(x8(a),p.r.size)) and ex.proves(st,not_(eq(a,c64(0))))),'used %s alloc %s data %s'%(u,a,p))
def leakfree(w,st,*own):
    """the arrays allocated belong to the objects given, and to no two of them"""
    ex=w.ex; h=[r for r in st.mem if r.kind=='heap' and r not in st.freed]; o=[w.data(st,N).r for N in own]; ex.ob('no-leak',all(r in o for r in h),str([r.name for r in h])); o=[r for r in o if r is not None]; ex.ob('no-sharing',len(set(o))==len(o))
def world():
    w=DW(); w.ex.hooks.pop('cry_mpi_grow'); w.ex.nounroll=False; return w
def t_grow():
    w=world(); ex=w.ex; A=w.num('a'); n=zext(sym(56,'n'),64); ok=bad=0
    for s2,res in ex.call(w.st,'cry_mpi_grow',[A['p'],n],top=True):
        if not ex.feasible(s2): continue
        owned(w,s2,A); leakfree(w,s2,A); u=w.get(s2,A,'used'); ex.ob('frame',ex.proves(s2,and_(eq(u,A['used']),eq(w.get(s2,A,'sign'),A['sign']))))
        p=w.data(s2,A); ex.equal_content(s2,p.r,ex.cont(s2,p.r),Cont((Lam(c64(0),x8(A['alloc']),wbytes(lambda ex,st,i:A['D'](i))),)),'ensures: digits kept',x8(A['alloc']))
        if ex.proves(s2,is0(res)): ok+=1; ex.ob('ensures: room',ex.proves(s2,ule(n,w.get(s2,A,'alloc')))); continue
        bad+=1; ex.ob('ensures: failure is reported',ex.proves(s2,not_(is0(res)))); w.same(s2,A); ex.ob('ensures: no failure without an allocation',ex.proves(s2,ult(A['alloc'],n)))
    ex.ob('reachable',ok>0 and bad>0)
task('grow',t_grow)
def t_init(fn,arg):
    w=world(); ex=w.ex; A=w.raw('a'); n=zext(sym(56,'n'),64); ok=bad=0
    if arg=='n': w.st.add(not_(eq(n,c64(0))))
    a={'':[],'0':[c64(0)],'n':[n]}[arg]
    for s2,res in ex.call(w.st,fn,[A['p']]+a,top=True):
        if not ex.feasible(s2): continue
        if ex.proves(s2,is0(res)):
            ok+=1; owned(w,s2,A); leakfree(w,s2,A); ex.ob('ensures: zero',ex.proves(s2,and_(eq(w.get(s2,A,'used'),c64(0)),eq(w.get(s2,A,'sign'),C(32,0)))))
            if arg=='n': ex.ob('ensures: room',ex.proves(s2,ule(n,w.get(s2,A,'alloc'))))
            continue
        bad+=1; ex.ob('ensures: failure is reported',ex.proves(s2,not_(is0(res)))); leakfree(w,s2)
    ex.ob('reachable',ok>0 and (bad>0 or arg=='0'))
task('init',t_init,'cry_mpi_init',''); task('init_size',t_init,'cry_mpi_init_size','n'); task('init_size 0',t_init,'cry_mpi_init_size','0')
def t_clear():
    w=world(); ex=w.ex; A=w.num('a'); n=0
    for s2,res in ex.call(w.st,'cry_mpi_clear',[A['p']],top=True):
        if not ex.feasible(s2): continue
        n+=1; leakfree(w,s2); p=w.data(s2,A); ex.ob('ensures: no digits left',p.r is None and ex.proves(s2,and_(eq(w.get(s2,A,'used'),c64(0)),eq(w.get(s2,A,'alloc'),c64(0)))))
    ex.ob('reachable',n>0)
task('clear',t_clear)
def t_init_copy():
    w=world(); ex=w.ex; w.ex.hooks['cry_mpi_copy']=h_copy; A=w.num('a',const=True); R=w.raw('r'); ok=bad=0; u=A['used']
    for s2,res in ex.call(w.st,'cry_mpi_init_copy',[R['p'],A['p']],top=True):
        if not ex.feasible(s2): continue
        w.same(s2,A)
        if ex.proves(s2,is0(res)): ok+=1; owned(w,s2,R); leakfree(w,s2,A,R); ex.ob('ensures: equal',ex.proves(s2,and_(eq(w.get(s2,R,'used'),u),eq(w.get(s2,R,'sign'),A['sign'])))); w.digits(s2,R,lambda ex,st,i:A['D'](i),u,'ensures: digits copied'); continue
        bad+=1; ex.ob('ensures: failure is reported',ex.proves(s2,not_(is0(res)))); leakfree(w,s2,A)
    ex.ob('reachable',ok>0 and bad>0)
task('init_copy',t_init_copy)
def t_init_int():
    w=world(); ex=w.ex; R=w.raw('r'); v=sym(64,'v'); ok=bad=0; ng=ext(v,63,63); mag=ite(ng,neg(v),v)
    for s2,res in ex.call(w.st,'cry_mpi_init_int',[R['p'],v],top=True):
        if not ex.feasible(s2): continue
        if ex.proves(s2,is0(res)):
            ok+=1; owned(w,s2,R); leakfree(w,s2,R); u=w.get(s2,R,'used'); z=s2.fork(); z.add(eq(v,c64(0))); s2.add(not_(eq(v,c64(0))))
            if ex.feasible(z): ex.ob('ensures: zero',ex.proves(z,and_(eq(u,c64(0)),eq(w.get(z,R,'sign'),C(32,0)))))
            if ex.feasible(s2): ex.ob('ensures: one digit, sign and magnitude',ex.proves(s2,and_(eq(u,c64(1)),and_(eq(w.get(s2,R,'sign'),zext(ng,32)),eq(ex.load(s2,w.data(s2,R),64),mag)))))
            continue
        bad+=1; ex.ob('ensures: failure is reported',ex.proves(s2,not_(is0(res)))); leakfree(w,s2)
    ex.ob('reachable',ok>0 and bad>0)
task('init_int',t_init_int)
def t_init_bin():
    w=world(); ex=w.ex; R=w.raw('r'); z=zext(sym(40,'z'),64); r=3; S=addc(x8(zext(sym(36,'q'),64)),r); n=add(z,S); buf=ex.region(w.st,'buf',n,ufbytes('buf'),ro=True); w.st.add(not_(eq(uf(8,'buf',z),C(8,0)))); ok=bad=0
    byte=lambda t:uf(8,'buf',addc(sub(n,t),-1)); ex.invs=[p_M05.Skip(z,S),p_M05.Load(w,R,S,byte)]; ex.nounroll=True
    for s2,res in ex.call(w.st,'cry_mpi_init_bin',[R['p'],Ptr(buf,c64(0)),n],top=True):
        if not ex.feasible(s2): continue
        if ex.proves(s2,is0(res)): ok+=1; owned(w,s2,R); leakfree(w,s2,R); continue
        bad+=1; ex.ob('ensures: failure is reported',ex.proves(s2,not_(is0(res)))); leakfree(w,s2)
    ex.ob('reachable',ok>0 and bad>0)
task('init_bin',t_init_bin)
# ---------------------------------------------------------------- everything that works on numbers: the obligations about memory and failures
import pv
OWN=list(pv.TASKS)
MEM=('in-bounds','valid-free','requires','no-','one owner','loop','frame','ensures: valid number','ensures: failure is reported','ensures: never accepted','reachable','initialised')
FROM={'M01':('add','sub','copy'),'M04':('shl',),'M06':('',),'P01':('',),'D01':('',),'D02':('',),'D03':('',),'D05':('',)}
import importlib
for m,pre in FROM.items():
    old=list(pv.TASKS); pv.TASKS[:]=[]; x=importlib.import_module('p_'+m); new=pv.TASKS[:]; pv.TASKS[:]=old
    for t in new:
        if any(t.label.startswith(q) for q in pre) and 'Newton' not in t.label: t.label='%s: %s'%(m,t.label); t.only=lambda n:n.startswith(MEM); pv.TASKS.append(t)
