"""Running the proof of a property: tasks (one per function and case) in worker processes."""
import os,sys,time,traceback,multiprocessing as mp
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','spec'))
from terms import *
from ex import *
from loops import *
import ir
TASKS=[]
class Task:
    def __init__(s,label,fn,args,timeout): s.label=label;s.fn=fn;s.args=args;s.timeout=timeout
def task(label,fn,*args,timeout=300): TASKS.append(Task(label,fn,args,timeout))
def one(i,conn):
    t=TASKS[i]; t0=time.time()
    out=dict(label=t.label,obs=[],functions=[],err=None,solver=0.0,queries=0,cuts=[])
    exs=[]
    Ex.__init__=wrap(Ex_init,exs)
    try: t.fn(*t.args)
    except (Unsupported,Fail,Infeasible) as e: out['err']='%s: %s'%(type(e).__name__,str(e)[:2000])
    except RecursionError as e: out['err']='recursion'
    except Exception as e: out['err']='internal: '+traceback.format_exc()[-1500:]
    for x in exs:
        if getattr(x,'probe',False): continue
        out['obs']+=x.obs; out['functions']+=list(x.fnseen); out['solver']+=x.solver_time; out['queries']+=x.queries; out['cuts']+=getattr(x,'cuts',[])
    out['functions']=sorted(set(out['functions'])); out['wall']=time.time()-t0
    agg={}; only=getattr(t,'only',None)
    for n,ok,d in out['obs']:
        if only and not only(n): continue
        a=agg.setdefault(n,[0,0,[]]); a[0]+=1
        if ok: a[1]+=1
        elif len(a[2])<3: a[2].append(str(d)[:1500])
    out['obs']=agg
    conn.send(out); conn.close(); os._exit(0)
Ex_init=Ex.__init__
def wrap(init,exs):
    def f(s,*a,**k): init(s,*a,**k); exs.append(s)
    return f
def run_all(jobs=8,budget=600):
    """-> list of task results"""
    ir.preload(); t0=time.time(); pend=list(range(len(TASKS))); pend.sort(key=lambda i:-getattr(TASKS[i],'prio',0)); run={}; res={}
    ctx=mp.get_context('fork')
    while pend or run:
        while pend and len(run)<jobs:
            i=pend.pop(0); a,b=ctx.Pipe(False); p=ctx.Process(target=one,args=(i,b)); p.start(); b.close(); run[i]=(p,a,time.time())
        for i,(p,a,ts) in list(run.items()):
            if a.poll(0.02):
                try: res[i]=a.recv()
                except EOFError: res[i]=dict(label=TASKS[i].label,obs={},functions=[],err='worker died',solver=0,queries=0,cuts=[],wall=time.time()-ts)
                p.join(); del run[i]
            elif time.time()-ts>TASKS[i].timeout or time.time()-t0>budget:
                p.kill(); p.join(); res[i]=dict(label=TASKS[i].label,obs={},functions=[],err='timeout after %.0fs'%(time.time()-ts),solver=0,queries=0,cuts=[],wall=time.time()-ts); del run[i]
    return [res[i] for i in sorted(res)]
def summary(res,verbose=False):
    tot=dis=0; bad=[]
    for r in res:
        for n,(a,b,d) in r['obs'].items():
            tot+=a; dis+=b
            if a!=b: bad.append((r['label'],n,d))
        if r['err']: bad.append((r['label'],'established',[r['err']])); tot+=1
        if not r['obs'] and not r['err']: bad.append((r['label'],'non-vacuous',['no obligation generated'])); tot+=1
    return tot,dis,bad
if __name__=='__main__':
    import importlib
    sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','props'))
    sys.modules['pv']=sys.modules['__main__']
    for m in sys.argv[1].split(','): importlib.import_module('p_'+m)
    if len(sys.argv)>2:
        TASKS[:]=[t for t in TASKS if sys.argv[2] in t.label]
    t0=time.time(); res=run_all(int(os.environ.get('JOBS','8')))
    for r in res:
        print('%-50s %6.1fs solver %5.1fs q=%d ob=%d %s'%(r['label'],r['wall'],r['solver'],r['queries'],sum(a for a,_,_ in r['obs'].values()),'' if not r['err'] else 'ERR '+r['err']))
        for n,(a,b,d) in r['obs'].items():
            if a!=b: print('   FAILED',n,a-b,'of',a,d)
    t,d,b=summary(res); print('obligations',t,'discharged',d,'wall %.1f'%(time.time()-t0)); sys.exit(bool(b))
