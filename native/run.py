"""Runs the native contract oracles of one property: run.py PROP SO SECONDS SEED OUT [only-case only-index]"""
import sys,os,json,time,random,mmap,struct,traceback
HERE=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,HERE)
import lib as L, reg
import o_mpi,o_crypt,o_pk
def enc(v):
    if isinstance(v,(bytes,bytearray)): return v.hex()
    if isinstance(v,(list,tuple)): return [enc(x) for x in v]
    if isinstance(v,dict): return {str(k):enc(x) for k,x in v.items()}
    if isinstance(v,int) and abs(v)>1<<53: return hex(v)
    if isinstance(v,(int,str,float,bool)) or v is None: return v
    return repr(v)
def main():
    prop,so,secs,seed,out=sys.argv[1:6]; secs=float(secs)
    only=sys.argv[6:8]
    lib=L.Lib(so)
    with open(out+'.cur','w+b') as f:
        f.write(b'\0'*256); f.flush(); mm=mmap.mmap(f.fileno(),256)
    cases=reg.CASES.get(prop,[])
    res={'cases':{},'fail':None}
    def one(name,fn,i,exh):
        s=('%s:%d'%(name,i)).encode(); mm[:len(s)+1]=s+b'\0'
        lib.ai=0
        rng=random.Random('%s/%s/%d'%(seed,name,i))
        try:
            if exh is not None: fn(lib,rng,i)
            else: fn(lib,rng)
            bad=lib.vp_bad()
            if bad: raise L.Fail('heap corruption or invalid free detected')
        except L.Fail as e:
            res['fail']={'case':name,'index':i,'what':str(e),'input':enc(e.inp)}
            return False
        lib.vp_reset()
        res['cases'][name]=res['cases'].get(name,0)+1
        return True
    def fin():
        json.dump(res,open(out,'w')); return 0
    if only:
        for name,fn,w,exh in cases:
            if name==only[0]: one(name,fn,int(only[1]),exh)
        return fin()
    t0=time.time()
    tot=sum(c[2] for c in cases)
    for name,fn,w,exh in cases:
        t1=time.time(); budget=secs*w/tot; i=0
        while True:
            if not one(name,fn,i,exh): return fin()
            i+=1
            if time.time()-t1>budget and (exh is None or i>=exh): break
    return fin()
sys.exit(main())
