"""Self test: the normal form is checked against direct evaluation on random expressions."""
import random,sys
from terms import *
def rnd(r,d,w):
    """(term, python function env->int)"""
    if d==0:
        if r.random()<.25:
            v=r.choice((0,1,M(w),r.getrandbits(w),1<<r.randrange(w),M(w)>>r.randrange(w))); return C(w,v),lambda e:v&M(w)
        n='v%d_%d'%(w,r.randrange(3)); return sym(w,n),lambda e:e[n]
    k=r.randrange(19)
    if k<=8:
        a,fa=rnd(r,d-1,w); b,fb=rnd(r,d-1,w)
        return [(add(a,b),lambda e:(fa(e)+fb(e))&M(w)),(sub(a,b),lambda e:(fa(e)-fb(e))&M(w)),(xor(a,b),lambda e:fa(e)^fb(e)),(and_(a,b),lambda e:fa(e)&fb(e)),(or_(a,b),lambda e:fa(e)|fb(e)),
            (mul(a,b),lambda e:fa(e)*fb(e)&M(w)),(xor(a,b),lambda e:fa(e)^fb(e)),(or_(a,b),lambda e:fa(e)|fb(e)),(add(a,b),lambda e:(fa(e)+fb(e))&M(w))][k]
    if k in(9,10):
        a,fa=rnd(r,d-1,w); n=r.randrange(w); return (shl(a,n),lambda e:(fa(e)<<n)&M(w)) if k==9 else (lshr(a,n),lambda e:fa(e)>>n)
    if k==11:
        a,fa=rnd(r,d-1,w); n=r.randrange(1,w) if w>1 else 0; return rotl(a,n),lambda e:((fa(e)<<n)|(fa(e)>>(w-n)))&M(w)
    if k==12:
        w2=r.choice([x for x in(1,4,8,16,32) if x<=w]); a,fa=rnd(r,d-1,w2)
        if r.random()<.5: return zext(a,w),fa
        return sext(a,w),lambda e:(fa(e)|(M(w)^M(w2))) if fa(e)>>(w2-1) else fa(e)
    if k==13:
        w2=r.choice([x for x in(4,8,16,32,64) if x>=w]); a,fa=rnd(r,d-1,w2); l=r.randrange(0,w2-w+1); return ext(a,l+w-1,l),lambda e:(fa(e)>>l)&M(w)
    if k==14:
        n=r.choice((1,4,6)); a,fa=rnd(r,d-1,n)
        if r.random()<.5: c=tuple(r.getrandbits(w) for _ in range(1<<n))
        else:
            b=[r.getrandbits(w) for _ in range(n)]; c=[]
            for i in range(1<<n):
                v=0
                for j in range(n):
                    if i>>j&1: v^=b[j]
                c.append(v)
            c=tuple(c)
        return tab(w,c,a),lambda e:c[fa(e)]
    if k==15:
        c,fc=rnd(r,d-1,1); a,fa=rnd(r,d-1,w); b,fb=rnd(r,d-1,w); return ite(c,a,b),lambda e:fa(e) if fc(e) else fb(e)
    if k==16 and w>1:
        n=r.randrange(1,w); a,fa=rnd(r,d-1,w); b,fb=rnd(r,d-1,w); return cat([ext(a,w-1,n),ext(b,n-1,0)]),lambda e:(fa(e)>>n<<n)|(fb(e)&M(n))
    if k==17 and w==1 and r.random()<.5: # a comparison with the same value built in another way
        w2=r.choice((8,16,32,64)); a,fa=rnd(r,d-1,w2)
        if r.random()<.5: x=rnd(r,0,w2//4); y=rnd(r,0,w2//2 if w2>8 else 4); m=r.choice((1,1,3,8)); a=add(zext(x[0],w2),mul(zext(y[0],w2),C(w2,m))) if x[0].w in(1,4,8,16) else a; fa=(lambda e,g=x[1],h=y[1]:(g(e)+m*h(e))&M(w2)) if x[0].w in(1,4,8,16) else fa
        n=r.randrange(1,w2); z=r.randrange(3)
        if z==0: b,fb=cat([ext(a,w2-1,n),ext(a,n-1,0)]),fa
        elif z==1: b,fb=cat([C(w2-n,0),ext(a,n-1,0)]),lambda e:fa(e)&M(n)
        else: b,fb=shl(lshr(a,n),n),lambda e:fa(e)>>n<<n
        return r.choice([(eq(a,b),lambda e:int(fa(e)==fb(e))),(eq(b,a),lambda e:int(fa(e)==fb(e))),(ult(b,a),lambda e:int(fb(e)<fa(e)))])
    if k==17 and w==1:
        w2=r.choice((4,8)); a,fa=rnd(r,d-1,w2); b,fb=rnd(r,d-1,w2)
        return r.choice([(eq(a,b),lambda e:int(fa(e)==fb(e))),(ult(a,b),lambda e:int(fa(e)<fb(e))),(slt(a,b),lambda e:int((fa(e)^(1<<w2-1))<(fb(e)^(1<<w2-1))))])
    if k==18:
        a,fa=rnd(r,d-1,w); v=r.randrange(1,M(w)+1); op=r.choice(('udiv','urem'))
        return divrem(op,a,C(w,v)),(lambda e:fa(e)//v) if op=='udiv' else (lambda e:fa(e)%v)
    a,fa=rnd(r,d-1,w); return not_(a),lambda e:fa(e)^M(w)
def main(n,seed):
    r=random.Random(seed)
    for i in range(n):
        t,f=rnd(r,r.randrange(1,6),r.choice((1,4,8,16,32)))
        for _ in range(4):
            e={}
            for w in(1,4,6,8,16,32,64):
                for j in range(3): e['v%d_%d'%(w,j)]=r.choice((0,M(w),r.getrandbits(w),r.getrandbits(w)))
            if evaluate(t,e)!=f(e): print('MISMATCH',i,t); return 1
            s={sym(w,'v%d_%d'%(w,j)):C(w,e['v%d_%d'%(w,j)]) for w in(1,4,6,8,16,32,64) for j in range(3)}
            u=subst(t,s)
            if not isc(u) or val(u)!=f(e): print('SUBST MISMATCH',i,t,u); return 1
    print('ok',n); return 0
if __name__=='__main__': sys.exit(main(int(sys.argv[1]),sys.argv[2]))
