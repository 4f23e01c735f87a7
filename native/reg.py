import random
CASES={}
def case(prop,weight=1.0,exhaustive=None):
    """register a native contract oracle; exhaustive=n : fn(lib,rng,i) is first called for i in range(n)"""
    def d(fn):
        CASES.setdefault(prop,[]).append((fn.__name__,fn,weight,exhaustive)); return fn
    return d
SIZES=[0,1,2,3,4,5,7,8,9,11,12,13,15,16,17,23,24,25,31,32,33,47,48,49,55,56,57,63,64,65,79,80,81,95,96,97,111,112,113,119,120,121,127,128,129,143,144,145,191,192,193,239,240,241,255,256,257,319,320,321,383,384,385,495,496,497,511,512,513,527,528,529,1023,1024,1025,1039,1040]
def size(rng,mx=1100):
    r=rng.random()
    if r<0.45:
        while True:
            s=rng.choice(SIZES)
            if s<=mx: return s
    if r<0.8: return rng.randrange(0,min(mx,80)+1)
    return rng.randrange(0,mx+1)
def data(rng,n):
    r=rng.random()
    if r<0.6: return rng.randbytes(n)
    if r<0.68: return bytes(n)
    if r<0.76: return b'\xff'*n
    if r<0.9: return bytes(rng.choice((0,0,0xff,0xff,0x80,1,0x7f,rng.randrange(256))) for _ in range(n))
    k=rng.randbytes(rng.randrange(1,17)); return (k*(n//len(k)+1))[:n]
B64=1<<64
def digit(rng):
    r=rng.random()
    if r<0.35: return rng.getrandbits(64)
    if r<0.5: return B64-1
    if r<0.65: return 0
    if r<0.72: return 1
    if r<0.79: return 1<<63
    if r<0.84: return (1<<63)-1
    if r<0.89: return B64-2
    if r<0.94: return rng.getrandbits(rng.randrange(1,64))
    return (B64-1)^rng.getrandbits(rng.randrange(1,63))
def ndig(rng,mx):
    r=rng.random()
    if r<0.08: return 0
    if r<0.3: return 1
    if r<0.5: return 2
    if r<0.8: return rng.randrange(0,min(mx,8)+1)
    if r<0.95: return rng.randrange(0,min(mx,20)+1)
    return rng.randrange(0,mx+1)
def nat(rng,mx=40,n=None):
    n=ndig(rng,mx) if n is None else n
    r=rng.random()
    if r<0.15 and n>0:
        # near powers of two
        v=(1<<rng.randrange(0,64*n))+rng.choice((-1,0,1)); return max(v,0)
    v=0
    for i in range(n): v=(v<<64)|digit(rng)
    return v
def integer(rng,mx=40):
    v=nat(rng,mx); return -v if rng.random()<0.4 else v
