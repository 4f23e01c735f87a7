"""FIPS 197: field arithmetic and S-box from the definition."""
def xt(a): return ((a<<1)^0x11b)&0xff if a&0x80 else a<<1
def gmul(a,b):
    r=0
    while b:
        if b&1: r^=a
        a=xt(a); b>>=1
    return r
def _sbox():
    s=[0]*256
    for x in range(256):
        inv=0
        if x:
            for y in range(1,256):
                if gmul(x,y)==1: inv=y;break
        r=0
        for i in range(8):
            b=(inv>>i ^ inv>>((i+4)%8) ^ inv>>((i+5)%8) ^ inv>>((i+6)%8) ^ inv>>((i+7)%8) ^ 0x63>>i)&1
            r|=b<<i
        s[x]=r
    return s
SB=_sbox(); IS=[0]*256
for i,v in enumerate(SB): IS[v]=i
