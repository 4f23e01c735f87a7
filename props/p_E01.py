"""E01: base64."""
from pv import *
ALPH=b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
EQ=C(8,0x3d)
def ch(six): return tab(8,tuple(ALPH),six)
def legal(c): return tab(1,tuple(1 if i in ALPH or i==0x3d else 0 for i in range(256)),c)
def D(o): return uf(8,'data',o)
def group(d,j,avail):
    """character j of the group whose bytes are d(0..2), avail of them present"""
    b=[d(i) if i<avail else C(8,0) for i in range(3)]; six=[ext(b[0],7,2),cat([ext(b[0],1,0),ext(b[1],7,4)]),cat([ext(b[1],3,0),ext(b[2],7,6)]),ext(b[2],5,0)][j]
    return EQ if j>avail else ch(six)
def text(q,r):
    """the text of 3q+r bytes"""
    def f(ex,st,o):
        g=lshr(o,2); j=ext(o,1,0); a=mul(g,c64(3)); d=lambda i:D(addc(a,i))
        def at(av):
            if isc(j): return group(d,val(j),av)
            x=group(d,0,av)
            for i in range(1,4): x=ite(eq(j,C(2,i)),group(d,i,av),x)
            return x
        if r==0: return at(3)
        c=eq(g,q)
        if isc(c): return at(r) if val(c) else at(3)
        if ex.proves(st,c): return at(r)
        if ex.proves(st,not_(c)): return at(3)
        return ite(c,at(r),at(3))
    return f
class Enc(Inv):
    name='k groups encoded'
    def __init__(s,dst,f): s.dst=dst; s.f=f
    def mem(s,ex,st0,st,k): ex.addlam(st,s.dst,c64(0),mul(k,c64(4)),s.f); return {s.dst}
def sizes(r,st):
    q=zext(sym(44,'q'),64); n=addc(mul(q,c64(3)),r); m=mul(addc(q,1) if r else q,c64(4)); return q,n,m
def t_enc(r):
    ex=Ex(); st=St(); q,n,m=sizes(r,st); src=ex.region(st,'data',n,ufbytes('data'),ro=True); dst=ex.region(st,'out',m,ufbytes('out')); dst.gran=4; f=text(q,r); ex.invs=[Enc(dst,f),Auto()]; nf=0
    for s2,v in ex.call(st,'cry_base64_encode',[Ptr(dst,c64(0)),Ptr(src,c64(0)),n],top=True):
        if not ex.feasible(s2): continue
        nf+=1; ex.ob('ensures: length of the text',ex.same(s2,v,m),'%s, expected %s'%(v,m)); ex.ensures(s2,dst,f,'ensures: text of RFC 4648',m)
    ex.ob('reachable',nf>0)
class Dec(Inv):
    name='k groups decoded'
    def __init__(s,dst): s.dst=dst
    def phis(s,ex,st,k): p=mul(k,c64(3)); return [p,Ptr(s.dst,p)]
    def mem(s,ex,st0,st,k): ex.addlam(st,s.dst,c64(0),mul(k,c64(3)),lambda ex,st,o:D(o)); return {s.dst}
def t_dec(r):
    ex=Ex(); ex.nomerge=True; ex.nounroll=True; ex.short=6; st=St(); q,n,m=sizes(r,st); f=text(q,r); src=ex.region(st,'text',m,None,ro=True); ex.addlam(st,src,c64(0),m,f); dst=ex.region(st,'out',n,ufbytes('out')); ex.invs=[Dec(dst),Auto()]; nf=0
    for s2,v in ex.call(st,'cry_base64_decode',[Ptr(dst,c64(0)),Ptr(src,c64(0)),m],top=True):
        if not ex.feasible(s2): continue
        nf+=1; ex.ob('ensures: length of the data',ex.same(s2,v,n),'%s, expected %s'%(v,n)); ex.ensures(s2,dst,lambda ex,st,o:D(o),'ensures: the encoded data',n)
    ex.ob('reachable',nf>0)
class AnyText(Inv):
    name='at most 3k bytes stored, the characters so far are legal'; free=True
    def __init__(s,dst,J): s.dst=dst; s.J=J
    def anyregs(s,ex): return {s.dst}
    def facts(s,ex,st,k):
        r=[ule(mul(k,c64(4)),s.lim),or_(ule(mul(k,c64(4)),s.J),legal(uf(8,'text',s.J)))]
        for i in range(len(getattr(s,'frees',()))): r.append(ule(s.fv(i,k),mul(k,c64(3))))
        return r
def t_any(r):
    ex=Ex(); ex.nomerge=True; ex.nounroll=True; ex.short=6; st=St(); g=zext(sym(40,'g'),64); m=addc(mul(g,c64(4)),r); src=ex.region(st,'text',m,ufbytes('text'),ro=True); dst=ex.region(st,'out',mul(g,c64(3)),ufbytes('out'))
    J=zext(sym(44,'J'),64); inv=AnyText(dst,J); inv.lim=m; ex.invs=[inv,Auto()]; nf=0; bad=C(64,M(64)); st.add(ult(J,m)) 
    for s2,v in ex.call(st,'cry_base64_decode',[Ptr(dst,c64(0)),Ptr(src,c64(0)),m],top=True):
        if not ex.feasible(s2): continue
        nf+=1
        if r: ex.ob('ensures: a length that is not a multiple of 4 is rejected',ex.same(s2,v,bad)); continue
        if ex.same(s2,v,bad): continue
        ex.ob('ensures: accepted only if every character is legal',ex.proves(s2,legal(uf(8,'text',J))),'result %s'%v)
        ex.ob('ensures: at most 3 bytes per group',ex.proves(s2,ule(v,mul(g,c64(3)))),str(v))
    ex.ob('reachable',nf>0)
for r in range(3): task('encode, %d bytes in the last group'%r,t_enc,r); task('decode inverts encode, %d bytes in the last group'%r,t_dec,r)
for r in range(4): task('decode of any text, length mod 4 == %d'%r,t_any,r)
