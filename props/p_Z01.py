"""Z01: the clear functions leave nothing of the context behind."""
from clib import *
def t_plain(name,struct):
    ex=Ex(); st=St(); n=layout('cry/%s.h'%name,'struct '+struct,())[''][1]; ctx=ex.region(st,'ctx',n,ufbytes('ctx')); nf=0
    for s2,_ in ex.call(st,'cry_%s_clear'%name,[Ptr(ctx,c64(0))],top=True):
        nf+=1
        for i,b in enumerate(ex.peek(s2,Ptr(ctx,c64(0)),n)): ex.ob('ensures: every byte of the context is zero',isinstance(b,T) and ex.same(s2,b,C(8,0)),'offset %d: %s'%(i,b))
        ex.noleak(s2)
    ex.ob('reachable',nf>0)
def t_mode(name,hasclear):
    ex=Ex(); st=St(); L=layout('cry/%s.h'%name,'struct cry_%s_ctx'%name,('ciph_ctx','ciph_itf')); n=L[''][1]; ctx=ex.region(st,'ctx',n,ufbytes('ctx')); I=layout('cry/ciph.h','struct cry_ciph_itf',('init','clear','key_set','encrypt','decrypt'))
    ciph=ex.region(st,'ciph',64,ufbytes('ciph')); itf=ex.region(st,'itf',I[''][1],None)
    for f in I:
        if f: ex.storeptr(st,Ptr(itf,c64(I[f][0])),NULL if f=='clear' and not hasclear else FnPtr('ciph_'+f))
    itf.ro=True; ex.storeptr(st,Ptr(ctx,c64(L['ciph_ctx'][0])),Ptr(ciph,c64(0))); ex.storeptr(st,Ptr(ctx,c64(L['ciph_itf'][0])),Ptr(itf,c64(0)))
    def h(ex,st,a):
        ex.ob('requires: context of the cipher',isinstance(a[0],Ptr) and a[0].r is ciph and isc(a[0].o) and val(a[0].o)==0,str(a)); st.ghost['cleared']=True; return [(st,None)]
    ex.hooks['ciph_clear']=h; nf=0
    for s2,_ in ex.call(st,'cry_%s_clear'%name,[Ptr(ctx,c64(0))],top=True):
        nf+=1; ex.ob('ensures: the context of the cipher is cleared',s2.ghost.get('cleared',False) or not hasclear)
        for i,b in enumerate(ex.peek(s2,Ptr(ctx,c64(0)),n)): ex.ob('ensures: every byte of the context is zero',isinstance(b,T) and ex.same(s2,b,C(8,0)),'offset %d: %s'%(i,b))
    ex.ob('reachable',nf>0)
for n in ('aes','des','arc4','trivium','md5','sha1','sha256','sha512'): task(n,t_plain,n,'cry_%s_ctx'%n)
for n in ('cbc','cfb','ctr','gcm'): task(n,t_mode,n,True); task(n+', cipher without clear',t_mode,n,False)
