"""Offsets and sizes from the C compiler."""
import subprocess,os,functools
import ir
@functools.lru_cache(None)
def layout(header,struct,fields):
    """-> dict field -> (offset, size), '' -> (0,sizeof)"""
    src='#include <stdio.h>\n#include <stddef.h>\n'+''.join('#include <%s>\n'%h for h in header.split())+'int main(void){%s s;(void)s;printf(" %%zu %%zu\\n",(size_t)0,sizeof s);'%struct
    for f in fields: src+='printf("%s %%zu %%zu\\n",offsetof(%s,%s),sizeof s.%s);'%(f,struct,f,f)
    src+='return 0;}\n'
    p=os.path.join(ir.workdir(),'lay%d_%d'%(abs(hash((header,struct,fields))),os.getpid()))
    open(p+'.c','w').write(src)
    r=subprocess.run(['clang','-w']+ir.CFLAGS+[p+'.c','-Wl,--unresolved-symbols=ignore-all','-no-pie','-o',p],capture_output=True,text=True)
    if r.returncode: raise ir.Unsupported('layout of %s: %s'%(struct,r.stderr[:300]))
    out={}
    for l in subprocess.run([p],capture_output=True,text=True).stdout.splitlines():
        n,o,s=l.split(' '); out[n]=(int(o),int(s))
    return out
