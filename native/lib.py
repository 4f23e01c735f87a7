"""ctypes access to the library built from /repo's current working tree."""
import ctypes as C, os, subprocess, tempfile, glob, sys, hashlib, shutil
REPO=os.environ.get('VP_REPO','/repo')
HERE=os.path.dirname(os.path.abspath(__file__))

def sources():
    return sorted(glob.glob(REPO+'/src/*.c')+glob.glob(REPO+'/src/*/*.c'))

def build(outdir, extra=()):
    so=os.path.join(outdir,'libcry_vp.so')
    objs=[];procs=[]
    flags=['-O1','-g','-fPIC','-w','-I'+REPO+'/include','-I'+REPO+'/src']+list(extra)
    for s in sources():
        o=os.path.join(outdir,s[len(REPO):].replace('/','_')+'.o'); objs.append(o)
        procs.append((s,subprocess.Popen(['gcc']+flags+['-Dmalloc=vp_malloc','-Drealloc=vp_realloc','-Dfree=vp_free','-Dcalloc=vp_calloc','-c',s,'-o',o],stderr=subprocess.PIPE)))
    o=os.path.join(outdir,'shim.o'); objs.append(o)
    procs.append(('shim',subprocess.Popen(['gcc']+flags+['-c',HERE+'/shim.c','-o',o],stderr=subprocess.PIPE)))
    for s,p in procs:
        err=p.communicate()[1]
        if p.returncode: raise RuntimeError('cannot compile %s: %s'%(s,err.decode()[-2000:]))
    subprocess.check_call(['gcc','-shared','-o',so]+objs+['-Wl,-z,now'])
    return so

SZ=C.c_size_t; P=C.c_void_p; I=C.c_int
class Lib:
    def __init__(self, so):
        self.dll=C.CDLL(so)
        d=self.dll
        self._f={}
        for n,rt in [('vp_live',C.c_long),('vp_bad',C.c_long),('vp_count',C.c_long),('vp_guard_new',P),('vp_sizeof',SZ),
                     ('vp_offsetof',SZ),('vp_mpi_new',P),('cry_mpi_count_bits',SZ),('vp_mpi_count_bytes',SZ),
                     ('cry_base64_encode',SZ),('cry_base64_decode',SZ),
                     ('cry_crc16_final',C.c_uint16),('cry_crc16_ccitt',C.c_uint16),('cry_crc16_ibm',C.c_uint16),('cry_crc16_dnp',C.c_uint16),
                     ('cry_crc32_final',C.c_uint32),('cry_crc32_eth',C.c_uint32),('cry_long_inv',C.c_ulong)]:
            f=getattr(d,n); f.restype=rt; self._f[n]=f
        self.arenas=[]; self.ai=0
        for _ in range(16): self.arenas.append(d.vp_guard_new())
        self._so={}
    def __getattr__(self,n):
        f=self.__dict__['_f'].get(n)
        if f is None:
            f=getattr(self.dll,n); f.restype=C.c_int; self._f[n]=f
        def call(*a,f=f):
            return f(*[conv(x) for x in a])
        self.__dict__[n]=call
        return call
    def sizeof(self,t): return self.vp_sizeof(t.encode())
    def offsetof(self,t):
        r=self.vp_offsetof(t.encode()); assert r<1<<32,t; return r
    def sym(self,n): return C.addressof(C.c_char.in_dll(self.dll,n))
    def buf(self,data_or_size,align=1):
        return Buf(self,data_or_size,align)
    def ctx(self,t,fill=0x5a):
        n=self.sizeof(t)
        b=Buf(self,bytes([fill])*n,16); return b
def conv(x):
    if isinstance(x,Buf): return C.c_void_p(x.addr)
    if isinstance(x,(Mpi,)): return C.c_void_p(x.p)
    if x is None: return C.c_void_p(None)
    if isinstance(x,bytes): return C.c_char_p(x)
    if isinstance(x,int): return C.c_size_t(x) if x>=0 else C.c_long(x)
    return x
PRE=64
class Fail(Exception):
    def __init__(self,msg,**inp):
        Exception.__init__(self,msg); self.inp=inp
class Buf:
    """A buffer that ends at an unmapped page (16-aligned ones: at most 15 bytes before it)"""
    def __init__(self,lib,d,align=1):
        self.n=d if isinstance(d,int) else len(d)
        if lib.ai==len(lib.arenas): lib.arenas.append(lib.dll.vp_guard_new())
        end=lib.arenas[lib.ai]; lib.ai+=1
        a=end-self.n; a-=a%align
        self.addr=a; self.slack=end-a-self.n
        C.memset(a-PRE,0xEE,PRE)
        if self.slack: C.memset(a+self.n,0xEE,self.slack)
        if isinstance(d,int): C.memset(a,0x77,self.n)
        else: C.memmove(a,d,self.n)
    def get(self,o=0,n=None):
        self.check()
        return C.string_at(self.addr+o,self.n-o if n is None else n)
    def set(self,o,d): C.memmove(self.addr+o,d,len(d))
    def check(self):
        if C.string_at(self.addr-PRE,PRE)!=b'\xEE'*PRE: raise Fail('write before the start of a buffer')
        if self.slack and C.string_at(self.addr+self.n,self.slack)!=b'\xEE'*self.slack: raise Fail('write past the end of a buffer')
    def at(self,o): return C.c_void_p(self.addr+o)
class CMpi(C.Structure):
    _fields_=[('sign',C.c_int),('used',SZ),('alloc',SZ),('data',C.POINTER(C.c_uint64))]
B64=1<<64
def digits(v):
    v=abs(v);r=[]
    while v: r.append(v%B64); v//=B64
    return r
class Mpi:
    """handle on a cry_mpi"""
    def __init__(self,lib,v=0,extra=0,p=None):
        self.lib=lib; self.own=p is None
        if p is None:
            d=digits(v); n=len(d)
            arr=(C.c_uint64*max(n,1))(*d)
            self.p=lib.vp_mpi_new(1 if v<0 else 0,n,arr,max(n+extra,1))
        else: self.p=p
    @property
    def c(self): return CMpi.from_address(self.p)
    def val(self,canon=True,what='result'):
        c=self.c
        if c.used>c.alloc and c.alloc!=0: raise Fail('%s: used %d > alloc %d'%(what,c.used,c.alloc))
        v=0
        if c.used: v=int.from_bytes(C.string_at(C.cast(c.data,P).value,c.used*8),'little')
        if canon:
            if c.used and c.data[c.used-1]==0: raise Fail('%s is not normalized (leading zero digit)'%what)
            if canon!='mag' and c.used==0 and c.sign!=0: raise Fail('%s is a negative zero'%what)
            if c.sign not in (0,1): raise Fail('%s: bad sign %d'%(what,c.sign))
        return -v if c.sign else v
    def set(self,v):
        d=digits(v); arr=(C.c_uint64*max(len(d),1))(*d)
        self.lib.vp_mpi_set(self,1 if v<0 else 0,len(d),arr)
    def free(self):
        if self.own and self.p: self.lib.vp_mpi_del(self); self.p=None
