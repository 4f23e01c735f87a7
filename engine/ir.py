"""Extraction of LLVM IR from /repo's sources and a parser for it.

   clang -O0 (no optnone) | opt sroa,instsimplify,simplifycfg,loop-simplify,lcssa
   The front end (clang) and these passes are trusted; nothing of the functions is dropped."""
import os,re,subprocess,hashlib,sys,tempfile
REPO=os.environ.get('CRY_REPO','/repo')
CFLAGS=['-I'+REPO+'/include','-I'+REPO+'/src']
PASSES='sroa,instsimplify,simplifycfg,loop-simplify,lcssa'
class Unsupported(Exception): pass
# ------------------------------------------------------------------ types
# ('i',w) ('ptr',) ('arr',n,t) ('st',(t..),packed) ('void',)
class Ty:
    __slots__=('k','a','_sz','_al')
    def __init__(s,k,*a): s.k=k;s.a=a;s._sz=None;s._al=None
    def __repr__(s): return s.k+repr(s.a)
TOK=re.compile(r'\s*(c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*"|"[^"]*"|%"[^"]*"|@"[^"]*"|[%@][-\w.$]+|![-\w.]*|#\d+|-?\d+\.\d+(?:e[+-]?\d+)?|0x[0-9A-Fa-f]+|-?\d+|\.\.\.|[A-Za-z_][\w.]*|[()\[\]{}<>,=*])')
def toks(s):
    r=[];p=0;n=len(s)
    while p<n:
        m=TOK.match(s,p)
        if not m:
            if s[p:].strip()=='' : break
            if s[p:].lstrip().startswith(';'): break
            raise Unsupported('token '+s[p:p+40])
        r.append(m.group(1)); p=m.end()
    return r
ATTR={'noundef','nonnull','noalias','nocapture','readonly','writeonly','readnone','signext','zeroext','returned','immarg','inreg','nofree','noreturn','nounwind','willreturn','allocsize','dso_local','local_unnamed_addr','unnamed_addr','internal','private','constant','global','external','common','linkonce_odr','weak','hidden','nsw','nuw','exact','inbounds','volatile','tail','musttail','notail','disjoint','nneg','weak_odr','fastcc','ccc','allocptr','mustprogress'}
class P:
    def __init__(s,ts,mod): s.t=ts;s.i=0;s.m=mod
    def peek(s): return s.t[s.i] if s.i<len(s.t) else None
    def next(s): s.i+=1; return s.t[s.i-1]
    def eat(s,x):
        if s.peek()!=x: raise Unsupported('expected %s at %s'%(x,' '.join(s.t[s.i:s.i+6])))
        s.i+=1
    def opt(s,x):
        if s.peek()==x: s.i+=1; return True
        return False
    def attrs(s):
        while True:
            t=s.peek()
            if t in ATTR: s.i+=1
            elif t in('align','dereferenceable','dereferenceable_or_null','captures','range','byval','sret','elementtype','addrspace'):
                s.i+=1
                if s.peek()=='(':
                    d=0
                    while True:
                        x=s.next()
                        if x=='(': d+=1
                        elif x==')':
                            d-=1
                            if d==0: break
                elif s.peek() and s.peek().isdigit(): s.i+=1
            else: break
    def type(s):
        t=s.next()
        if t[0]=='i' and t[1:].isdigit(): r=Ty('i',int(t[1:]))
        elif t=='ptr': r=Ty('ptr')
        elif t=='void': r=Ty('void')
        elif t=='[':
            n=int(s.next()); s.eat('x'); e=s.type(); s.eat(']'); r=Ty('arr',n,e)
        elif t=='{':
            l=[]
            if not s.opt('}'):
                while True:
                    l.append(s.type())
                    if s.opt('}'): break
                    s.eat(',')
            r=Ty('st',tuple(l),False)
        elif t=='<' and s.peek()=='{':
            r=s.type(); s.eat('>'); r=Ty('st',r.a[0],True)
        elif t[0]=='%': return Ty('name',t[1:].strip('"'))
        elif t in('double','float','metadata','label','token','x86_fp80'): r=Ty(t)
        else: raise Unsupported('type '+t)
        while s.peek()=='(' : # function type
            d=0
            while True:
                x=s.next()
                if x=='(': d+=1
                elif x==')':
                    d-=1
                    if d==0: break
        return r
    def value(s,ty):
        """operand of the given type: ('c',int) ('l',name) ('g',name) ('null',) ('undef',) ('agg',[..]) ('str',bytes) ('zero',) ('ce',op,...)"""
        t=s.next()
        if t[0]=='%': return ('l',t[1:].strip('"'))
        if t[0]=='@': return ('g',t[1:].strip('"'))
        if t[0]=='-' or t[0].isdigit():
            if '.' in t or t.startswith('0x'): return ('f',t)
            return ('c',int(t))
        if t=='true': return ('c',1)
        if t=='false': return ('c',0)
        if t=='null': return ('null',)
        if t in('undef','poison'): return ('undef',)
        if t=='zeroinitializer': return ('zero',)
        if t.startswith('c"'):
            b=bytearray();i=2;e=len(t)-1
            while i<e:
                if t[i]=='\\':
                    if t[i+1]=='\\': b.append(92); i+=2
                    else: b.append(int(t[i+1:i+3],16)); i+=3
                else: b+=t[i].encode('latin-1'); i+=1
            return ('str',bytes(b))
        if t in('[','{','<'):
            cl={'[':']','{':'}','<':'>'}[t]
            if t=='<' and s.peek()=='{':
                r=s.value(ty); s.eat('>'); return r
            l=[]
            if not s.opt(cl):
                while True:
                    et=s.type(); l.append((et,s.value(et)))
                    if s.opt(cl): break
                    s.eat(',')
            return ('agg',l)
        if t=='getelementptr':
            s.attrs(); s.eat('('); bt=s.type(); s.eat(',')
            pt=s.type(); p=s.value(pt); idx=[]
            while s.opt(','):
                s.opt('inrange'); it=s.type(); idx.append((it,s.value(it)))
            s.eat(')'); return ('ce','gep',bt,p,idx)
        if t in('ptrtoint','inttoptr','bitcast','trunc','zext','sext'):
            s.eat('('); a=s.type(); v=s.value(a); s.eat('to'); b=s.type(); s.eat(')'); return ('ce',t,a,v,b)
        if t in('add','sub','mul','xor','and','or','shl'):
            s.attrs(); s.eat('('); a=s.type(); v=s.value(a); s.eat(','); b=s.type(); v2=s.value(b); s.eat(')'); return ('ce',t,a,v,v2)
        raise Unsupported('value '+t)
class Ins:
    __slots__=('op','d','ty','a','x','line')
    def __init__(s,op,d,ty,a,x=None): s.op=op;s.d=d;s.ty=ty;s.a=a;s.x=x;s.line=None
    def __repr__(s): return '%s=%s %s %s %s'%(s.d,s.op,s.ty,s.a,s.x)
class Block:
    def __init__(s,name): s.name=name;s.ins=[];s.phis=[];s.succ=[]
class Fn:
    def __init__(s,name,mod): s.name=name;s.mod=mod;s.args=[];s.blocks={};s.entry=None;s.ret=None;s._an=None;s.lines=None
    def parse(s):
        if s.lines is None: return s
        L=s.lines; s.lines=None; cur=None
        i=0
        while i<len(L):
            l=L[i]; i+=1
            if l.startswith('  switch '):
                while not l.rstrip().endswith(']'): l+=' '+L[i]; i+=1
            st=l.strip()
            if not st or st.startswith(';'): continue
            m=re.match(r'^("[^"]*"|[-\w.$]+):',l)
            if m:
                cur=Block(m.group(1).strip('"')); s.blocks[cur.name]=cur
                if s.entry is None: s.entry=cur.name
                continue
            if cur is None:
                cur=Block('%entry'); s.blocks[cur.name]=cur; s.entry=cur.name
            st=re.sub(r'(, !\w[\w.]* !\d+)+$','',st); st=re.sub(r' #\d+$','',st)
            try: ins=s.pi(st,cur)
            except Unsupported: raise
            except Exception as e: raise Unsupported('parse: %s (%s)'%(st,e))
            ins.line=st
            (cur.phis if ins.op=='phi' else cur.ins).append(ins)
        # unnamed entry label: numbered
        for b in s.blocks.values():
            t=b.ins[-1]
            if t.op=='br': b.succ=[t.a[0]] if len(t.a)==1 else [t.a[1],t.a[2]]
            elif t.op=='switch': b.succ=list(dict.fromkeys([t.a[1]]+[x[1] for x in t.x]))
        return s
    def pi(s,st,cur):
        p=P(toks(st),s.mod); d=None
        if p.t[0][0]=='%' and p.t[1]=='=': d=p.t[0][1:].strip('"'); p.i=2
        op=p.next()
        while op in('tail','musttail','notail'): op=p.next()
        if op in('add','sub','mul','udiv','sdiv','urem','srem','and','or','xor','shl','lshr','ashr'):
            p.attrs(); ty=p.type(); a=p.value(ty); p.eat(','); b=p.value(ty); return Ins(op,d,ty,[a,b])
        if op=='icmp':
            pr=p.next(); ty=p.type(); a=p.value(ty); p.eat(','); b=p.value(ty); return Ins(op,d,ty,[a,b],pr)
        if op=='select':
            t1=p.type(); c=p.value(t1); p.eat(','); ty=p.type(); a=p.value(ty); p.eat(','); p.type(); b=p.value(ty); return Ins(op,d,ty,[c,a,b])
        if op=='phi':
            ty=p.type(); l=[]
            while True:
                p.eat('['); v=p.value(ty); p.eat(','); l.append((v,p.next()[1:].strip('"'))); p.eat(']')
                if not p.opt(','): break
            return Ins(op,d,ty,l)
        if op=='load':
            p.attrs(); ty=p.type(); p.eat(','); pt=p.type(); return Ins(op,d,ty,[p.value(pt)])
        if op=='store':
            p.attrs(); ty=p.type(); v=p.value(ty); p.eat(','); pt=p.type(); return Ins(op,d,ty,[v,p.value(pt)])
        if op=='getelementptr':
            p.attrs(); bt=p.type(); p.eat(','); pt=p.type(); v=p.value(pt); idx=[]
            while p.opt(','):
                it=p.type(); idx.append((it,p.value(it)))
            return Ins('gep',d,bt,[v],idx)
        if op in('zext','sext','trunc','ptrtoint','inttoptr','bitcast'):
            p.attrs(); a=p.type(); v=p.value(a); p.eat('to'); b=p.type(); return Ins(op,d,b,[v],a)
        if op=='freeze':
            a=p.type(); return Ins(op,d,a,[p.value(a)])
        if op=='br':
            if p.opt('label'): return Ins('br',None,None,[p.next()[1:].strip('"')])
            t=p.type(); c=p.value(t); p.eat(','); p.eat('label'); x=p.next()[1:].strip('"'); p.eat(','); p.eat('label'); y=p.next()[1:].strip('"')
            return Ins('br',None,None,[c,x,y])
        if op=='switch':
            ty=p.type(); v=p.value(ty); p.eat(','); p.eat('label'); df=p.next()[1:].strip('"'); p.eat('['); cs=[]
            while not p.opt(']'):
                t=p.type(); k=p.value(t); p.eat(','); p.eat('label'); cs.append((k[1],p.next()[1:].strip('"')))
            return Ins('switch',None,ty,[v,df],cs)
        if op=='ret':
            if p.peek()=='void': return Ins('ret',None,None,[])
            ty=p.type(); return Ins('ret',None,ty,[p.value(ty)])
        if op=='unreachable': return Ins(op,None,None,[])
        if op=='alloca':
            ty=p.type(); n=('c',1)
            if p.opt(','):
                if p.peek()!='align': t=p.type(); n=p.value(t)
            return Ins(op,d,ty,[n])
        if op=='call':
            p.attrs(); ty=p.type(); 
            f=p.value(Ty('ptr')); p.eat('('); args=[]
            if not p.opt(')'):
                while True:
                    t=p.type(); p.attrs(); args.append((t,p.value(t)))
                    if p.opt(')'): break
                    p.eat(',')
            return Ins(op,d,ty,[f],args)
        if op in('extractvalue','insertvalue'): raise Unsupported(op)
        raise Unsupported('instruction '+op)
    # ---- control flow analysis
    def an(s):
        if s._an: return s._an
        s.parse()
        names=list(s.blocks); preds={n:[] for n in names}
        for n in names:
            for x in s.blocks[n].succ: preds[x].append(n)
        # dominators
        order=[];seen=set()
        def dfs(n):
            st=[(n,iter(s.blocks[n].succ))]; seen.add(n)
            while st:
                x,it=st[-1]
                for y in it:
                    if y not in seen: seen.add(y); st.append((y,iter(s.blocks[y].succ))); break
                else: st.pop(); order.append(x)
        dfs(s.entry); rpo=order[::-1]; num={n:i for i,n in enumerate(rpo)}
        dom={n:set(rpo) for n in rpo}; dom[s.entry]={s.entry}; ch=True
        while ch:
            ch=False
            for n in rpo[1:]:
                ps=[dom[q] for q in preds[n] if q in num]
                d=set.intersection(*ps)|{n} if ps else {n}
                if d!=dom[n]: dom[n]=d; ch=True
        loops={}
        for n in rpo:
            for y in s.blocks[n].succ:
                if y in dom[n]: # back edge n->y
                    body=loops.setdefault(y,{y}); st=[n]
                    while st:
                        q=st.pop()
                        if q in body: continue
                        body.add(q); st.extend(preds[q])
        # post dominators
        EX='$exit'; pd={n:set(rpo)|{EX} for n in rpo}; pd[EX]={EX}; ch=True
        while ch:
            ch=False
            for n in reversed(rpo):
                su=[x for x in s.blocks[n].succ] or [EX]
                d=set.intersection(*[pd[x] for x in su])|{n}
                if d!=pd[n]: pd[n]=d; ch=True
        ipd={}
        for n in rpo:
            c=pd[n]-{n}
            # immediate: the one whose postdominators are exactly c
            for x in c:
                if pd[x]==c: ipd[n]=x; break
        s._an=dict(preds=preds,rpo=rpo,dom=dom,loops=loops,ipd=ipd)
        return s._an
class Module:
    def __init__(s,path,text):
        s.path=path; s.types={}; s.globals={}; s.fns={}; s.decl=set()
        lines=text.split('\n'); i=0
        while i<len(lines):
            l=lines[i]; i+=1
            if l.startswith('%'):
                m=re.match(r'^%("[^"]*"|[-\w.$]+) = type (.*)$',l)
                if m: s.types[m.group(1).strip('"')]=m.group(2)
            elif l.startswith('@'):
                m=re.match(r'^@("[^"]*"|[-\w.$]+) = (.*)$',l); s.globals[m.group(1).strip('"')]=m.group(2)
            elif l.startswith('define'):
                m=re.match(r'^define .*?@([-\w.$]+)\((.*)\)[^)]*\{$',l)
                f=Fn(m.group(1),s); p=P(toks(l[l.index('@'+f.name)+len(f.name)+1:]),s); p.eat('(')
                f.internal=' internal ' in l[:l.index('@')]
                if not p.opt(')'):
                    while True:
                        if p.opt('...'): p.eat(')'); f.va=True; break
                        t=p.type(); p.attrs(); n=p.next(); f.args.append((n[1:],t))
                        if p.opt(')'): break
                        p.eat(',')
                b=[]
                while lines[i]!='}': b.append(lines[i]); i+=1
                i+=1; f.lines=b; s.fns[f.name]=f
            elif l.startswith('declare'):
                m=re.search(r'@([-\w.$]+)\(',l); s.decl.add(m.group(1))
        s._ty={}
    def ty(s,t):
        """resolve a named type"""
        if t.k=='name':
            r=s._ty.get(t.a[0])
            if r is None:
                p=P(toks(s.types[t.a[0]]),s); r=s._ty[t.a[0]]=p.type()
            return s.ty(r)
        return t
    def align(s,t):
        t=s.ty(t)
        if t._al: return t._al
        k=t.k
        if k=='i': r=1 if t.a[0]<=8 else 2 if t.a[0]<=16 else 4 if t.a[0]<=32 else 8 if t.a[0]<=64 else 16
        elif k=='ptr': r=8
        elif k=='arr': r=s.align(t.a[1])
        elif k=='st': r=1 if t.a[1] or not t.a[0] else max(s.align(x) for x in t.a[0])
        elif k=='double': r=8
        elif k=='float': r=4
        else: raise Unsupported('align '+k)
        t._al=r; return r
    def size(s,t):
        t=s.ty(t)
        if t._sz is not None: return t._sz
        k=t.k
        if k=='i': r=(t.a[0]+7)//8; a=s.align(t); r=(r+a-1)//a*a
        elif k=='ptr': r=8
        elif k=='arr': r=t.a[0]*s.size(t.a[1])
        elif k=='st':
            o=0
            for x in t.a[0]:
                if not t.a[1]: a=s.align(x); o=(o+a-1)//a*a
                o+=s.size(x)
            a=s.align(t); r=(o+a-1)//a*a
        elif k=='double': r=8
        elif k=='float': r=4
        else: raise Unsupported('size '+k)
        t._sz=r; return r
    def off(s,t,i):
        t=s.ty(t); o=0
        for j,x in enumerate(t.a[0]):
            if not t.a[1]: a=s.align(x); o=(o+a-1)//a*a
            if j==i: return o
            o+=s.size(x)
_cache={}
WORK=[None]
def workdir():
    if WORK[0] is None: WORK[0]=tempfile.mkdtemp(prefix='cryir'); import atexit,shutil; atexit.register(lambda:shutil.rmtree(WORK[0],ignore_errors=True))
    return WORK[0]
def module(rel,defs=()):
    """module of /repo/<rel>, from the current source"""
    k=(rel,tuple(defs))
    if k in _cache: return _cache[k]
    src=os.path.join(REPO,rel); wd=workdir(); out=os.path.join(wd,rel.replace('/','_')+hashlib.md5(repr(defs).encode()).hexdigest()[:6])
    r=subprocess.run(['clang','-O0','-Xclang','-disable-O0-optnone','-fno-discard-value-names','-w','-S','-emit-llvm']+CFLAGS+list(defs)+[src,'-o',out+'.0.ll'],capture_output=True,text=True)
    if r.returncode: raise Unsupported('clang %s: %s'%(rel,r.stderr[:300]))
    r=subprocess.run(['opt','-S','-passes='+PASSES,out+'.0.ll','-o',out+'.ll'],capture_output=True,text=True)
    if r.returncode: raise Unsupported('opt %s: %s'%(rel,r.stderr[:300]))
    m=_cache[k]=Module(rel,open(out+'.ll').read()); return m
def preload():
    """every module of /repo/src; a source that does not compile is reported when it is used"""
    from concurrent.futures import ThreadPoolExecutor
    def one(x):
        try: module(x)
        except Unsupported: pass
    workdir()
    with ThreadPoolExecutor(8) as p: list(p.map(one,sources()))
def sources():
    r=[]
    for d,_,fs in os.walk(os.path.join(REPO,'src')):
        for f in sorted(fs):
            if f.endswith('.c'): r.append(os.path.relpath(os.path.join(d,f),REPO))
    return sorted(r)
if __name__=='__main__':
    n=0
    for s in sources():
        m=module(s)
        for f in m.fns.values():
            try: f.parse(); f.an(); n+=1
            except Unsupported as e: print(s,f.name,e)
    print(n,'functions')
