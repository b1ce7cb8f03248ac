"""Contracts of the OpenCL host wrappers: a kernel object collects its arguments, a launch runs the kernel's launcher."""
import re
from term import *
import term, prover, mem, exec as X
from mem import *
from exec import *
from contracts import *
import contracts
from quant import deep_atoms
H=[]
def on(pat):
    def d(f): H.append((re.compile(pat),f)); return f
    return d
PROGRAM=Region("program",1,P(1<<20),"opaque")
STR=r"^std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>::"
def text(ex,p):
    """contents of a constant string"""
    if not isinstance(p,Ptr) or p.r is None or p.r.kind!="global" or not p.o.isconst(): raise Unsupported("string is not a constant")
    s=""; i=p.o.cval()
    while True:
        v=p.r.fill(P(i),1)
        if not isc(v): raise Unsupported("string is not a constant")
        if cv(v)==0: return s
        s+=chr(cv(v)); i+=1
@on(STR+r"basic_string(<std::allocator<char> ?>)?\(char const\*, std::allocator<char> const&\)")
def _(ex,S,I,args,dn):
    try: t=text(ex,args[1])
    except Unsupported: t=None
    S.obj[key(args[0])]=Obj("str",text=t)
@on(STR+r"basic_string\(std::__cxx11::basic_string<.*> const&\)")
def _(ex,S,I,args,dn): S.obj[key(args[0])]=obj(S,args[1]).copy()
@on(STR+r"~basic_string\(\)")
def _(ex,S,I,args,dn): S.obj.pop(key(args[0]),None)
@on(r"^\(anonymous namespace\)::\w*[pP]rogram\w*\(\)")
def _(ex,S,I,args,dn):
    ex.notes.append("assumed: GetProgram returns the program built from the kernel text of the same file")
    return Ptr(PROGRAM,ZERO)
CL=r"^multiCL::"
@on(CL+r"OpenCLKernel::OpenCLKernel\(multiCL::OpenCLProgram const&, std::__cxx11::basic_string")
def _(ex,S,I,args,dn):
    if args[1].r is not PROGRAM: raise Unsupported("kernel of another program")
    s=obj(S,args[2],"str")
    if s.text is None: raise Unsupported("unknown kernel name")
    ex.oblige(S,"kernel exists in the program text",TRUE if ex.M.func("__item_"+s.text) else FALSE,s.text)
    S.obj[key(args[0])]=Obj("kernel",name=s.text,n=0)
@on(CL+r"OpenCLKernel::~OpenCLKernel\(\)")
def _(ex,S,I,args,dn): S.obj.pop(key(args[0]),None)
@on(CL+r"OpenCLKernel::reset\(\)")
def _(ex,S,I,args,dn):
    o=obj(S,args[0],"kernel"); S.obj[key(args[0])]=Obj("kernel",name=o.name,n=0)
class _Ty:
    def __init__(s,k,n,size): s.k=k; s.n=n; s.size=size; s.el=None
class I64: k="int"; n=64; size=8
def cellval(ex,S,p,size):
    if p.r is None or p.r.kind!="cell": raise Unsupported("kernel argument is not a local value")
    v=S.cells[p.r].get(p.o.cval())
    if v is None or v[1]!=size: raise Unsupported("kernel argument")
    return v[0]
@on(CL+r"OpenCLKernel::_setArgument\(unsigned long, void const\*\)")
def _(ex,S,I,args,dn):
    k=key(args[0]); o=obj(S,args[0],"kernel").copy(); z=ex.canonU(S,args[1],64)
    if not z.isconst(): raise Unsupported("argument size")
    n=o.f["n"]; o.f[f"s{n}"]=z.cval(); o.f[f"a{n}"]=cellval(ex,S,args[2],z.cval()); o.f["n"]=n+1
    S.obj[k]=o
def launch(dim):
    def h(ex,S,I,args,dn):
        o=obj(S,args[0],"kernel"); size=[ex.canonU(S,a,64) for a in args[1:1+dim]]
        F=ex.M.func(f"__launch{dim}_{o.name}")
        if F is None: raise Unsupported("no launcher for "+o.name)
        G=ex.M.func("__item_"+o.name)
        n=len(F.params)-dim
        ok=o.n==n and all(o.f[f"s{i}"]==F.params[i].ty.size for i in range(n))
        ex.oblige(S,"launch: the arguments match the kernel",TRUE if ok else FALSE,f"{o.name}: {o.n} of {n} {[(o.f.get('s%d'%i),F.params[i].ty.size) for i in range(n)]}")
        if not ok: return ("states",[])
        a=[]
        for i in range(n):
            v=o.f[f"a{i}"]; ty=F.params[i].ty
            if ty.k=="ptr": 
                if not isinstance(v,Ptr): raise Unsupported("pointer argument")
            elif ty.n==8:
                if isinstance(v,Bool): v=ite(v,bvc(1,8),bvc(0,8))
                v=tobv(v,8)
            else: v=ex.canonU(S,v,ty.n)
            a.append(v)
        isolated(ex,S,G,a,size,o.name)
        outside(ex,S,G,a,size,o.name)
        before=dict(S.env)
        res=[]
        for z in ex.explore2(F,S.copy(),a+size):
            if z.k=="ret": z.S.env={**before,**{k:v for k,v in z.S.env.items() if k in before}}; res.append(("next",z.S,None))
            elif z.k=="throw": res.append(("throw",z.S,z.v))
        return ("states",res)
    return h
for d in(1,2): H.append((re.compile(CL+r"launchKernel%dD\("%d),launch(d)))
def item(ex,S,G,a,ids):
    A=S.copy(); ids=ids+[ZERO]*(3-len(ids))
    return ex.explore2(G,A,a+ids),A
def ids(S,size):
    v=[var(f"gid{i}",0,(1<<40),fresh=True) for i in range(len(size))]
    return v
def outside(ex,S,G,a,size,name):
    """work-items beyond the requested range (the global size is rounded up) change nothing"""
    q=ex.M.func
    for d in range(len(size)):
        A=S.copy(); v=ids(A,size)
        fs=[le(size[d],v[d])]+[lt(v[i],size[i]) for i in range(d)]
        A.facts+=[f for f in fs if f is not TRUE]; A.depth+=1
        if not A.feasible(): continue
        outs=[z for z in ex.explore2(G,A,a+v+[ZERO]*(3-len(v))) if z.S.feasible()]
        for z in outs:
            if z.k!="ret": raise Unsupported("kernel leaves by exception")
            ok=all(z.S.mem.get(r,INIT) is nd for r,nd in S.mem.items()) or len(outs)==1 and same_for_all(S,z.S,v)
            ex.obls.append(Obl("C18 work-items outside the range write nothing",name,TRUE if ok else FALSE,list(z.S.facts),ok,ex.fname))
def same_for_all(S,Z,v):
    """every work-item, inside the range or not, performs the same writes of the same constant values"""
    at={atom_of(x) for x in v}
    for r,nd in S.mem.items():
        n=Z.mem.get(r,INIT)
        while n is not nd:
            if not isinstance(n,Node_) or n.kind!="set": return False
            for t in n.ts:
                if t.idx or t.guard is not TRUE or t.val is None: return False
                for x in(t.off,t.val):
                    if collect(x,lambda y:y.op in("rd","lp")) or (set(deep_atoms(x,"var"))&at): return False
            n=n.prev
    return True
def isolated(ex,S,G,a,size,name):
    """two different work-items never touch the same element, one of them writing, unless both accesses are atomic
    or both write the same value: the order of execution does not matter"""
    A=S.copy(); v=ids(A,size); A.facts+=[lt(v[i],size[i]) for i in range(len(size))]; A.depth+=1
    acc=ex.access=[]
    try: ex.explore2(G,A,a+v+[ZERO]*(3-len(v)))
    finally: ex.access=None
    u=ids(A,size); f=Subst({atom_of(x):y for x,y in zip(v,u)})
    n=len(v); orders=[]
    for d in reversed(range(n)):
        same=[eq(v[e],u[e]) for e in range(d+1,n)]
        orders+=[same+[lt(v[d],u[d])],same+[lt(u[d],v[d])]]
    W=[x for x in acc if x[0]=="write"]
    for k,r,o,sz,St,vol,val in acc:
        for _,r2,o2,sz2,St2,vol2,val2 in W:
            if r2 is not r or (vol and vol2): continue
            if k=="write" and val is not None and val2 is not None and val==val2 and not any(collect(x,lambda y:y.op in("rd","lp")) or set(deep_atoms(x,"var"))&{atom_of(y) for y in v} for x in val): continue
            O=f(o2); ok=True
            hit=[eq(o,O)] if sz==sz2==r.es else [lt(o,O+sz2),lt(O,o+sz)]
            for od in orders:
                fs=[x for x in St.facts+[f(x) for x in St2.facts]+od+hit if x is not TRUE]
                if FALSE in fs: continue
                if not prover.is_unsat(fs,TRUE): ok=False; break
            ex.obls.append(Obl("C18 work-items are independent of each other",f"{name}: {k} {r}+{o} against write +{o2}",TRUE if ok else FALSE,list(St.facts),ok,ex.fname))
# ---------------------------------------------------------------- device copies of host data
ARR=CL+r"(?:Array|Type)<(unsigned char|unsigned int)>::"
AES={"unsigned char":1,"unsigned int":4}
def copyvec(S,o,name):
    r=Region(name+str(next(X._und)),o.data.es,o.data.size,"data"); r.snapshot=(o.data,S.mem.get(o.data,INIT)); r.fresh=True; S.mem[r]=INIT
    n=o.copy(); n.f["data"]=r; return n
@on(CL+r"Array<(unsigned char|unsigned int)>::Array\(std::vector")
def _(ex,S,I,args,dn):
    S.obj[key(args[0])]=copyvec(S,obj(S,args[1],"vec"),"dev")
@on(CL+r"Array<(unsigned char|unsigned int)>::data\(\)|"+CL+r"Type<(unsigned char|unsigned int)>::data\(\)")
def _(ex,S,I,args,dn): return Ptr(obj(S,args[0],"vec").data,ZERO)
@on(CL+r"Array<(unsigned char|unsigned int)>::size\(\)")
def _(ex,S,I,args,dn): return obj(S,args[0],"vec").n
@on(CL+r"Array<(unsigned char|unsigned int)>::get\(\)")
def _(ex,S,I,args,dn): S.obj[key(args[0])]=copyvec(S,obj(S,args[1],"vec"),"host")
@on(CL+r"(?:Array|Type)<(unsigned char|unsigned int)>::~(?:Array|Type)\(\)")
def _(ex,S,I,args,dn): S.obj.pop(key(args[0]),None)
@on(CL+r"Type<(unsigned char|unsigned int)>::Type\(unsigned (char|int) const&\)")
def _(ex,S,I,args,dn):
    es=AES[re.search(r"Type<([^>]*)>",dn).group(1)]
    S.obj[key(args[0])]=vec_fresh(S,es,ONE,vfill(es,ldval(ex,S,args[1],es)),name="dev")
@on(CL+r"Type<(unsigned char|unsigned int)>::get\(\)")
def _(ex,S,I,args,dn):
    o=obj(S,args[0],"vec"); return S.read(o.data,ZERO,o.data.es)
@on(r"^std::vector<unsigned int, std::allocator<unsigned int> >::vector\(std::initializer_list<unsigned int>")
def _(ex,S,I,args,dn):
    n=ex.canonU(S,args[2],64); o=vec_fresh(S,4,n); S.obj[key(args[0])]=o
    copy_region(ex,S,o.data,ZERO,args[1].r,args[1].o,n*4,"initializer_list")
# ---------------------------------------------------------------- transfers and device images
@on(CL+r"(write|read)Buffer\(")
def _(ex,S,I,args,dn):
    d,n,h=args[0],ex.canonU(S,args[1],64),args[2]
    if "write" in dn: copy_region(ex,S,d.r,d.o,h.r,h.o,n,"writeBuffer")
    else: copy_region(ex,S,h.r,h.o,d.r,d.o,n,"readBuffer")
@on(CL+r"openCLCheck\(int\)")
def _(ex,S,I,args,dn): return None
DEV=Region("device",1,P(1<<20),"opaque")
@on(CL+r"OpenCL(DeviceManager|Device|Queue|Context)::")
def _(ex,S,I,args,dn): return Ptr(DEV,ZERO)
@on(r"^clEnqueue(Write|Read)BufferRect$")
def _(ex,S,I,args,dn):
    dev=args[1]; host=args[10]
    def arr(p): return [ex.canonU(S,cellval2(ex,S,p,i),64) for i in range(3)]
    bo,ho,rg=arr(args[3]),arr(args[4]),arr(args[5])
    brp,bsp,hrp,hsp=[ex.canonU(S,x,64) for x in args[6:10]]
    if not (rg[2].isconst() and rg[2].cval()==1): raise Unsupported(f"3D transfer")
    z=lambda v: v.isconst() and v.cval()==0
    if not(z(bsp) and z(hsp)): raise Unsupported("slice pitch")
    w,h=rg[0],rg[1]
    def pitch(p):
        c=S.simp(eq0(p))
        if c is TRUE: return w
        if c is not FALSE: raise NeedFork(c)
        return p
    brp,hrp=pitch(brp),pitch(hrp)
    D=(dev.r,dev.o+bo[1]*brp+bo[0],brp); Hh=(host.r,host.o+ho[1]*hrp+ho[0],hrp)
    dst,src=(D,Hh) if "Write" in dn else (Hh,D)
    ex.oblige(S,"C18 transfer row pitch covers the row",band(le(w,brp),le(w,hrp)),dn)
    if dst[0].es!=1 or src[0].es!=1: raise Unsupported("transfer of other elements")
    for q,what in((src,"read in bounds"),(dst,"write in bounds")):
        ex.oblige(S,what,ge0(q[1]),dn); ex.oblige(S,what,ge0(S.rsize(q[0])-q[1]-(h-1)*q[2]-w),dn)
    if dst[0].ro: ex.oblige(S,"write to read-only object",FALSE,dn)
    r=var("r",0,None,fresh=True,kind="idx"); k=var("k",0,None,fresh=True,kind="idx"); ra,ka=atom_of(r),atom_of(k); n=len(S.trace)
    C=S.copy(); C.facts+=[ge0(r),ge0(h-r-1),ge0(k),ge0(w-k-1)]
    v=read_ite(C,src[0],S.mem.get(src[0],INIT),src[1]+r*src[2]+k,1)
    S.mem[dst[0]]=Node_(S.mem.get(dst[0],INIT),[T([(ra,h),(ka,w)],dst[1]+r*dst[2]+k,1,v,TRUE,(n,ra,ka))]); S.trace.append(("transfer",))
    return ZERO
def cellval2(ex,S,p,i):
    if p.r.kind=="global": return p.r.fill(p.o+8*i,8)
    if p.r.kind!="cell": return S.read(p.r,p.o+8*i,8)
    return ex.loadcell(S,Ptr(p.r,p.o+8*i),I64)
@on(r"^penguinV::ImageTemplateOpenCL<unsigned char>::ImageTemplateOpenCL\(unsigned int, unsigned int, unsigned char, unsigned char\)")
def _(ex,S,I,args,dn):
    S.obj[key(args[0])]=make(ex,S,*[topoly(a) for a in args[1:5]],bvc(3,8),1)
@on(r"^penguinV::ImageTemplateOpenCL<unsigned char>::~ImageTemplateOpenCL\(\)")
def _(ex,S,I,args,dn): S.obj.pop(key(args[0]),None)
contracts.HANDLERS[:0]=H
def keep(d):
    return d.startswith(("multiCL::OpenCLKernel::_","multiCL::OpenCLKernel::OpenCLKernel","multiCL::OpenCLKernel::~","multiCL::Array<","multiCL::Type<","multiCL::launch","multiCL::openCL","multiCL::OpenCLDevice","multiCL::OpenCLQueue","multiCL::read","multiCL::write","std::__cxx11::basic_string<","penguinV::ImageTemplateOpenCL<")) or \
        bool(re.match(r"\(anonymous namespace\)::\w*[pP]rogram\w*\(\)",d)) or bool(re.match(r"(?:void )?multiCL::OpenCLKernel::reset",d))
