"""Contracts of library and container functions (assumed), and of project functions (proved elsewhere) used at call sites."""
import re
from term import *
import term, prover, mem
from mem import *
from exec import *
from exec import _und
import exec as X

U32=(1<<32)-1
def img_region(name,es,rs,h): 
    r=Region(name,es,rs*h*es,"data"); return r

def new_image(S,name,es,maybe_empty=True,bytes_limit=True):
    """symbolic image parameter: either empty or satisfying the class invariant"""
    o=Obj("image")
    w=var(f"w_{name}",1,U32); h=var(f"h_{name}",1,U32); cc=var(f"cc_{name}",1,255); rs=var(f"rs_{name}",1,U32); al=var(f"al_{name}",1,255)
    r=img_region(name,es,rs,h)
    o.f=dict(E=bvar(f"empty_{name}") if maybe_empty else FALSE,w=w,h=h,cc=cc,rs=rs,al=al,data=r,es=P(es),type=bvvar(f"type_{name}",8))
    S.mem[r]=INIT
    S.facts+= [ge0(rs-w*cc), ge0(P(U32)-rs*h)]
    return o
def put_obj(S,name,o,size=40):
    r=Region(name,1,P(size),"cell"); S.cells[r]={}; S.obj[(r,0)]=o
    return Ptr(r,ZERO)
def key(p):
    if not isinstance(p,Ptr) or p.r is None or not p.o.isconst(): raise Unsupported(f"object at {p}")
    return (p.r,p.o.cval())
def obj(S,p,kind=None):
    o=S.obj.get(key(p))
    if o is None: raise Unsupported(f"no object at {p}")
    if kind and o.kind!=kind: raise Unsupported(f"object kind {o.kind}")
    return o
def emptiness(S,o):
    e=S.simp(o.f["E"])
    if e is TRUE or e is FALSE: return e is TRUE
    raise NeedFork(o.f["E"])
def blank_image(cc=ONE,al=ONE,type_=None,es=1):
    return Obj("image",E=TRUE,w=ZERO,h=ZERO,cc=cc,rs=ZERO,al=al,data=None,es=P(es),type=type_ if type_ is not None else bvc(0,8))
def fresh_image(ex,S,w,h,cc,al,type_,es,name="new"):
    """result of resize on an empty image with given positive sizes"""
    if al.isconst() and al.cval()==1: rs=w*cc
    else:
        rs=var("rs_"+name,1,U32,fresh=True)
        S.facts+=[ge0(rs-w*cc),ge0(w*cc+al-1-rs),eq0(fmod(rs,al)) if al.isconst() else TRUE]
        S.facts=[f for f in S.facts if f is not TRUE]
    S.facts+=[ge0(P(U32)-rs*h)]
    ex.notes.append("assumed: newly created images are smaller than 4 GiB")
    r=Region(f"{name}{next(_und)}",es,rs*h*es,"data"); r.fresh=True
    S.mem[r]=INIT
    return Obj("image",E=FALSE,w=w,h=h,cc=cc,rs=rs,al=al,data=r,es=P(es),type=type_)

PURE=re.compile(r"penguinV::ImageTemplate<unsigned (char|short)>::(width|height|rowSize|colorCount|alignment|empty|data|type)\(\)|std::vector<.*>::(size|data|empty|begin|end|cbegin|cend)\(\)( const)?$|std::vector<.*>::operator\[\]")
class Contracts:
    def __init__(s,M=None): s.h=[]; s.api={}; s.memo={}; s.M=M; s.edges=set()
    def lookup(s,name,dn):
        if name in s.memo: return s.memo[name]
        r=None
        if dn in s.api: r=s.api[dn]
        else:
            for pat,f in HANDLERS:
                if pat.search(dn): r=f; break
            if r is None:
                import api
                r=api.handler(dn,s.M,name)
                if r is not None: s.api[dn]=r
        s.memo[name]=r
        return r
    def pure(s,name,dn): return bool(PURE.search(dn))
    def indirect(s,ex,S,I,v,args): raise Unsupported(f"indirect call through {v}")
HANDLERS=[]
def on(pat):
    def d(f): HANDLERS.append((re.compile(pat),f)); return f
    return d
IMG=r"^penguinV::ImageTemplate<unsigned (?:char|short)>::"
def es_of(dn): return 2 if "ImageTemplate<unsigned short>" in dn.split("::ImageTemplate(")[0] or "<unsigned short>::" in dn else 1
def getter(field):
    def f(ex,S,I,args,dn):
        o=obj(S,args[0],"image")
        if field in("w","h","rs") and emptiness(S,o): return ZERO
        v=o.f[field]
        return tobv(v,8) if field in("cc","al") else v
    return f
for nm,fl in(("width","w"),("height","h"),("rowSize","rs"),("colorCount","cc"),("alignment","al"),("type","type")):
    HANDLERS.append((re.compile(IMG+nm+r"\(\)"),getter(fl)))
@on(IMG+r"empty\(\)")
def _(ex,S,I,args,dn):
    o=obj(S,args[0],"image"); return bconst(emptiness(S,o))
@on(IMG+r"data\(\)")
def _(ex,S,I,args,dn):
    o=obj(S,args[0],"image")
    if emptiness(S,o): return NULL
    return Ptr(o.data,ZERO)
def clone_image(ex,S,o):
    n=o.copy()
    if emptiness(S,o): n.f["data"]=None; return n
    r=Region(o.data.name+"'",o.data.es,o.data.size,"data"); r.snapshot=(o.data,S.mem.get(o.data,INIT)); r.fresh=True
    # the snapshot keeps the memory as it is now
    S.mem[r]=INIT
    n.f["data"]=r
    return n
@on(IMG+r"ImageTemplate\(penguinV::ImageTemplate<unsigned (char|short)> const&\)")
def _(ex,S,I,args,dn):
    n=clone_image(ex,S,obj(S,args[1],"image")); S.obj[key(args[0])]=n
@on(IMG+r"ImageTemplate\(penguinV::ImageTemplate<unsigned (char|short)>&&\)")
def _(ex,S,I,args,dn):
    o=obj(S,args[1],"image"); S.obj[key(args[0])]=o.copy(); S.obj[key(args[1])]=Obj("moved")   # valid but unspecified
@on(IMG+r"ImageTemplate\(unsigned int, unsigned int, unsigned char, unsigned char\)")
def _(ex,S,I,args,dn):
    S.obj[key(args[0])]=make(ex,S,*[topoly(a) for a in args[1:5]],bvc(0,8),es_of(dn))
def make(ex,S,w,h,cc,al,type_,es):
    for v,wd in((w,32),(h,32)):
        pass
    w=ex.canonU(S,w,32); h=ex.canonU(S,h,32); cc=ex.canonU(S,cc,8); al=ex.canonU(S,al,8)
    for v in(w,h):
        z=S.simp(eq0(v))
        if z is TRUE: return blank_image(pos(S,cc),pos(S,al),type_,es)
        if z is not FALSE: raise NeedFork(z)
    return fresh_image(ex,S,w,h,pos(S,cc),pos(S,al),type_,es)
def pos(S,v):
    z=S.simp(eq0(v))
    if z is TRUE: return ONE
    if z is FALSE: return v
    raise NeedFork(z)
@on(IMG+r"generate\(")
def _(ex,S,I,args,dn):
    o=obj(S,args[1],"image")
    S.obj[key(args[0])]=make(ex,S,*[topoly(a) for a in args[2:6]],o.type,es_of(dn))
@on(IMG+r"resize\(unsigned int, unsigned int\)")
def _(ex,S,I,args,dn):
    o=obj(S,args[0],"image"); w=ex.canonU(S,topoly(args[1]),32); h=ex.canonU(S,topoly(args[2]),32)
    e=emptiness(S,o)
    for v in(w,h):
        z=S.simp(eq0(v))
        if z is TRUE: return
        if z is not FALSE: raise NeedFork(z)
    if not e:
        z=S.simp(band(eq(w,o.w),eq(h,o.h)))
        if z is TRUE: return
        if z is not FALSE: raise NeedFork(eq(w,o.w) if S.simp(eq(w,o.w)) not in(TRUE,FALSE) else eq(h,o.h))
    S.obj[key(args[0])]=fresh_image(ex,S,w,h,o.cc,o.al,o.type,es_of(dn))
@on(IMG+r"setColorCount\(unsigned char\)")
def _(ex,S,I,args,dn):
    o=obj(S,args[0],"image"); cc=ex.canonU(S,topoly(args[1]),8)
    for c in(eq0(cc),eq(cc,o.cc)):
        z=S.simp(c)
        if z is TRUE: return
        if z is not FALSE: raise NeedFork(z)
    S.obj[key(args[0])]=blank_image(cc,o.al,o.type,es_of(dn))
@on(IMG+r"setAlignment\(unsigned char\)")
def _(ex,S,I,args,dn):
    o=obj(S,args[0],"image"); al=ex.canonU(S,topoly(args[1]),8)
    for c in(eq0(al),eq(al,o.al)):
        z=S.simp(c)
        if z is TRUE: return
        if z is not FALSE: raise NeedFork(z)
    S.obj[key(args[0])]=blank_image(o.cc,al,o.type,es_of(dn))
@on(IMG+r"clear\(\)")
def _(ex,S,I,args,dn):
    o=obj(S,args[0],"image"); S.obj[key(args[0])]=blank_image(o.cc,o.al,o.type,es_of(dn))
@on(IMG+r"swap\(")
def _(ex,S,I,args,dn):
    a,b=key(args[0]),key(args[1]); S.obj[a],S.obj[b]=S.obj[b],S.obj[a]
@on(IMG+r"(operator=|copy)\(penguinV::ImageTemplate<unsigned (char|short)> const&\)")
def _(ex,S,I,args,dn):
    if key(args[0])==key(args[1]): return args[0]
    import api
    def then(G):
        G.obj[key(args[0])]=clone_image(ex,G,obj(G,args[1],"image"))
        if I.dst is not None: G.env[I.dst]=args[0]
    return api.branch(ex,S,I,[bveq(obj(S,args[0],"image").type,obj(S,args[1],"image").type)],then,dn)
@on(IMG+r"operator=\(penguinV::ImageTemplate<unsigned (char|short)>&&\)")
def _(ex,S,I,args,dn):
    a,b=key(args[0]),key(args[1]); obj(S,args[1],"image")
    if a!=b: S.obj[a],S.obj[b]=S.obj[b],Obj("moved")   # the source stays valid, its state is unspecified
    return args[0]
@on(IMG+r"~ImageTemplate\(\)")
def _(ex,S,I,args,dn):
    k=key(args[0]); obj(S,args[0]); del S.obj[k]
@on(IMG+r"fill\(")
def _(ex,S,I,args,dn):
    o=obj(S,args[0],"image"); es=es_of(dn)
    if emptiness(S,o): return
    fill_region(ex,S,o.data,ZERO,o.h*o.rs,tobv(args[1],8*es))
def fill_region(ex,S,r,off,count,val):
    """r[off + k*es] = val for k<count (elements of region size); bounds obligation included"""
    es=r.es
    ex.oblige(S,"write in bounds",ge0(off),f"fill {r}"); ex.oblige(S,"write in bounds",ge0(count),f"fill {r}")
    rs=S.rsize(r); ex.oblige(S,"write in bounds",ge0(rs-off-count*es),f"fill {r}")
    if r.ro: ex.oblige(S,"write to read-only object",FALSE,f"fill {r}")
    k=var("k",0,None,fresh=True,kind="idx"); ka=atom_of(k); n=len(S.trace)
    if es in(1,2): val=tobv(val,8*es)
    S.mem[r]=Node_(S.mem.get(r,INIT),[T([(ka,count)],off+k*es,es,val,TRUE,(n,ka))]); S.trace.append(("fill",))
def copy_region(ex,S,dst,do,src,so,count_bytes,where="memcpy",may_overlap=False):
    es=dst.es
    ex.oblige(S,"read in bounds",ge0(so),where); ex.oblige(S,"read in bounds",ge0(S.rsize(src)-so-count_bytes),f"{where} {src}+{so} size {count_bytes} of {S.rsize(src)}")
    ex.oblige(S,"write in bounds",ge0(do),where); ex.oblige(S,"write in bounds",ge0(S.rsize(dst)-do-count_bytes),f"{where} {dst}+{do} size {count_bytes} of {S.rsize(dst)}")
    if dst.ro: ex.oblige(S,"write to read-only object",FALSE,where)
    if src.es!=es: raise Unsupported("memcpy between different element sizes")
    if count_bytes.isconst() and count_bytes.cval()%es: raise Unsupported("memcpy partial element")
    cnt=fdiv(count_bytes,es) if es>1 else count_bytes
    k=var("k",0,None,fresh=True,kind="idx"); ka=atom_of(k); n=len(S.trace)
    if src is dst and not may_overlap and do is not so:
        # identical ranges are what in-place use gives; anything else must be disjoint
        ex.oblige(S,"memcpy ranges do not overlap",bor(eq(do,so),le(do+count_bytes,so),le(so+count_bytes,do),le(count_bytes,ZERO)),where)
    C=S.copy(); C.facts+= [ge0(k),ge0(cnt-k-1)]
    v=read_ite(C,src,S.mem.get(src,INIT),so+k*es,es)
    S.mem[dst]=Node_(S.mem.get(dst,INIT),[T([(ka,cnt)],do+k*es,es,v,TRUE,(n,ka))]); S.trace.append(("copy",))

# ---------------------------------------------------------------- exceptions, allocation
EXC=Region("exception",1,P(1<<20),"opaque")
@on(r"^__cxa_allocate_exception$")
def _(ex,S,I,args,dn): return Ptr(EXC,ZERO)
@on(r"^__cxa_throw$")
def _(ex,S,I,args,dn): return ("throw",args[1].name if isinstance(args[1],FPtr) else str(args[1]))
@on(r"^penguinVException::|^std::(logic_error|runtime_error|exception)|^std::__cxx11::basic_string|^__cxa_free_exception|^std::allocator<char>")
def _(ex,S,I,args,dn):
    return UNDEF if I.dst is not None else None
@on(r"^std::__throw_")
def _(ex,S,I,args,dn): return ("throw",dn)
@on(r"^operator new(\[\])?\(unsigned long")
def _(ex,S,I,args,dn):
    n=ex.canonU(S,args[0],64)
    r=Region(f"heap{next(_und)}",1,n,"data"); r.fresh=True; r.heap=True; S.mem[r]=INIT
    return Ptr(r,ZERO)
@on(r"^operator delete")
def _(ex,S,I,args,dn): return None

# ---------------------------------------------------------------- llvm intrinsics
def sel_minmax(name):
    def f(ex,S,I,args,dn):
        a,b=args[0],args[1]; ty=I.ty
        if ty.k=="vector":
            w=ty.el.n; out=[]
            for x,y in zip(a,b):
                x=tobv(x,w); y=tobv(y,w); out.append(bvmm(name,x,y))
            return out
        w=ty.n
        if isinstance(a,BV) or isinstance(b,BV): return bvmm(name,tobv(a,w),tobv(b,w))
        if name[0]=="u": a=ex.canonU(S,a,w); b=ex.canonU(S,b,w)
        else: a=ex.canonS(S,a,w); b=ex.canonS(S,b,w)
        c=S.simp(lt(a,b))
        if c not in(TRUE,FALSE) and S.depth==0 and not hasbvb(c): raise NeedFork(c)
        return iteP(c,a,b) if name[1:]=="min" else iteP(c,b,a)
    return f
def bvmm(name,x,y):
    c=(bvult if name[0]=="u" else bvslt)
    if name[1:]=="min": return ite(c(y,x),y,x)
    return ite(c(x,y),y,x)
for n in("umin","umax","smin","smax"): HANDLERS.append((re.compile(r"^llvm\."+n+r"\."),sel_minmax(n)))
def lanes2(f):
    def g(ex,S,I,args,dn):
        ty=I.ty
        if ty.k=="vector": return [f(tobv(x,ty.el.n),tobv(y,ty.el.n),ty.el.n) for x,y in zip(args[0],args[1])]
        w=ty.n
        r=f(tobv(args[0],w),tobv(args[1],w),w)
        return r if w in(8,16) else topoly(r)
    return g
# x86 vector instructions: their architectural definition (Intel SDM), lane by lane
def _lanes(v,n): return list(v) if isinstance(v,(list,tuple)) else [UNDEF]*n
def h_pshufb(ex,S,I,args,dn):
    n=I.ty.n; a=_lanes(args[0],n); c=_lanes(args[1],n); out=[]
    for i in range(n):
        k=tobv(c[i],8)
        if not isc(k): raise Unsupported("byte shuffle with a variable control")
        k=cv(k); out.append(bvc(0,8) if k&128 else a[(i&~15)+(k&15)])
    return out
def h_packuswb(ex,S,I,args,dn):
    n=I.ty.n; h=n//2; a=_lanes(args[0],h); b=_lanes(args[1],h); out=[]
    def sat(x):
        if x is UNDEF: return UNDEF
        x=tobv(x,16)
        if x.op=="zext" and x.args[0].w<=8: return zext(x.args[0],8)
        return ite(bvslt(x,bvc(0,16)),bvc(0,8),ite(bvslt(bvc(255,16),x),bvc(255,8),trunc(x,8)))
    for g in range(0,h,8): out+=[sat(x) for x in a[g:g+8]]+[sat(x) for x in b[g:g+8]]
    return out
def h_psrliw(ex,S,I,args,dn):
    n=I.ty.n; k=topoly(args[1])
    if not k.isconst(): raise Unsupported("vector shift by a variable count")
    k=k.cval()
    return [UNDEF if x is UNDEF else bvc(0,16) if not 0<=k<16 else tobv(x,16) if k==0 else zext(extract(tobv(x,16),15,k),16) for x in _lanes(args[0],n)]
def h_permdi(ex,S,I,args,dn):
    n=I.ty.n; a=_lanes(args[0],n); c=_lanes(args[1],n); out=[]
    for i in range(n):
        k=tobv(c[i],64)
        if not isc(k): raise Unsupported("vector permutation with a variable control")
        out.append(a[cv(k)&(n-1)])
    return out
HANDLERS.append((re.compile(r"^llvm\.x86\.(ssse3\.pshuf\.b\.128|avx2\.pshuf\.b|avx512\.pshuf\.b\.512)$"),h_pshufb))
HANDLERS.append((re.compile(r"^llvm\.x86\.(sse2\.packuswb\.128|avx2\.packuswb|avx512\.packuswb\.512)$"),h_packuswb))
HANDLERS.append((re.compile(r"^llvm\.x86\.(sse2|avx2)\.psrli\.w$|^llvm\.x86\.avx512\.psrli\.w\.512$"),h_psrliw))
HANDLERS.append((re.compile(r"^llvm\.x86\.avx512\.permvar\.di\.512$"),h_permdi))
HANDLERS.append((re.compile(r"^llvm\.usub\.sat\."),lanes2(lambda x,y,w: ite(bvult(x,y),bvc(0,w),bvop("sub",x,y)))))
HANDLERS.append((re.compile(r"^llvm\.uadd\.sat\."),lanes2(lambda x,y,w: ite(bvult(bvop("add",x,y),x),bvc(-1,w),bvop("add",x,y)))))
@on(r"^llvm\.abs\.")
def _(ex,S,I,args,dn):
    ty=I.ty
    f=lambda x,w: ite(bvslt(x,bvc(0,w)),bvop("sub",bvc(0,w),x),x)
    if ty.k=="vector": return [f(tobv(x,ty.el.n),ty.el.n) for x in args[0]]
    w=ty.n
    if w in(8,16): return f(tobv(args[0],w),w)
    a=args[0]
    a=ex.canonS(S,a,w)
    if S.proves(ge0(a)): return a
    if S.proves(ge0(-a)): return -a
    return iteP(ge0(a),a,-a)
@on(r"^llvm\.memset\.|^memset$")
def _(ex,S,I,args,dn):
    p=args[0]; v=tobv(args[1],8); n=ex.canonU(S,args[2],64)
    if p.r is None:
        ex.oblige(S,"null-deref",eq0(n),"memset"); return p
    if p.r.kind=="cell":
        if not (n.isconst() and isc(v)): raise Unsupported("memset of local")
        base=p.o.cval(); d=S.cells.setdefault(p.r,{})
        for q in [q for q,(x,z) in d.items() if q<base+n.cval() and base<q+z]: del d[q]
        for i in range(n.cval()): d[base+i]=(v,1)
        return p if I.dst is not None else None
    r=p.r
    if r.es==1: fill_region(ex,S,r,p.o,n,v)
    else:
        if not isc(v): raise Unsupported("memset element")
        val=0
        for i in range(r.es): val|=cv(v)<<(8*i)
        cnt=fdiv(n,r.es)
        ex.oblige(S,"memset whole elements",eq0(n-cnt*r.es))
        fill_region(ex,S,r,p.o,cnt,bvc(val,8*r.es) if r.es<=2 else P(val))
    return p if I.dst is not None else None
@on(r"^llvm\.mem(cpy|move)\.|^mem(cpy|move)$")
def _(ex,S,I,args,dn):
    d,s=args[0],args[1]; n=ex.canonU(S,args[2],64)
    mv="move" in dn
    if n.isconst() and n.cval()==0: return d if I.dst is not None else None
    if d.r is None or s.r is None:
        ex.oblige(S,"null-deref",eq0(n),"memcpy"); return d if I.dst is not None else None
    if d.r.kind=="cell" or s.r.kind=="cell":
        if not n.isconst(): raise Unsupported("memcpy of local")
        if d.r.kind=="cell" and s.r.kind=="cell":
            b=s.o.cval(); e=b+n.cval(); src=S.cells.get(s.r,{}); dst=S.cells.setdefault(d.r,{}); b2=d.o.cval()
            items=[(q-b,v,z) for q,(v,z) in src.items() if b<=q and q+z<=e]
            for q in [q for q,(x,z) in dst.items() if q<b2+n.cval() and b2<q+z]: del dst[q]
            for q,v,z in items: dst[b2+q]=(v,z)
            for k,o in list(S.obj.items()):
                if k[0] is s.r and b<=k[1]<e: S.obj[(d.r,b2+k[1]-b)]=o.copy()
            return d if I.dst is not None else None
        if d.r.kind=="cell":
            es=s.r.es; dst=S.cells.setdefault(d.r,{}); b2=d.o.cval()
            ex.check_access(S,s,n.cval(),"read","memcpy")
            for i in range(n.cval()//es): dst[b2+i*es]=(S.read(s.r,s.o+i*es,es),es)
            return d if I.dst is not None else None
        raise Unsupported("memcpy local to data")
    copy_region(ex,S,d.r,d.o,s.r,s.o,n,may_overlap=mv)
    return d if I.dst is not None else None
@on(r"^(memcmp|bcmp)$")
def _(ex,S,I,args,dn):
    a,b=args[0],args[1]; n=ex.canonU(S,args[2],64)
    for p in(a,b):
        ex.check_access2(S,p,n,"read","memcmp")
    k=var("k",0,None,fresh=True,kind="idx"); ka=atom_of(k)
    C=S.copy(); C.facts+= [ge0(k),ge0(n-k-1)]
    es=a.r.es
    if es!=1 or b.r.es!=1: raise Unsupported("memcmp element size")
    x=read_ite(C,a.r,S.mem.get(a.r,INIT),a.o+k,1); y=read_ite(C,b.r,S.mem.get(b.r,INIT),b.o+k,1)
    e=bvar(f"memcmp{next(_und)}")
    # e <=> all k<n: x==y
    S2=S; eqc=bveq(x,y)
    raise_fork_forall(S,e)
    if S.proves(e):
        S.tag["forall"]=S.tag.get("forall",[])+[(ka,n,eqc)]
        return ZERO
    w=var("kw",0,None,fresh=True)
    f=Subst({ka:w})
    S.facts+=[ge0(w),ge0(n-w-1),bnot(f(eqc))]
    return var("memcmp",1,None,fresh=True)
def raise_fork_forall(S,e): raise Unsupported("memcmp")
@on(r"^llvm\.(ctpop|bswap|bitreverse|ctlz|cttz|fshl|fshr)")
def _(ex,S,I,args,dn): raise Unsupported(dn)
@on(r"^llvm\.expect")
def _(ex,S,I,args,dn): return args[0]
@on(r"^llvm\.vector\.reduce\.add")
def _(ex,S,I,args,dn):
    w=I.ty.n; v=None
    for x in args[0]: v=x if v is None else bvop("add",tobv(v,w),tobv(x,w))
    return v if w in(8,16) else topoly(v)
@on(r"^llvm\.umul\.with\.overflow")
def _(ex,S,I,args,dn):
    w=I.ty.els[0].n; a=ex.canonU(S,args[0],w); b=ex.canonU(S,args[1],w)
    return (a*b,lt(P(W2(w)-1),a*b))
@on(r"^llvm\.(u|s)(add|sub)\.with\.overflow")
def _(ex,S,I,args,dn):
    w=I.ty.els[0].n
    if ".u" in dn:
        a=ex.canonU(S,args[0],w); b=ex.canonU(S,args[1],w)
        if "add" in dn: return (a+b,lt(P(W2(w)-1),a+b))
        return (a-b,lt(a,b))
    raise Unsupported(dn)

# ---------------------------------------------------------------- std::vector
VEC=r"^std::vector<(unsigned char|unsigned int|unsigned long|unsigned short|int|double), std::allocator<.*> >::"
VES={"unsigned char":1,"unsigned int":4,"unsigned long":8,"unsigned short":2,"int":4,"double":8}
def ves(dn):
    m=re.match(VEC,dn); return VES[m.group(1)]
def new_vec(S,name,es,n=None):
    n=n if n is not None else var(f"n_{name}",0,None)
    r=Region(name,es,n*es,"data"); S.mem[r]=INIT
    return Obj("vec",n=n,data=r,es=P(es))
def vec_fresh(S,es,n,fill=None,old=None,name="vec"):
    r=Region(f"{name}{next(_und)}",es,n*es,"data"); r.fresh=True
    S.mem[r]=INIT
    if fill is not None or old is not None:
        def rdf(A,size,r=r,fill=fill,old=old):
            raise Unsupported("fill read")
        if old is None:
            r.fill=lambda A,size: fill
        else:
            o,on=old
            nd=S.mem.get(o,INIT)
            oldS=S.copy()
            def rf(A,size):
                c=lt(A,on*es)
                C=oldS
                if S.proves(c): return read_ite(C,o,nd,A,size)
                return ite(c,read_ite(C,o,nd,A,size),fill)
            r.fill=rf
    return Obj("vec",n=n,data=r,es=P(es))
def vfill(es,v):
    if es in(1,2): return tobv(v,8*es)
    return exactpoly(v) if isinstance(v,BV) else v
def ldval(ex,S,p,es):
    """value behind a const T& argument"""
    if p.r.kind=="cell":
        v=S.cells[p.r].get(p.o.cval(),(None,0))[0]
        if v is None: raise Unsupported("value argument")
        return v
    return S.read(p.r,p.o,es)
@on(VEC+r"vector\(\)")
def _(ex,S,I,args,dn): S.obj[key(args[0])]=vec_fresh(S,ves(dn),ZERO)
@on(VEC+r"vector\(unsigned long, std::allocator")
def _(ex,S,I,args,dn):
    es=ves(dn); n=ex.canonU(S,args[1],64); S.obj[key(args[0])]=vec_fresh(S,es,n,bvc(0,8*es) if es<=2 else ZERO)
@on(VEC+r"vector\(unsigned long, (unsigned char|unsigned int|int|unsigned long|unsigned short|double) const&, std::allocator")
def _(ex,S,I,args,dn):
    es=ves(dn); n=ex.canonU(S,args[1],64); S.obj[key(args[0])]=vec_fresh(S,es,n,vfill(es,ldval(ex,S,args[2],es)))
@on(VEC+r"vector\(std::vector<.*> const&\)")
def _(ex,S,I,args,dn):
    o=obj(S,args[1],"vec"); r=Region("vcopy"+str(next(_und)),o.data.es,o.data.size,"data"); r.snapshot=(o.data,S.mem.get(o.data,INIT)); r.fresh=True; S.mem[r]=INIT
    n=o.copy(); n.f["data"]=r; S.obj[key(args[0])]=n
@on(VEC+r"vector\(std::vector<.*>&&\)")
def _(ex,S,I,args,dn):
    S.obj[key(args[0])]=obj(S,args[1],"vec").copy(); S.obj[key(args[1])]=vec_fresh(S,ves(dn),ZERO)
@on(VEC+r"~vector\(\)")
def _(ex,S,I,args,dn): del S.obj[key(args[0])]
@on(VEC+r"size\(\)")
def _(ex,S,I,args,dn): return obj(S,args[0],"vec").n
@on(VEC+r"empty\(\)")
def _(ex,S,I,args,dn): return eq0(obj(S,args[0],"vec").n)
@on(VEC+r"(data|begin|cbegin)\(\)")
def _(ex,S,I,args,dn): return Ptr(obj(S,args[0],"vec").data,ZERO)
@on(VEC+r"(end|cend)\(\)")
def _(ex,S,I,args,dn): o=obj(S,args[0],"vec"); return Ptr(o.data,o.n*o.data.es)
@on(VEC+r"(operator\[\]|at)\(unsigned long\)")
def _(ex,S,I,args,dn):
    o=obj(S,args[0],"vec"); return Ptr(o.data,args[1]*o.data.es)
@on(VEC+r"(front|back)\(\)")
def _(ex,S,I,args,dn):
    o=obj(S,args[0],"vec")
    return Ptr(o.data,ZERO) if "front" in dn else Ptr(o.data,(o.n-1)*o.data.es)
@on(VEC+r"resize\(unsigned long\)")
def _(ex,S,I,args,dn):
    o=obj(S,args[0],"vec"); es=ves(dn); n=ex.canonU(S,args[1],64)
    if S.proves(eq(o.n,n)): return
    S.obj[key(args[0])]=vec_fresh(S,es,n,bvc(0,8*es) if es<=2 else ZERO,(o.data,o.n))
@on(VEC+r"clear\(\)")
def _(ex,S,I,args,dn): S.obj[key(args[0])]=vec_fresh(S,ves(dn),ZERO)
@on(VEC+r"reserve\(")
def _(ex,S,I,args,dn): return None
@on(VEC+r"operator=\(std::vector<.*> const&\)")
def _(ex,S,I,args,dn):
    o=obj(S,args[1],"vec"); r=Region("vcopy"+str(next(_und)),o.data.es,o.data.size,"data"); r.snapshot=(o.data,S.mem.get(o.data,INIT)); r.fresh=True; S.mem[r]=INIT
    n=o.copy(); n.f["data"]=r; S.obj[key(args[0])]=n; return args[0]
@on(VEC+r"operator=\(std::vector<.*>&&\)")
def _(ex,S,I,args,dn):
    S.obj[key(args[0])]=obj(S,args[1],"vec").copy(); S.obj[key(args[1])]=vec_fresh(S,ves(dn),ZERO); return args[0]
@on(r"^void std::fill<")
def _(ex,S,I,args,dn):
    a,b=args[0],args[1]
    if a.r is not b.r or a.r is None: raise Unsupported("std::fill range")
    es=a.r.es; v=vfill(es,ldval(ex,S,args[2],es))
    d=b.o-a.o; n=fdiv(d,es)
    fill_region(ex,S,a.r,a.o,n,v)

@on(r"^simd::actualSimdType\(\)")
def _(ex,S,I,args,dn):
    v=var("simd",0,4,fresh=True); S.facts.append(bnot(eq(v,3))); return v      # proved separately: one of the compiled-in instruction sets
@on(r"^SimdInfo::is\w+Available\(\)")
def _(ex,S,I,args,dn): return bvar("SimdInfo."+re.search(r"is\w+",dn).group(0))
@on(r"^(?:llvm\.)?(pow|sqrt|floor|ceil|fabs|sin|cos|tan|atan|atan2|exp|log|round|rint|trunc|copysign|fmod|hypot|minnum|maxnum)f?(?:\.f(32|64))?$")
def _(ex,S,I,args,dn):
    m=re.match(r"^(?:llvm\.)?(pow|sqrt|floor|ceil|fabs|sin|cos|tan|atan2|atan|exp|log|round|rint|trunc|copysign|fmod|hypot|minnum|maxnum)",dn)
    ex.notes.append("math library functions are deterministic functions of their arguments")
    return fpfun(m.group(1),args,8*I.ty.size)
@on(r"^llvm\.fmuladd\.f(32|64)$")
def _(ex,S,I,args,dn):
    return fpop("fadd",[fpop("fmul",args[:2],I.ty),args[2]],I.ty)
