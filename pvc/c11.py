"""C11: methods of ImageTemplate against the class invariant and their contracts.
Every method is executed symbolically on the real code, exceptional paths included, from every state the class invariant allows:
  no buffer: width = 0 = rowSize, or height = 0;     a buffer: width, height >= 1, the buffer has height*rowSize elements;
  rowSize = the smallest multiple of alignment not below width*channels;  channels, alignment >= 1;  every buffer has exactly one owner."""
import re, time
from term import *
import term, prover, mem, llvmc
from mem import *
from exec import *
from exec import _und
import contracts
from contracts import Contracts, key, U32
from check import Report

CLS=re.compile(r"^penguinV::ImageTemplate<unsigned (char|short)>::")
BYTES=("cc","al","type")
FIELDS=("w","h","cc","al","rs","data","type")
GETTER=dict(w="width() const",h="height() const",cc="colorCount() const",al="alignment() const",rs="rowSize() const",data="data() const",type="type() const")
def keep(d,m):
    """calls which stay calls: the standard library, the allocator, the facade's interface; everything else of the class is executed in place"""
    if re.match(r"_ZNK?8penguinV13ImageTemplate",m):
        return bool(re.search(r"::FunctionFacade::(instance|initialize|allocate|deallocate|copy|set|FunctionFacade|~FunctionFacade)\(",d) or re.search(r"::_(allocate|deallocate|copy|set)Memory\(",d))
    if d.startswith(("std::function<","std::_Function_base","bool std::operator","cpu_Memory::","penguinVException","void std::fill","std::exception","std::__throw","std::logic_error")): return True
    if re.match(r"(unsigned (char|short)\*|void) cpu_Memory::",d): return True
    return False
PUB={
 "ImageTemplate(unsigned int, unsigned int, unsigned char, unsigned char)":"ctor","ImageTemplate(&)":"copyctor","ImageTemplate(&&)":"movector",
 "~ImageTemplate()":"dtor","operator=(&)":"assignop","operator=(&&)":"moveop","operator==(&) const":"eq","resize(unsigned int, unsigned int)":"resize",
 "clear()":"clear","assign(T*, unsigned int, unsigned int, unsigned char, unsigned char)":"assign","setColorCount(unsigned char)":"setcc","setAlignment(unsigned char)":"setal",
 "fill(T)":"fill","swap(&)":"swap","copy(&)":"copy","mutate(unsigned int, unsigned int, unsigned char, unsigned char)":"mutate",
 "generate(unsigned int, unsigned int, unsigned char, unsigned char) const":"generate","empty() const":"empty","data()":"data",
 "_allocateMemory(unsigned long)":"m_alloc","_deallocateMemory(T*)":"m_free","_copyMemory(T*, T*, unsigned long)":"m_copy","_setMemory(T*, T, unsigned long)":"m_set",
 "FunctionFacade::initialize":"facade"}
def method(dn):
    m=CLS.match(dn)
    if not m: return None
    t="unsigned "+m.group(1); r=dn[m.end():]
    r=re.sub(r"penguinV::ImageTemplate<unsigned (char|short)>( const)?&","&",r).replace(t+"*","T*")
    if r=="FunctionFacade::initialize" or r.startswith("FunctionFacade::initialize("): return "facade"
    for x in("fill(","_setMemory("):
        if r.startswith(x): r=r.replace(t,"T",1) if x=="fill(" else r.replace("T*, "+t+",","T*, T,")
    return PUB.get(r)
class ImageForm:
    full=True; params=[]; returns=False
    def __init__(s,m,dn): s.m=m; s.name=m; s.es=2 if "<unsigned short>" in dn else 1
    def __repr__(s): return f"ImageTemplate.{s.m}"
def functions(M):
    out=[]; seen=set()
    for nm in M.funcs:
        d=M.dm.get(nm,nm); m=method(d)
        if m is None or M.func(nm) is None: continue
        if nm.endswith(("C1Ejjhh","C1EOS1_","C1ERKS1_","D1Ev","D0Ev")) : pass
        out.append((nm,d,ImageForm(m,d)))
    return out

# ---------------------------------------------------------------- execution with exceptional paths
class ImgExec(Executor):
    unwind=True
    def op_invoke(ex,F,S,bb,I):
        r=ex.docall(F,S,bb,I)
        if r is None: return ("goto",I.x["normal"])
        if r[0]=="throw": S.tag["exc"]=r[1] if len(r)>1 else None; return ("goto",I.x["unwind"])
        return r
    def op_landingpad(ex,F,S,bb,I):
        if re.search(r"\bcatch\b",llvmc.vstr(I.ptr)): raise Unsupported("catch clause")
        S.env[I.dst]=(UNDEF,UNDEF)
    def ctrval(ex,S,x):
        while x.op=="zext": x=x.args[0]
        if x.op not in("i2bv","add","sub"): return None
        p=topoly(x); return p if S.proves(band(ge0(p),lt(p,P(W2(x.w))))) else None
    def op_resume(ex,F,S,bb,I): return ("throw",S.tag.get("exc"))
def ev(S,*e): S.tag["ev"]=S.tag.get("ev",())+(e,)
class ImgContracts(Contracts):
    def __init__(s,M,es): super().__init__(M); s.es=es; s.regs={}
    def lookup(s,name,dn):
        m=re.match(r"_ZN8penguinV13ImageTemplateI[ht]E([CD])1(E.*)$",name)
        if m: name=name[:m.start(1)]+m.group(1)+"2"+m.group(2)      # the complete-object constructor is the base-object one
        if name.startswith("_ZN8penguinV13ImageTemplateI") and s.M.func(name) is not None and not keep(s.M.dm.get(name,name),name):
            return lambda ex,S,I,args,dn: in_place(ex,S,I,args,name)
        for pat,f in H:
            if pat.search(dn): return f
        return super().lookup(name,dn)
def in_place(ex,S,I,args,name):
    """execute a (loop-free) method of the class at the call"""
    F=ex.M.func(name); out=[]
    for o in ex.explore2(F,S,args):
        if o.k=="throw": out.append(("throw",o.S,o.v))
        else:
            if I.dst is not None: o.S.env[I.dst]=o.v
            out.append(("next",o.S,None))
    return ("states",out)
H=[]
def on(p):
    def d(f): H.append((re.compile(p),f)); return f
    return d
@on(r"FunctionFacade::instance\(\)")
def _(ex,S,I,a,dn): return Ptr(ex.facade,ZERO)
@on(r"FunctionFacade::initialize\(")
def _(ex,S,I,a,dn):
    fs=[S.obj.get(key(x)) for x in a[2:6]]
    ev(S,"init",byte(a[1]),tuple(f.f.get("name") if f else None for f in fs))
@on(r"FunctionFacade::(allocate|deallocate|copy|set)\(unsigned char\)")
def _(ex,S,I,a,dn):
    S.obj[key(a[0])]=Obj("fn",op=re.search(r"FunctionFacade::(\w+)\(",dn).group(1),type=byte(a[2]))
@on(r"^std::function<.*>::operator\(\)\(")
def _(ex,S,I,a,dn):
    f=S.obj.get(key(a[0])); es=ex.contracts.es
    if f is None or f.kind!="fn": raise Unsupported("call of an unknown function object")
    op=f.op
    if op=="allocate":
        n=ex.canonU(S,topoly(a[1]),64); bad=S.copy()
        r=Region(f"buffer{next(_und)}",es,n*es,"data"); r.fresh=True; S.mem[r]=INIT
        ev(S,"alloc",f.type,Ptr(r,ZERO),n); ev(bad,"nomem",f.type,NULL,n)
        S.env[I.dst]=Ptr(r,ZERO)
        return ("states",[("next",S,None),("throw",bad,"bad_alloc")])
    if op=="deallocate": ev(S,"free",f.type,a[1]); return
    n=ex.canonU(S,topoly(a[-1]),64)
    ps=a[1:2] if op=="set" else a[1:3]
    for p in ps:
        if p.r is None: ex.oblige(S,"C11 no access through a null buffer",FALSE,op); raise PathEnd()
        ex.oblige(S,"C11 access inside the buffer",band(ge0(p.o),ge0(S.rsize(p.r)-p.o-n)),f"{op} {n} bytes of {p.r}+{p.o}")
    ev(S,op,f.type,*a[1:-1],n)
@on(r"^std::function<.*>::function<")
def _(ex,S,I,a,dn):
    p=a[1]
    S.obj[key(a[0])]=Obj("fn",op="ptr",name=p.name if isinstance(p,FPtr) else None)
@on(r"^std::function<.*>::function\(std::function<.*> const&\)$")
def _(ex,S,I,a,dn):
    if a[1].r is getattr(ex,"tab",None): S.obj[key(a[0])]=Obj("fnref",off=a[1].o); return
    f=S.obj.get(key(a[1]))
    if f is None: raise Unsupported("copy of an unknown function object")
    S.obj[key(a[0])]=f.copy()
@on(r"^std::_Function_base::~_Function_base|^std::function<.*>::~function")
def _(ex,S,I,a,dn): S.obj.pop(key(a[0]),None)
@on(r"^bool std::operator(==|!=)<.*std::function<.*decltype\(nullptr\)")
def _(ex,S,I,a,dn):
    if a[0].r is not getattr(ex,"tab",None): raise Unsupported("test of a function object")
    e=bvar(f"unset[{a[0].o}]") if not any(e[0]=="tabset" and e[1]==a[0].o for e in S.tag.get("ev",())) else FALSE
    return bnot(e) if "operator!=" in dn else e
@on(r"^std::function<.*>::operator=\(std::function<.*>( const)?&&?\)")
def _(ex,S,I,a,dn):
    if a[0].r is not getattr(ex,"tab",None): raise Unsupported("assignment to a function object")
    f=S.obj.get(key(a[1]))
    ev(S,"tabset",a[0].o,f.f.get("name") if f else None)
    return a[0]
@on(r"^cpu_Memory::MemoryAllocator::instance\(\)|^cpu_Memory::.*::instance\(\)")
def _(ex,S,I,a,dn): return Ptr(ex.facade,ZERO)
@on(r"cpu_Memory::.*::allocate<")
def _(ex,S,I,a,dn):
    es=ex.contracts.es; n=ex.canonU(S,topoly(a[1]),64); bad=S.copy()
    r=Region(f"buffer{next(_und)}",es,n*es,"data"); S.mem[r]=INIT; ev(S,"alloc",ZERO,Ptr(r,ZERO),n); S.env[I.dst]=Ptr(r,ZERO)
    return ("states",[("next",S,None),("throw",bad,"bad_alloc")])
@on(r"cpu_Memory::.*::free<")
def _(ex,S,I,a,dn): ev(S,"free",ZERO,a[1])
@on(r"^__clang_call_terminate|^std::terminate")
def _(ex,S,I,a,dn): ex.oblige(S,"C11 no exception leaves a function which must not throw",FALSE,dn); raise PathEnd()

# ---------------------------------------------------------------- layout: the state is what the accessors read
class Layout: pass
_LAY={}
def layout(M,es):
    k=(id(M),es)
    if k in _LAY: return _LAY[k]
    t="unsigned char" if es==1 else "unsigned short"; L=Layout(); L.off={}; L.size=40
    for f,g in GETTER.items():
        dn=f"penguinV::ImageTemplate<{t}>::{g}"
        nm=next((n for n in M.funcs if M.dm.get(n)==dn and M.func(n)),None)
        if nm is None: raise Unsupported(f"accessor {g} not found")
        F=M.func(nm); ex=ImgExec(M,ImgContracts(M,es),dn); ex.facade=Region("facade",1,None,"opaque"); S=State(); r=Region("this",1,P(L.size),"cell"); S.cells[r]={}
        seen=[]
        def rd(S,p,ty,seen=seen):
            v=Ptr(Region("p",1,P(1),"data"),ZERO) if ty.k=="ptr" else tobv(bvvar(f"f{next(_und)}",8),8) if ty.size==1 else var("f",0,U32,fresh=True)
            seen.append((p.o.cval(),ty.size,v)); return v
        ex.loadcell=rd
        outs=ex.run(F,S,[Ptr(r,ZERO)])
        if len(outs)!=1 or outs[0].k!="ret" or len(seen)!=1: raise Unsupported(f"accessor {g} is not a plain read")
        o,z,v=seen[0]
        if not (outs[0].v is v or outs[0].v==v): raise Unsupported(f"accessor {g} does not return the member")
        L.off[f]=(o,z)
    want=dict(w=4,h=4,cc=1,al=1,rs=4,data=8,type=1)
    if any(L.off[f][1]!=z for f,z in want.items()): raise Unsupported("unexpected member sizes")
    L.clash=len({o for o,_ in L.off.values()})!=len(FIELDS)
    _LAY[k]=L; return L

# ---------------------------------------------------------------- abstract images
def byte(v): return exactpoly(v) if isinstance(v,BV) else topoly(v)
def bits(v): return tobv(v,8)
def feq(f,a,b): return eq(byte(a),byte(b)) if f in BYTES else eq(a,b)
def zero8(v): return eq0(byte(v))
def minrow(w,cc,al): al=exactpoly(al); wc=w*exactpoly(cc); return iteP(eq0(fmod(wc,al)),wc,(fdiv(wc,al)+1)*al)
def valid(w,cc,al): return ge0(P(U32)-w*exactpoly(cc)-exactpoly(al))
class View(dict):
    __getattr__=dict.__getitem__
    def but(s,**k): return View({**s,**k})
def start(M,S,L,nm,kind,es):
    """an image in any state the invariant allows"""
    r=Region(nm,1,P(L.size),"cell"); S.cells[r]={}
    cc=c=var(f"cc_{nm}",1,255); al=a=var(f"al_{nm}",1,255); ty=var(f"type_{nm}",0,255)
    w=var(f"width_{nm}",1,U32); h=var(f"height_{nm}",1,U32); rs=var(f"rowsize_{nm}",1,U32); data=NULL
    if kind=="live":
        S.facts+=[ge0(P(U32)-rs*h*es),valid(w,cc,al),ge0(rs-w*c),ge0(w*c+a-1-rs)]
        d=Region(f"pixels_{nm}",es,rs*h*es,"data"); S.mem[d]=INIT; data=Ptr(d,ZERO)
    elif kind=="w0": w=ZERO; rs=ZERO; h=var(f"anyheight_{nm}",0,U32)
    elif kind=="h0": h=ZERO; S.facts+=[valid(w,cc,al),ge0(rs-w*c),ge0(w*c+a-1-rs)]
    put(S,L,r,dict(w=w,h=h,cc=cc,al=al,rs=rs,data=data,type=ty))
    return Ptr(r,ZERO)
def put(S,L,r,f):
    for k,v in f.items(): o,z=L.off[k]; S.cells[r][o]=(bits(v) if k in BYTES else v,z)
def view(S,L,p):
    d=S.cells[p.r]; out=View()
    for k in FIELDS:
        o,z=L.off[k]; o+=p.o.cval(); x=d.get(o)
        if x is None or x[1]!=z or x[0] is UNDEF: raise Unsupported(f"member {k} is not set")
        v=x[0]; out[k]=v if k=="data" else byte(v) if k in BYTES else topoly(v)
    return out
def subv(S,v): return View({k:S.sub(x) if isinstance(x,(Poly,Ptr)) else x for k,x in v.items()})
def blank(v,**k): return v.but(w=ZERO,h=ZERO,rs=ZERO,data=NULL,**k)
NEW="new"
def sized(v,w,h): return v.but(w=w,h=h,rs=minrow(w,v.cc,v.al),data=NEW)
ONE8=ONE
FRESH=View(w=ZERO,h=ZERO,cc=ONE8,al=ONE8,rs=ZERO,data=NULL,type=ZERO)
ANY="any"       # any state the invariant allows
PV="penguinVException"
# a case: (condition, outcome, views after, returned value, pixel events)
def cases(m,o,a,A):
    """contract of method m: o, a = views of this and of the argument before the call; A = values of the other parameters.
    Returns [(condition, 'ret'|'throw', {'this':view,'arg':view,'new':view}, result, events)]"""
    if m=="resize":
        w,h=A; same=bor(eq0(w),eq0(h),band(eq(w,o.w),eq(h,o.h))); big=bnot(valid(w,o.cc,o.al))
        return [(same,"ret",dict(this=o),None,[]),(band(bnot(same),big),"throw",dict(this=o),PV,[]),(band(bnot(same),bnot(big)),"ret",dict(this=sized(o,w,h)),None,[])]
    if m in("ctor","generate"):
        w,h,cc,al=A; n="this" if m=="ctor" else "new"; same={} if m=="ctor" else dict(this=o); out=[]
        for c in(TRUE,FALSE):
            for l in(TRUE,FALSE):
                g=band(zero8(cc) if c is TRUE else bnot(zero8(cc)),zero8(al) if l is TRUE else bnot(zero8(al)))
                v=FRESH.but(cc=ONE8 if c is TRUE else cc,al=ONE8 if l is TRUE else al)
                if m=="generate": v=v.but(type=o.type)
                none=bor(eq0(w),eq0(h)); big=bnot(valid(w,v.cc,v.al))
                out+=[(band(g,none),"ret",{n:v,**same},None,[]),(band(g,bnot(none),big),"throw",same,PV,[]),(band(g,bnot(none),bnot(big)),"ret",{n:sized(v,w,h),**same},None,[])]
        return out
    if m in("copy","assignop","copyctor"):
        if m!="copyctor" and a is o: return [(TRUE,"ret",dict(this=o),"this",[])]
        t=a.but(data=NULL if a.data==NULL else NEW); evs=[] if a.data==NULL else [("copy",)]
        if m=="copyctor": return [(TRUE,"ret",dict(this=t,arg=a),None,evs)]
        d=eq(o.type,a.type)
        return [(bnot(d),"throw",dict(this=o,arg=a),PV,[]),(d,"ret",dict(this=t,arg=a),"this",evs)]
    if m=="movector": return [(TRUE,"ret",dict(this=a,arg=ANY),None,[])]
    if m=="moveop" and a is not o: return [(TRUE,"ret",dict(this=a,arg=ANY),"this",[])]
    if m in("moveop","swap"):
        if a is o: return [(TRUE,"ret",dict(this=o),"this",[])]
        return [(TRUE,"ret",dict(this=a,arg=o),"this",[])]
    if m=="clear": return [(TRUE,"ret",dict(this=blank(o)),None,[])]
    if m=="dtor": return [(TRUE,"ret",{},None,[])]
    if m=="eq":
        return [(TRUE,"ret",dict(this=o,**({} if a is o else dict(arg=a))),band(bconst(o.data==a.data),*[feq(f,o[f],a[f]) for f in("w","h","cc","al","type")]),[])]
    if m in("setcc","setal"):
        f="cc" if m=="setcc" else "al"; v=A[0]; same=bor(zero8(v),eq(v,o[f]))
        return [(same,"ret",dict(this=o),None,[]),(bnot(same),"ret",dict(this=blank(o,**{f:v})),None,[])]
    if m=="fill": return [(TRUE,"ret",dict(this=o),None,[("set",)] if o.data!=NULL else [])]
    if m=="empty": return [(TRUE,"ret",dict(this=o),bconst(o.data==NULL),[])]
    if m=="data": return [(TRUE,"ret",dict(this=o),o.data,[])]
    if m=="assign":
        d,w,h,cc,al=A; bad=bor(bconst(d==NULL),eq0(w),eq0(h),zero8(cc),zero8(al),bnot(valid(w,cc,al)))
        return [(bad,"throw",dict(this=o),PV,[]),(bnot(bad),"ret",dict(this=o.but(w=w,h=h,cc=cc,al=al,rs=minrow(w,cc,al),data=d)),None,[])]
    if m=="mutate":
        w,h,cc,al=A; n1,n2=bnot(zero8(cc)),bnot(zero8(al)); v=valid(w,cc,al); fit=eq(minrow(w,cc,al)*h,o.rs*o.h); no=("ret",dict(this=o),FALSE,[])
        return [([zero8(cc)],*no),([n1,zero8(al)],*no),([n1,n2,bnot(v)],*no),([n1,n2,v,bnot(fit)],*no),
                ([n1,n2,v,fit],"ret",dict(this=o.but(w=w,h=h,cc=cc,al=al,rs=minrow(w,cc,al))),TRUE,[])]
    raise Unsupported(m)
NPARAM=dict(resize="uu",ctor="uubb",generate="uubb",setcc="b",setal="b",fill="p",assign="Duubb",mutate="uubb")
TWO=("copy","assignop","copyctor","movector","moveop","swap","eq")
NOTHIS=("ctor","copyctor","movector")

def split_ite(S,c):
    """states in which every if-then-else condition met in c is decided, with the simplified c"""
    c=S.sub(c) if isinstance(c,(Poly,Node)) else c
    at=[x for x in iter_atoms(c) if x.kind=="ite"]
    if not at:
        yield S,c; return
    g=at[0].args[0]
    for z in(g,bnot(g)):
        T=S.copy()
        if not prover.is_unsat(T.facts,z) and T.assume(z) and T.feasible():
            c2=Subst({at[0]:at[0].args[1] if z is g else at[0].args[2]})(c)
            yield from split_ite(T,c2)
def under(S,cs):
    """the states in which all of cs hold"""
    if not cs: yield S; return
    for T,c in split_ite(S.copy(),S.sub(cs[0])):
        if c is FALSE or prover.is_unsat(T.facts,c) or not (T.assume(c) and T.feasible()): continue
        yield from under(T,cs[1:])
def iter_atoms(c):
    for x in sorted(fa(c),key=lambda x:x.id):
        if getattr(x,"kind",None)=="ite": yield x
def verify(M,fname,dn,form):
    t0=time.time(); R=Report(dn); R.loops=0; obls=[]; notes=set(); used=set(); m=form.m; es=form.es
    try:
        if m.startswith("m_"): starts=[()]
        L=layout(M,es) if not (m.startswith("m_") or m=="facade") else None
        if L is not None and L.clash:
            obls.append(Obl("C11 accessors read distinct members","layout",FALSE,[],False,dn))
        if L is not None and L.clash: R.nret=1
        elif m=="facade": run_facade(M,fname,dn,es,R,obls)
        elif m.startswith("m_"): run_memory(M,fname,dn,m,es,R,obls)
        else:
            K=("live","w0","h0")
            ts=(None,) if m in NOTHIS else K
            as_=(K+(() if m in NOTHIS else ("same",))) if m in TWO else (None,)
            for tk in ts:
                for ak in as_: run_method(M,fname,dn,m,es,L,tk,ak,R,obls,used)
        R.status="ok"
    except Unsupported as u: R.status="unsupported"; R.reason=str(u)[:400]
    except NeedFork as u: R.status="unsupported"; R.reason=f"undecided case {u.cond}"[:400]
    R.obls=obls; R.used=used; R.time=time.time()-t0
    R.assumed=["operations of the facade's functions: allocate returns a new buffer or throws bad_alloc, deallocate ends its life, copy and set touch only the named bytes","std::function calls the function stored in it and does not throw when copied"]
    R.failed=[o for o in obls if not o.ok]
    if R.status=="ok" and R.failed: R.status="failed"
    if R.status=="ok" and (not R.nret or not obls): R.status="vacuous"
    return R
def run_method(M,fname,dn,m,es,L,tk,ak,R,obls,used):
    F=M.func(fname); ctrs=ImgContracts(M,es); ex=ImgExec(M,ctrs,dn); ex.obls=obls; ex.used=used; ex.maxpaths=3000
    ex.facade=Region("facade",1,None,"opaque")
    S=State(); tag=f"{tk or '-'}/{ak or '-'}"
    if m in NOTHIS:
        r=Region("this",1,P(L.size),"cell"); S.cells[r]={}; this=Ptr(r,ZERO)
    else: this=start(M,S,L,"this",tk,es)
    args=[this]; A=[]; arg=None; sret=None; ext=None
    if m in TWO:
        arg=this if ak=="same" else start(M,S,L,"arg",ak,es); args.append(arg)
    for i,k in enumerate(NPARAM.get(m,"")):
        if k=="u": v=var(f"u{i}",0,U32); args.append(v); A.append(v)
        elif k=="b": b=var(f"b{i}",0,255); args.append(bits(b)); A.append(b)
        elif k=="p": b=bvvar(f"v{es}",8*es); args.append(b); A.append(b)
        elif k=="D": ext=[Ptr(Region("external",es,None,"data"),ZERO),NULL]; args.append(None); A.append(None)
    if m=="generate":
        r=Region("new",1,P(L.size),"cell"); S.cells[r]={}; sret=Ptr(r,ZERO); args.insert(0,sret)
    for e in (ext or [None]):
        if ext is not None: args[1]=e; A[0]=e
        S1=S.copy()
        if e is not None and e.r is not None: S1.mem[e.r]=INIT
        o=None if m in NOTHIS else view(S1,L,this)
        a=o if ak=="same" else view(S1,L,arg) if arg is not None else None
        outs=ex.run(F,S1.copy(),list(args)); R.paths+=len(outs)
        cs=cases(m,o,a,A)
        for out in outs:
            if not out.S.feasible(): continue
            if out.k=="throw": R.nthrow+=1
            else: R.nret+=1
            finish(ex,M,L,m,out,S1,o,a,A,cs,this,arg if ak!="same" else None,sret,e,es,tag)
def finish(ex,M,L,m,out,S0,o,a,A,cs,this,arg,sret,extd,es,tag):
    S=out.S; evs=S.tag.get("ev",())
    nomem=out.k=="throw" and "bad_alloc" in str(out.v)
    owned=[x for x in((o.data if o else NULL),(a.data if a is not None and a is not o else NULL)) if x!=NULL]
    # ---- buffers: each freed at most once, each with exactly one owner at the end
    alloc=[(e[2],e[1],e[3]) for e in evs if e[0]=="alloc"]; live={p.r:p for p in owned}; ty={}
    if o and o.data!=NULL: ty[o.data.r]=o.type
    if a is not None and a.data!=NULL: ty[a.data.r]=a.type
    def say(kind,ok,where): ex.oblige(S,"C11 "+kind,TRUE if ok else FALSE,f"{tag} {m}: {where}")
    for e in evs:
        if e[0]=="alloc": live[e[2].r]=e[2]; ty[e[2].r]=e[1]
        elif e[0]=="free":
            p=e[2]
            if p.r is None: say("deallocates only its own buffer",False,"null"); continue
            ok=p.r in live and p.o.isconst() and p.o.cval()==0
            say("deallocates only a buffer it owns, once",ok,str(p.r))
            if ok:
                del live[p.r]; ex.oblige(S,"C11 deallocates with the function of the type the buffer was allocated with",feq("type",e[1],S.sub(ty[p.r])),f"{tag} {m}")
        elif e[0] in("copy","set"):
            for p in e[2:4] if e[0]=="copy" else e[2:3]: say("touches no released buffer",p.r in live or (extd is not None and p.r is extd.r),f"{e[0]} {p.r}")
    alive={}
    if not (m=="dtor" or (out.k=="throw" and m in NOTHIS)): alive["this"]=this
    if arg is not None: alive["arg"]=arg
    if sret is not None and out.k=="ret": alive["new"]=sret
    now={n:view(S,L,p) for n,p in alive.items()}
    owners={}
    for n,v in now.items():
        if v.data.r is not None: owners.setdefault(v.data.r,[]).append(n)
    for r,ns in owners.items():
        say("every buffer has one owner",len(ns)==1,str(ns)); say("an image owns no released buffer",r in live or (extd is not None and r is extd.r),f"{ns} {r}")
        if r in ty:
            ex.oblige(S,"C11 an image has the type its buffer was allocated with",feq("type",now[ns[0]].type,S.sub(ty[r])),f"{tag} {m}")
    say("no buffer is lost",all(r in owners for r in live),", ".join(str(r) for r in live if r not in owners))
    # ---- initialisation of the facade
    if m in("ctor","generate"):
        ini=[e for e in evs if e[0]=="init"]; t="char" if es==1 else "short"
        want=tuple(f"penguinV::ImageTemplate<unsigned {t}>::_{x}Memory(" for x in("allocate","deallocate","copy","set"))
        ok=bool(ini) and all(e[2][i] is not None and ex.M.dm.get(e[2][i],e[2][i]).split("ImageTemplate",1)[-1].startswith(want[i].split("ImageTemplate",1)[-1]) for e in ini for i in range(4))
        say("a new image registers the memory functions of its type in their places",ok,str(len(ini)))
        for e in ini: ex.oblige(S,"C11 a new image registers functions for its own type",zero8(e[1]),m)
    def anystate(T,n,v,why):
        """v satisfies the class invariant: it is one of the states before the call, or blank"""
        pres=[subv(T,x) for x in(o,a) if x is not None]
        own=[p for p in pres if p.data==v.data]
        kept=bor(*[band(*[feq(f,v[f],p[f]) for f in("w","h","cc","al","rs")]) for p in own]) if own else FALSE
        ex.oblige(T,f"C11 {why}: size, stride and ownership are consistent",bor(band(eq0(v.w),eq0(v.rs)),kept) if v.data==NULL else kept,f"{tag} {m} {n}")
        for f in("cc","al"): ex.oblige(T,"C11 channels and alignment are positive",bnot(zero8(v[f])),f"{tag} {m} {n}")
    if nomem:
        for n,v in now.items(): anystate(S,n,v,"after a failed allocation")
        return
    # ---- contract cases
    ncase=0
    for c,k,views,res,pe in cs:
        C=S.copy(); ok=True
        for T in under(C,c if isinstance(c,list) else [c]):
            ncase+=1
            if k!=out.k:
                ex.oblige(T,"C11 throws exactly when the contract says so",FALSE,f"{tag} {m}: {out.k}, contract: {k} when {c}"[:300])
                if __import__("os").environ.get("PVC_DBG"): print("CASE",m,tag,[str(z) for z in T.facts])
                continue
            if k=="throw":
                ex.oblige(T,"C11 the exception is the documented one",bconst(res in str(out.v)),f"{tag} {m} {out.v}")
            elif isinstance(res,Bool):
                v=T.sub(out.v) if isinstance(out.v,(Poly,Node)) else out.v
                v=v if isinstance(v,Bool) else bnot(bveq(tobv(v,8),bvc(0,8)))
                ex.oblige(T,"C11 returned value",biff(v,T.sub(res)),f"{tag} {m}")
            elif res=="this":
                if isinstance(out.v,Ptr): ex.oblige(T,"C11 returned value",bconst(out.v.r is this.r),f"{tag} {m}")
            elif isinstance(res,Ptr): ex.oblige(T,"C11 returned value",bconst(out.v.r is res.r),f"{tag} {m}")
            for n,w in views.items():
                if n not in now: ex.oblige(T,"C11 object exists",FALSE,f"{tag} {m} {n}"); continue
                if w==ANY: anystate(T,n,subv(T,now[n]),"a moved-from image"); continue
                same(ex,T,subv(T,w),subv(T,now[n]),None,f"{tag} {m} {n}",TRUE,alloc,es)
            pix=[e for e in T.tag.get("ev",()) if e[0] in("copy","set")]
            ok=len(pix)==len(pe) and all(x[0]==y[0] for x,y in zip(pix,pe))
            ex.oblige(T,"C11 pixels are written only as the contract says",bconst(ok),f"{tag} {m} {[x[0] for x in pix]}")
            if ok and pe:
                e=pix[0]
                if pe[0][0]=="copy":
                    t=now["this"]
                    ex.oblige(T,"C11 the copy receives every pixel of the source",band(bconst(e[2].r is t.data.r and e[3].r is a.data.r),eq0(e[2].o),eq0(e[3].o),eq(e[4],T.sub(a.h*a.rs*es)) ),f"{tag} {m}")
                    ex.oblige(T,"C11 copies with the function of the image's type",feq("type",e[1],T.sub(a.type)),f"{tag} {m}")
                else:
                    ex.oblige(T,"C11 fill sets every element",band(bconst(e[2].r is o.data.r),eq0(e[2].o),eq(e[4],T.sub(o.h*o.rs*es)),bveq(tobv(e[3],8*es),A[0])),f"{tag} {m}")
                    ex.oblige(T,"C11 fills with the function of the image's type",feq("type",e[1],T.sub(o.type)),f"{tag} {m}")
    if not ncase: ex.oblige(S,"C11 the contract covers every path",FALSE,f"{tag} {m} {out.k}")
def same(ex,S,want,got,data,where,_,alloc=(),es=1):
    for f in FIELDS:
        if f=="data": continue
        for T,g in split_ite(S,feq(f,got[f],want[f])): ex.oblige(T,f"C11 {dict(w='width',h='height',cc='channel count',al='alignment',rs='row size',type='type')[f]} after the call",g,where)
    d=want["data"] if data is None else data
    if d==NEW:
        mine=[n for p,t,n in alloc if p.r is got.data.r]
        ex.oblige(S,"C11 owns a new buffer",bconst(bool(mine)),where)
        if mine:
            for T,g in split_ite(S,eq(S.sub(mine[0]),want.h*want.rs)): ex.oblige(T,"C11 the buffer has height*rowSize elements",g,where)
    else: ex.oblige(S,"C11 buffer after the call",bconst(got.data.r is d.r and (d.r is None or got.data.o==d.o)),where)

def run_memory(M,fname,dn,m,es,R,obls):
    F=M.func(fname); ex=ImgExec(M,ImgContracts(M,es),dn); ex.obls=obls; ex.facade=Region("facade",1,None,"opaque"); S=State()
    n=var("n",0,W2(40))
    def buf(nm): r=Region(nm,es,n*es,"data"); S.mem[r]=INIT; return Ptr(r,ZERO)
    if m=="m_alloc": args=[n]
    elif m=="m_free": args=[buf("data")]
    elif m=="m_copy": args=[buf("out"),buf("in"),n*es]
    else: v=bvvar("v",8*es); args=[buf("out"),v,n*es]
    for o in ex.run(F,S.copy(),args):
        if not o.S.feasible(): continue
        R.paths+=1; evs=o.S.tag.get("ev",())
        if o.k=="throw": R.nthrow+=1; ex.oblige(o.S,"C11 memory functions throw only bad_alloc",bconst(m=="m_alloc" and "bad_alloc" in str(o.v)),m); continue
        R.nret+=1
        if m=="m_alloc":
            ok=len(evs)==1 and evs[0][0]=="alloc" and isinstance(o.v,Ptr) and o.v.r is evs[0][2].r
            ex.oblige(o.S,"C11 the memory function allocates the requested number of elements",band(bconst(ok),eq(evs[0][3],o.S.sub(n)) if ok else FALSE),m)
        elif m=="m_free": ex.oblige(o.S,"C11 the memory function releases the buffer",bconst(len(evs)==1 and evs[0][0]=="free" and evs[0][2].r is args[0].r),m)
        else:
            k=var("k",0,W2(40),fresh=True); C=o.S.copy(); C.facts+=[ge0(C.sub(n)-k-1)]; r=args[0].r
            got=C.read(r,k*es,es); want=args[1] if m=="m_set" else C.read(args[1].r,k*es,es)
            ex.oblige(C,"C11 the memory function writes every element",bveq(tobv(got,8*es),tobv(want,8*es)),m)
            if m=="m_copy": ex.oblige(o.S,"C11 the memory function keeps the source",bconst(o.S.mem.get(args[1].r,INIT) is INIT),m)
def run_facade(M,fname,dn,es,R,obls):
    """initialize stores each function where the accessor of the same name reads it"""
    t="unsigned char" if es==1 else "unsigned short"; base={}
    tp=var("type",0,255); ty=bits(tp)
    def mk(fn):
        ex=ImgExec(M,ImgContracts(M,es),fn); ex.obls=obls; ex.facade=Region("facade",1,None,"opaque"); ex.tab=Region("tables",1,P(4*256*32),"opaque"); return ex
    for op in("allocate","deallocate","copy","set"):
        nm=next((n for n in M.funcs if (M.dm.get(n) or "").startswith(f"penguinV::ImageTemplate<{t}>::FunctionFacade::{op}(unsigned char)") and M.func(n)),None)
        if nm is None: raise Unsupported(f"facade accessor {op} not found")
        ex=mk(op); S=State(); r=Region("result",1,P(32),"cell"); S.cells[r]={}
        for o in ex.run(M.func(nm),S,[Ptr(r,ZERO),Ptr(ex.tab,ZERO),ty]):
            if not o.S.feasible(): continue
            R.paths+=1
            if o.k=="throw": ex.oblige(o.S,"C11 the facade throws the documented exception",bconst(PV in str(o.v)),op); R.nthrow+=1; continue
            R.nret+=1; f=o.S.obj.get((r,0)); ok=f is not None and f.kind=="fnref"
            ex.oblige(o.S,"C11 the facade returns a stored function",bconst(ok),op)
            if not ok: continue
            b=f.off-tp*32
            if not b.isconst(): ex.oblige(o.S,"C11 the facade looks up the requested type",FALSE,f"{op} {f.off}"); continue
            ex.oblige(o.S,"C11 the facade looks up the requested type",bconst(base.setdefault(op,b.cval())==b.cval()),op)
            ex.oblige(o.S,"C11 the facade returns only functions which are set",bnot(bvar(f"unset[{f.off}]")),op)
    obls.append(Obl("C11 the function tables are distinct",str(base),TRUE,[],len(set(base.values()))==4 and all(0<=b<32768 and b%8192==0 for b in base.values()),dn))
    ex=mk("initialize"); S=State(); args=[Ptr(ex.tab,ZERO),ty]
    for op in("allocate","deallocate","copy","set"):
        r=Region(op,1,P(32),"cell"); S.cells[r]={}; S.obj[(r,0)]=Obj("fn",op="ptr",name=op); args.append(Ptr(r,ZERO))
    for o in ex.run(M.func(fname),S,args):
        if not o.S.feasible(): continue
        R.paths+=1; R.nret+=1
        ex.oblige(o.S,"C11 initialize returns",bconst(o.k=="ret"),"initialize")
        evs=[(e[1],e[2]) for e in o.S.tag.get("ev",()) if e[0]=="tabset"]
        unset=[o.S.proves(bvar(f"unset[{tp*32+base[op]}]")) for op in("allocate",)]
        if any(unset):
            ok=len(evs)==4 and all(any((x-tp*32).isconst() and (x-tp*32).cval()==base[op] and y==op for x,y in evs) for op in base)
            ex.oblige(o.S,"C11 initialize stores each function where its accessor reads it",bconst(ok),str(evs))
        else: ex.oblige(o.S,"C11 initialize keeps the functions of a known type",bconst(not evs),str(evs))
