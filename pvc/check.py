"""Verify one function of a module against its contract."""
import os, re, time, itertools
from term import *
import term, prover, mem, exec as X, contracts, specs
from mem import *
from exec import *
from contracts import *
from specs import *
from quant import *

TYPES=[(r"penguinV::ImageTemplate<unsigned char> const&","I"),(r"penguinV::ImageTemplate<unsigned short> const&","I16"),
       (r"penguinV::ImageTemplate<unsigned char>&","O"),(r"penguinV::ImageTemplate<unsigned short>&","O16"),
       (r"std::vector<unsigned int, std::allocator<unsigned int> > const&","U"),(r"std::vector<unsigned char, std::allocator<unsigned char> > const&","T"),
       (r"std::vector<unsigned int, std::allocator<unsigned int> >&","V"),
       ("unsigned int","u"),("unsigned char","b"),("bool","f"),("double","d")]
def split_args(dn):
    # the parameter list is the last top-level parenthesised group
    d=0; st=None
    for i,ch in enumerate(dn):
        if ch=="<": d+=1
        elif ch==">": d-=1
        elif ch=="(" and d==0: st=i; break
    a=dn[st:]
    depth=0; args=[]; cur=""
    for ch in a[1:a.rindex(")")]:
        if ch in "<(": depth+=1
        if ch in ">)": depth-=1
        if ch=="," and depth==0: args.append(cur.strip()); cur=""
        else: cur+=ch
    if cur.strip(): args.append(cur.strip())
    return args
def sig_of(dn):
    """parameter kinds of a demangled name"""
    out=[]
    for x in split_args(dn):
        for t,k in TYPES:
            if x==t: out.append(k); break
        else: out.append("?"+x)
    return out
def fsig(op): 
    out=[]
    for p in op.full: out.append(p.split(":")[1] if ":" in p else "u")
    return out
class Form:
    """one overload: how its parameters map to the full form"""
    def __init__(s,op,params,returns,name): s.op=op; s.params=params; s.returns=returns; s.name=name; s.full=[x for x in op.full]==params; s.simd=False
    def __repr__(s): return f"{s.op.name}({' '.join(s.params)}){' -> image' if s.returns else ''}"
def forms(op):
    """parameter lists of the overloads of op: list of (params, returns_image)"""
    full=op.full; res=[]
    if op.forms is not None: return [(full,False)]+[(p,r) for p,r,_ in op.forms]
    if op.only is not None: return [(full,False)]
    ims=[p for p in full if p.split(":")[-1] in("I","O","I16","O16")]
    coords=[p for p in full if ":" not in p]
    extras=[p for p in full if ":" in p and p not in ims]
    res.append((full,False))
    V=[p for p in full if p.endswith(":V")]
    if V and op.kind!="inout":
        res.append(([p for p in full if p not in coords and p not in V],"vec"))
        res.append(([p for p in full if p not in V],"vec"))
    res.append(([p for p in full if p not in coords],False))                # whole images
    if any(p.startswith("out:") for p in full):
        res.append(([p for p in full if p not in coords and not p.startswith("out:")],True))
        res.append(([p for p in full if not p.startswith("out:") and p not in("xo","yo")],True))
    return res
APIFN=re.compile(r"^(?:Image_Function(?:_Simd|_OpenCL)?)::(\w+)\(")
SIMDFN=re.compile(r"^(?:\w+ )?simd::(\w+)\(.*, simd::SIMDType\)$")
SIMDTYPES={0:"avx512",1:"avx",2:"sse",4:"cpu"}
def form_for(dn,nparams):
    """the contract of an Image_Function* function"""
    m=SIMDFN.match(dn)
    if m:
        sig=sig_of(dn)
        if not sig or sig[-1]!="?simd::SIMDType" or nparams!=len(sig): return None
        f=find_form(m.group(1),sig[:-1],False)
        if f is not None: f.params=f.params+["simdType:s"]; f.simd=True
        return f
    m=APIFN.match(dn)
    if not m: return None
    sig=sig_of(dn); sret=nparams==len(sig)+1
    if dn.startswith("Image_Function_OpenCL::"):
        f=find_form("CL."+m.group(1),sig,sret)
        if f is not None: return f
        if "CL."+m.group(1) in OPS: return None
    return find_form(m.group(1),sig,sret)
def find_form(opname,sig,sret):
    for op in sorted(OPS.get(opname,[]),key=lambda o:o.only is None):
        for params,ret in forms(op):
            k=[p.split(":")[1] if ":" in p else "u" for p in params]
            if k==sig and bool(ret)==sret: return Form(op,params,ret,opname)
    return None

def bind(c,S,form,args,objs):
    """context values from the actual arguments"""
    for p,a in zip(form.params,args):
        nm=p.split(":")[0]; k=p.split(":")[1] if ":" in p else "u"
        if k in("I","O","I16","O16"): c.v[nm]=Img(c,nm,S.obj[objs(a)],objs(a))
        elif k in("T","U","V"): c.v[nm]=S.obj[objs(a)].f; c.v[nm+"_key"]=objs(a)
        else: c.v[nm]=a
def complete(c,form):
    """parameters absent from a shorter form"""
    op=form.op; cond=[]
    ims=[p.split(":")[0] for p in op.full if p.split(":")[-1] in("I","O","I16","O16")]
    if form.full: return cond
    if op.forms is not None:
        for p,r,f in op.forms:
            if p==form.params and r==form.returns: return f(c)
    present=[p.split(":")[0] for p in form.params]
    have=[i for i in ims if i in present]
    whole="w" not in present
    first=c.v[have[0]]
    if whole:
        for p in op.full:
            if ":" not in p and p not in("w","h"): c.v[p]=ZERO
        for i in have:
            im=c.v[i]; cond+=[bnot(im.E)]
        if op.wholesize: cond+=op.wholesize(c,[c.v[i] for i in have])
        elif op.kind!="depth":
            for i in have[1:]: cond+=[eq(c.v[i].w,first.w),eq(c.v[i].h,first.h)]
        c.v["w"]=first.w; c.v["h"]=first.h
    else:
        for p in op.full:
            if p not in present and ":" not in p: c.v[p]=ZERO
    return cond
class NewImg:
    pass

class Report:
    def __init__(s,name): s.name=name; s.obls=[]; s.status="?"; s.reason=""; s.paths=0; s.time=0; s.used=set(); s.nret=0; s.nthrow=0; s.loops=0; s.assumed=[]; s.failed=[]
def expected(c,form):
    """(conditions, effect) of the form in context c"""
    pre=complete(c,form)
    if form.returns=="vec":
        for p in form.op.full:
            if p.endswith(":V"): c.v[p.split(":")[0]+"_key"]="ret"
    if form.returns and form.returns!="vec":
        # the result image is created by the function
        names=[p.split(":")[0] for p in form.op.full]
        ow,oh=form.op.outsize(c) if form.op.outsize else (c.v["w"],c.v["h"])
        n=Obj("image",E=FALSE,w=ow,h=oh,cc=ONE,rs=ZERO,al=ONE,data=None,es=P(1),type=bvc(0,8))
        first=[c.v[p.split(":")[0]] for p in form.params if p.split(":")[-1] in("I","I16")][0]
        n.f["type"]=first.type
        es=first.es if form.op.kind!="depth" else (2 if first.es==1 else 1)
        outk=[p for p in form.op.full if p.startswith("out:")][0].split(":")[1]
        es=2 if outk=="O16" else 1
        n.f["es"]=P(es)
        c.v["out"]=Img(c,"out",n,None)
        cc=form.op.outcc(c); n.f["cc"]=cc; n.f["rs"]=ow*cc
        c.v["out"]=Img(c,"out",n,None)
        c.v["out_obj"]=n
    cond=pre+form.op.cond(c)
    return cond

def verify(M,fname,dn,form,alias=(),**k):
    """returns Report"""
    n=len(form.op.cases)
    if n==1: return verify1(M,fname,dn,form,alias,0,**k)
    rs=[verify1(M,fname,dn,form,alias,i,**k) for i in list(range(n))+["else"]]
    rs=[r for r in rs if r.status!="excluded"]
    R=rs[0]
    for r in rs[1:]:
        R.obls+=r.obls; R.failed+=r.failed; R.used|=r.used; R.loops+=r.loops; R.time+=r.time; R.paths+=r.paths; R.nret+=r.nret; R.nthrow+=r.nthrow; R.assumed=sorted(set(R.assumed)|set(r.assumed))
    for st in ("unsupported","vacuous","failed"):
        for r in rs:
            if r.status==st: R.status=st; R.reason=r.reason; return R
    return R
def verify1(M,fname,dn,form,alias=(),case=0,variant=None,ctrs=None,unroll=1,log=None,maxpaths=2000):
    t0=time.time(); F=M.func(fname)
    R=Report(f"{dn}{' alias '+'='.join(alias) if alias else ''}")
    ctrs=ctrs or Contracts(M)
    ex=Executor(M,ctrs,dn); ex.unroll=unroll; ex.maxpaths=maxpaths; ex.unswitch=form.simd
    S=State(); args=[]; objmap={}
    try:
        params=list(F.params)
        if form.returns:
            r=Region("sret",1,P(40),"cell"); S.cells[r]={}; args.append(Ptr(r,ZERO)); sret=(r,0)
        for p in form.params:
            nm=p.split(":")[0]; k=p.split(":")[1] if ":" in p else "u"
            if k in("I","O","I16","O16"):
                src=None
                if alias and nm in alias:
                    for a in alias:
                        if a in objmap: src=objmap[a]
                if src is None:
                    o=new_image(S,nm,2 if "16" in k else 1); src=put_obj(S,nm,o)
                    if k.startswith("I"): o.f["data"].inputonly=True
                objmap[nm]=src; args.append(src)
            elif k in("T","U","V"):
                es=1 if k=="T" else 4
                o=new_vec(S,nm,es); S.facts.append(ge0(P(U32 if "_OpenCL::" in dn else 1<<40)-o.f["n"])); src=put_obj(S,nm,o,24); args.append(src); objmap[nm]=src
            elif k=="u": args.append(var(nm,0,U32))
            elif k=="b": args.append(bvvar(nm,8))
            elif k=="f": args.append(bvar(nm))
            elif k=="d": args.append(bvvar(nm,64))
            elif k=="s": args.append(P(variant))
            else: raise Unsupported(f"parameter kind {k}")
        if alias and form.full:
            # the same image is only covered when the two regions coincide
            pass
        off=1 if form.returns else 0
        S0=S.copy()
        outs=None
        c=Ctx(S0); bind(c,S0,form,args[off:],lambda a:key(a))
        if alias and "w" in [p for p in form.params]:
            # in-place use: identical regions
            a,b=alias
            tie=tied(form.op,a,b)
            for x,y in tie:
                i=[p.split(":")[0] for p in form.params].index(y); j=[p.split(":")[0] for p in form.params].index(x)
                args[off+i]=args[off+j]
            c=Ctx(S0); bind(c,S0,form,args[off:],lambda a:key(a))
        c.v["case"]=case
        # the last case is the complement of all others
        extra=[bnot(band(*f(c))) for f in form.op.cases] if case=="else" else form.op.cases[case](c)
        if case=="else" and not (all([S.assume(x) for x in extra]) and S.feasible()): R.status="excluded"; return R
        for x in extra:
            if case!="else" and not S.assume(x): raise Unsupported("case excluded by the precondition")
        if extra:
            S0=S.copy(); c=Ctx(S0); bind(c,S0,form,args[off:],lambda a:key(a)); c.v["case"]=case
        cond=expected(c,form)
        outs=ex.run(F,S.copy(),args)
        R.paths=len(outs)
        for o in outs:
            if not o.S.feasible(): continue
            if o.k=="throw":
                R.nthrow+=1
                if o.v is not None and "penguinVException" not in str(o.v):
                    ex.oblige(o.S,"throws only penguinVException",FALSE,str(o.v))
                cs=[o.S.sub(x) for x in cond]
                ok=prover.is_unsat(o.S.facts,band(*cs)) or refuted(o.S,cs)
                ex.obls.append(Obl("C04 rejects only invalid parameters","throw",band(*cs),list(o.S.facts),ok,dn))
                for r,n in o.S.mem.items():
                    if r in S0.mem: ex.obls.append(Obl("C04 nothing modified before rejecting",str(r),TRUE if n is S0.mem[r] else FALSE,list(o.S.facts),n is S0.mem[r],dn))
                for k0,ob in S0.obj.items():
                    sm=same_obj(o.S,ob,o.S.obj.get(k0)); ex.obls.append(Obl("C04 object changed before rejecting",str(k0),TRUE if sm else FALSE,list(o.S.facts),sm,dn))
            elif o.k=="ret":
                R.nret+=1
                for x in cond:
                    g=o.S.sub(x); ok=holds(o.S,g)
                    ex.obls.append(Obl("C04 accepts only valid parameters","return",g,list(o.S.facts),ok,dn))
                post(ex,o,c,form,S0,args,dn,sret if form.returns else None)
        R.status="ok"
    except Unsupported as u:
        R.status="unsupported"; R.reason=str(u)[:400]
    except NeedFork as u:
        R.status="unsupported"; R.reason=f"undecided case {u.cond}"[:400]
    except RecursionError as u:
        R.status="unsupported"; R.reason="recursion"
    R.obls=ex.obls; R.used=ex.used; R.loops=ex.nloop; R.time=time.time()-t0; R.assumed=sorted(set(ex.notes))
    R.failed=[o for o in ex.obls if not o.ok]
    if R.status=="ok" and R.failed: R.status="failed"
    if R.status=="ok" and (not (R.nret or case=="else") or not R.obls): R.status="vacuous"
    return R
def verify_val(M,fname,dn,vf):
    """parameter-checking helper against its contract"""
    t0=time.time(); F=M.func(fname); R=Report(dn); ctrs=Contracts(M); ex=Executor(M,ctrs,dn); ex.maxpaths=2000
    S=State(); args=[]
    try:
        for i,k in enumerate(vf.sig):
            if k=="u": args.append(var(f"u{i}",0,U32))
            else: args.append(put_obj(S,f"im{i}",new_image(S,f"im{i}",2 if "16" in k else 1)))
        S0=S.copy(); cond=vf.cond(S0,args); want=vf.ret(S0,args)
        outs=ex.run(F,S.copy(),args); R.paths=len(outs)
        for o in outs:
            if not o.S.feasible(): continue
            if o.k=="throw":
                R.nthrow+=1
                if o.v is not None and "penguinVException" not in str(o.v): ex.oblige(o.S,"throws only penguinVException",FALSE,str(o.v))
                cs=[o.S.sub(x) for x in cond]; ok=prover.is_unsat(o.S.facts,band(*cs))
                ex.obls.append(Obl("C04 rejects only invalid parameters","throw",band(*cs),list(o.S.facts),ok,dn))
            elif o.k=="ret":
                R.nret+=1
                for x in cond: ex.oblige(o.S,"C04 accepts only valid parameters",o.S.sub(x),"return")
                if want is not None: ex.oblige(o.S,"returned value",bveq(tobv(o.v,8),o.S.sub(want)),"return")
            for k0,ob in S0.obj.items():
                if not same_obj(o.S,ob,o.S.obj.get(k0)): ex.obls.append(Obl("C02 parameter check has no side effect",str(k0),FALSE,list(o.S.facts),False,dn))
        R.status="ok"
    except Unsupported as u: R.status="unsupported"; R.reason=str(u)[:400]
    except NeedFork as u: R.status="unsupported"; R.reason=f"undecided case {u.cond}"[:400]
    R.obls=ex.obls; R.used=ex.used; R.loops=ex.nloop; R.time=time.time()-t0; R.assumed=sorted(set(ex.notes))
    R.failed=[o for o in ex.obls if not o.ok]
    if R.status=="ok" and R.failed: R.status="failed"
    if R.status=="ok" and (not R.nret or not R.obls): R.status="vacuous"
    return R
def verify_simdtype(M,fname,dn):
    """simd::actualSimdType: any result is an instruction set the processor reports and the switches allow"""
    t0=time.time(); F=M.func(fname); R=Report(dn); ctrs=Contracts(M); ex=Executor(M,ctrs,dn)
    try:
        outs=ex.run(F,State(),[]); R.paths=len(outs)
        for o in outs:
            if not o.S.feasible(): continue
            if o.k!="ret": ex.obls.append(Obl("C08 actualSimdType returns normally",o.k,FALSE,list(o.S.facts),False,dn)); continue
            R.nret+=1; v=topoly(o.v) if isinstance(o.v,Poly) else o.v
            def leaves(p,z):
                at=[x for x in p.atoms() if x.kind=="ite"]
                if not at: yield p,z; return
                c,x,y=at[0].args; rest=p-Poly.of(at[0])
                for g,q in((c,x),(bnot(c),y)):
                    w=z.copy()
                    if w.assume(g) and w.feasible(): yield from leaves(q+rest,w)
            for p,z in leaves(v,o.S):
                k=p.cval() if p.isconst() else -1; n={0:"AVX512SKL",1:"Avx",2:"Sse"}.get(k)
                ex.oblige(z,"C08 actualSimdType selects a compiled-in instruction set",TRUE if k in SIMDTYPES else FALSE,"return")
                if n is None: continue
                ex.oblige(z,"C08 actualSimdType selects an instruction set the processor has",bvar("SimdInfo.is"+n+"Available"),"return")
                g=[x for q in z.facts for x in collect(q,lambda y:y.op=="rd" and "is"+{"AVX512SKL":"Avx512"}.get(n,n)+"Enabled" in str(y.args[0] if hasattr(y,"args") else y))]
                ex.oblige(z,"C08 actualSimdType respects the switches",bnot(bveq(g[0],bvc(0,8))) if g else FALSE,"return")
        R.status="ok"
    except Unsupported as u: R.status="unsupported"; R.reason=str(u)[:400]
    except NeedFork as u: R.status="unsupported"; R.reason=f"undecided case {u.cond}"[:400]
    R.obls=ex.obls; R.used=ex.used; R.loops=ex.nloop; R.time=time.time()-t0; R.assumed=sorted(set(ex.notes))
    R.failed=[o for o in ex.obls if not o.ok]
    if R.status=="ok" and R.failed: R.status="failed"
    if R.status=="ok" and not R.nret: R.status="vacuous"
    return R
def tied(op,a,b):
    """coordinate parameters belonging to images a and b"""
    def coords(n):
        names=[p.split(":")[0] for p in op.full]; i=names.index(n); return names[i+1:i+3]
    x,y=coords(a),coords(b)
    # second one (later parameter) follows the first
    names=[p.split(":")[0] for p in op.full]
    if names.index(a)>names.index(b): x,y=y,x
    return list(zip(x,y))
def same_obj(S,a,b):
    if b is None or a.kind!=b.kind: return False
    for k,v in a.f.items():
        w=b.f.get(k)
        if v is w: continue
        if isinstance(v,Poly) and isinstance(w,Poly) and S.proves(eq(S.sub(v),w)): continue
        if isinstance(v,Bool) and isinstance(w,Bool) and S.proves(biff(v,w)): continue
        return False
    return True
def post(ex,o,c,form,S0,args,dn,sret):
    S=o.S
    eff=form.op.eff(c)
    # expected final memory: spec templates over the initial memory
    exp={}
    for img,ts in eff.get("writes",[]):
        exp.setdefault(img.data if not (form.returns and form.returns!="vec" and img.name=="out") else "new",[]).extend(ts)
    f=lambda x:S.sub(x)
    objs=dict(S0.obj)
    if form.returns=="vec":
        ob=S.obj.get(sret)
        if ob is None or ob.kind!="vec": ex.obls.append(Obl("C14 returns a vector","return",FALSE,list(S.facts),False,dn)); return
        comparevec(ex,S,ob,eff["vec"]["ret"],f,dn)
    elif form.returns:
        ob=S.obj.get(sret)
        if ob is None or ob.kind!="image":
            ex.obls.append(Obl("C14 returns an image","return",FALSE,list(S.facts),False,dn)); return
        n=c.v["out_obj"]
        for k in("w","h","cc"):
            ex.oblige(S,f"C14 result image has the right {k}",eq(ob.f[k],f(n.f[k])),str(ob.f[k]))
        ex.oblige(S,"C14 result image is not empty",bnot(ob.f["E"]),"")
        if ob.f["data"] is not None:
            ex.oblige(S,"C14 result row size",ge0(ob.f["rs"]-ob.f["w"]*ob.f["cc"]),"")
            c.v["out"]=Img(c,"out",ob,sret); ts=[]
            for img,tt in form.op.eff(c).get("writes",[]):
                if img.name=="out": ts+=[t.subst(f) for t in tt]
            r=ob.f["data"]
            if not getattr(r,"fresh",False): ex.oblige(S,"C14 result owns fresh storage",FALSE,str(r))
            compare(ex,S,r,S.mem.get(r,INIT),S0,ts,ob.f["rs"],ob.f["h"],form,dn,defined_only=True,roi=(ZERO,ZERO,ob.f["w"]*ob.f["cc"],ob.f["h"]),es=r.es)
    assigned={}
    for d,src in eff.get("assign",[]):
        kd=c.v[d].key; assigned[kd]=src; i=c.v[src].o; ob=S.obj.get(kd)
        if ob is None or ob.kind!="image": ex.obls.append(Obl("value inside: assigned image","",FALSE,list(S.facts),False,dn)); continue
        for k in("w","h","cc","rs","al"): ex.oblige(S,f"value inside: assigned image has the same {k}",eq(ob.f[k],f(i.f[k])),str(ob.f[k]))
        ex.oblige(S,"value inside: assigned image is not empty",biff(ob.f["E"],f(i.f["E"])),"")
        r=ob.f["data"]
        ex.oblige(S,"C02 assigned image has its own storage",FALSE if r is None or any(o2.kind=="image" and k2!=kd and o2.f["data"] is r for k2,o2 in S.obj.items()) else TRUE,"")
        if r is not None:
            q=var("k",0,None,fresh=True); A=S.copy(); A.facts+=[ge0(q),ge0(f(i.f["h"]*i.f["rs"])-q-1)]
            def same(C,q=q,r=r,i=i): return equal_val(C,mem.read(C,r,C.mem.get(r,INIT),q*r.es,r.es),mem.init_read(C,i.f["data"],q*r.es,r.es),r.es)
            cases(ex,A,same,"value inside the assigned image",dn)
    if "ret" in eff:
        want=f(eff["ret"])
        if isinstance(want,BV): cases(ex,S,lambda C:equal_val(C,tobv(o.v,want.w),want,want.w//8),"value returned",dn)
        elif isinstance(want,Bool): retbool(ex,S,o.v,want,dn)
        else: cases(ex,S,lambda C:same_sum(C,topoly(o.v),want,32),"value returned",dn)
    # objects unchanged
    for k0,ob in S0.obj.items():
        if k0 in assigned: continue
        if ob.kind=="image":
            sm=same_obj(S,ob,S.obj.get(k0)); ex.obls.append(Obl("C02 image header unchanged",str(k0),TRUE if sm else FALSE,list(S.facts),sm,dn))
    seen=set()
    for k0,ob in S0.obj.items():
        r=ob.f["data"]
        if r in seen or r is None or k0 in assigned: continue
        seen.add(r)
        if ob.kind=="image":
            ts=[t.subst(f) for t in exp.get(r,[])]
            node=S.mem.get(r,INIT)
            if node is S0.mem.get(r,INIT) and not ts: continue
            compare(ex,S,r,node,S0,ts,f(ob.f["rs"]),f(ob.f["h"]),form,dn)
        elif ob.kind=="vec":
            now=S.obj.get(k0)
            ev=eff.get("vec",{}).get(k0)
            if ev is None:
                if now is None or now.f["data"] is not r or S.mem.get(r,INIT) is not INIT: ex.obls.append(Obl("C02 table unchanged",str(k0),FALSE,list(S.facts),False,dn))
            else: comparevec(ex,S,now,ev,f,dn)
def retbool(ex,S,v,want,dn):
    b=v if isinstance(v,Bool) else bnot(bveq(tobv(v,8),bvc(0,8)))
    neg,q=(True,want.args[0]) if want.op=="not" else (False,want)
    cb=count_body(q.args[0]) if q.op=="eq0" else None
    def go(C):
        if C.proves(biff(b,want)): return True
        if cb is not None:
            z=C.simp(b)
            if z is TRUE or z is FALSE:
                if ((z is TRUE)!=neg and never(C,*cb)) or ((z is TRUE)==neg and witness(C,*cb)): return True
            else: raise NeedFork(b)
        if os.environ.get("PVC_DBG"):
            print("BOOL",term.dump(b),"\n   ==  ",term.dump(want),"\n",[str(z) for z in C.facts],C.tag)
        C.tag["goal"]=biff(b,want); return False
    cases(ex,S,go,"value returned",dn)
def comparevec(ex,S,now,ev,f,dn):
    n,val=ev[:2]    # length, function index -> Poly; optionally (rows, columns, function of row and column)
    ex.oblige(S,"C05 result vector length",eq(now.f["n"],f(n)),str(now.f["n"]))
    es=now.f["data"].es; A=S.copy()
    if len(ev)>2:
        H,W,v2=ev[2]; H=f(H); W=f(W)
        r=var("r",0,None,fresh=True); q=var("c",0,None,fresh=True); k=r*W+q; sym=v2(r,q)
        A.facts+=[ge0(r),lt(r,H),ge0(q),lt(q,W)]
    else:
        k=var("bin",0,None,fresh=True); A.facts+= [ge0(k),lt(k,f(n))]
        sym=val(k)
    cases(ex,A,lambda C:equal_int(ex,C,C.read(now.f["data"],k*es,es),f(sym),32),"C05 result vector element",dn)
def equal_int(ex,C,a,b,w):
    return same_sum(C,topoly(a),topoly(b),w)
def same_sum(C,a,b,w):
    d=a-b
    if d.isconst(): return d.cval()%(1<<w)==0
    if C.proves(eq0(d)): return True
    d=norm_divs(C,d)
    if d.isconst(): return d.cval()%(1<<w)==0
    if any(x.kind=="sum" for x in d.atoms()):
        import sums
        d=sums.cancel(C,d)
        if d.isconst(): return d.cval()%(1<<w)==0
    import os
    if os.environ.get("PVC_DBG"): print("GOAL",a,"  ==  ",b,[ (x.kind,x.name,x.args) for x in d.atoms()]); print([str(z) for z in C.facts])
    C.tag["goal"]=eq0(d); return False
def cases(ex,S,fn,what,dn,depth=0):
    """run fn under case splits; record one obligation per leaf"""
    try:
        ok=fn(S)
        g=S.tag.pop("goal",FALSE)
        ex.obls.append(Obl(what,"",TRUE if ok else g,list(S.facts),bool(ok),dn))
    except NeedFork as nf:
        if depth>10: raise Unsupported("too many cases")
        for cnd in(nf.cond,bnot(nf.cond)):
            A=S.copy(); A.facts.append(cnd); A.depth=1
            if A.feasible(): cases(ex,A,fn,what,dn,depth+1)
def same_writes(a,b):
    if len(a)!=len(b): return False
    for t,u in zip(a,b):
        if len(t.idx)!=len(u.idx) or t.size!=u.size: return False
        m={}
        for (x,n),(y,k) in zip(t.idx,u.idx):
            if (Subst(m)(n) if m else n) is not k: return False
            m[x]=Poly.of(y)
        f=Subst(m) if m else (lambda x:x)
        if f(t.off) is not u.off or f(t.val) is not u.val or f(t.guard) is not u.guard: return False
    return True
def compare(ex,S,r,node,S0,ts,rs,h,form,dn,defined_only=False,roi=None,es=None):
    """final memory == specified memory at every element of the region"""
    es=r.es
    if ts and node is not INIT and not isinstance(node,Prefix) and node.prev is INIT and node.kind=="set" and same_writes(ts,node.ts):
        # exactly the specified writes, in the specified order
        ex.obls.append(Obl("value inside the output region","identical writes",TRUE,list(S.facts),True,dn))
        ex.obls.append(Obl("C02 unchanged outside the written elements","identical writes",TRUE,list(S.facts),True,dn))
        return
    # inside the written regions: at a symbolic instance of each spec template
    for t in ts:
        u,m=t.rename()
        A=S.copy(); A.depth+=1; A.facts+=[x for x in u.ranges() if x is not TRUE]
        if u.guard is not TRUE: A.facts.append(u.guard)
        if not A.feasible(): continue
        def inside(C,u=u):
            got=mem.read(C,r,node,u.off,es)
            return equal_val(C,got,u.val,es)
        if t.val is not None: cases(ex,A,inside,"value inside the output region",dn)
        ex.oblige(A,"output region inside the image",band(ge0(u.off),ge0(rs*h*es-u.off-es)),"")
    if defined_only and roi is None: return
    # outside: every other element keeps its value
    if defined_only:
        # freshly created image: every component of every pixel must be specified
        if not ts: ex.oblige(S,"every pixel of the new image is specified",FALSE,""); return
        bx=ts[0].box
        if bx is None or any(t.box!=bx for t in ts): raise Unsupported("irregular region of a new image")
        y0,x0,hh,ww,k=bx
        ex.oblige(S,"every pixel of the new image is specified",band(eq(y0,0),eq(x0,0),eq(hh,h),eq(ww*k,roi[2])),"")
        for j in range(k.cval()):
            rr=var("r",0,None,fresh=True); cc=var("c",0,None,fresh=True)
            A=S.copy(); A.depth+=1; A.facts+=[ge0(hh-rr-1),ge0(ww-cc-1)]
            o=(rr*rs+k*cc+j)*es
            cases(ex,A,lambda C,o=o: any(mem.match(C,t,o,es) is not None for t in ts),"every pixel of the new image is specified",dn)
        return
    R_=var("R",0,None,fresh=True); C_=var("C",0,None,fresh=True)
    off=(R_*rs+C_)*es
    base=S.copy(); base.depth+=1; base.facts+=[ge0(h-R_-1),ge0(rs-C_-1)]
    def unchanged(C,off=off):
        got=mem.read(C,r,node,off,es)
        return equal_val(C,got,mem.init_read(C,r,off,es),es)
    def written_or(C,off=off):
        return any(mem.match(C,t,off,es) is not None for t in ts) or unchanged(C,off)
    if not ts:
        cases(ex,base,unchanged,"C02 image unchanged",dn); return
    if all(t.box is None for t in ts):
        cases(ex,base,written_or,"C02 unchanged outside the written elements",dn); return
    bx=ts[0].box
    if any(t.box!=bx for t in ts): raise Unsupported("several boxes")
    y0,x0,hh,ww,k=bx; ww=ww*k
    for lab,fs in (("rows above",[lt(R_,y0)]),("rows below",[le(y0+hh,R_)]),("left of",[le(y0,R_),lt(R_,y0+hh),lt(C_,x0)]),("right of",[le(y0,R_),lt(R_,y0+hh),le(x0+ww,C_)])):
        A=base.copy(); A.facts+=[x for x in fs if x is not TRUE]
        if FALSE in A.facts or not A.feasible(): continue
        cases(ex,A,unchanged,f"C02 unchanged {lab} the region",dn)
    if k is ONE: return
    for j in range(k.cval()):
        rr=var("r",0,None,fresh=True); cc=var("c",0,None,fresh=True)
        A=S.copy(); A.depth+=1; A.facts+=[ge0(hh-rr-1),ge0(bx[3]-cc-1)]
        o=((y0+rr)*rs+x0+k*cc+j)*es
        cases(ex,A,lambda C,o=o: written_or(C,o),"C02 other components unchanged",dn)
def equal_val(C,a,b,es):
    if isinstance(a,Poly) or isinstance(b,Poly):
        a=topoly(a) if not isinstance(a,Poly) else a; b=topoly(b) if not isinstance(b,Poly) else b
        if a is b: return True
        a=norm_reads(C,a,b)
        if a is b or C.proves(eq(a,b)): return True
        C.tag["goal"]=eq(a,b); return False
    a=tobv(a,8*es); b=tobv(b,8*es)
    if a is b: return True
    a=norm_reads(C,a,b)
    if a is b: return True
    x,y=bvint(a),bvint(b)
    if x is not None and y is not None and (a.op not in("rd","var","const") or b.op not in("rd","var","const")) and (x is y or C.proves(eq(x,y))): return True
    if C.proves(bveq(a,b)): return True
    C.tag["goal"]=bveq(a,b); return False
