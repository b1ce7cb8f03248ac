"""Contracts of project functions at their call sites: the callee's specification is used, never its body."""
import re, llvmc
from term import *
import term, prover, mem
from mem import *
from exec import *
from contracts import *
import contracts, specs, check

VAL=re.compile(r"^(?:void|unsigned char) Image_Function::(ValidateImageParameters|VerifyGrayScaleImage|VerifyRGBImage|VerifyRGBAImage|CheckCommonColorCount)<")
def val_sig(dn):
    """parameter kinds (images by value count as images)"""
    out=[]
    for x in check.split_args(dn):
        if x.startswith("penguinV::ImageTemplate<"): out.append("I16" if "short" in x else "I")
        elif x=="unsigned int": out.append("u")
        else: return None
    return out
class ValForm:
    """contract of a parameter-checking helper"""
    def __init__(s,name,sig,dn): s.name=name; s.sig=sig; s.full=True; s.params=[]; s.returns=False; s.dn=dn
    def __repr__(s): return f"{s.name}({' '.join(s.sig)})"
    def cond(s,S,args):
        """conditions for a normal return; args are values (pointers for images)"""
        im=[]; rois=[]; k=0
        view=lambda p: specs.Img(None,"",obj(S,p,"image"),key(p))
        if s.name.startswith("Verify"):
            n={"VerifyGrayScaleImage":1,"VerifyRGBImage":3,"VerifyRGBAImage":4}[s.name]
            return [eq(view(a).cc,n) for a in args]
        if s.name=="CheckCommonColorCount":
            v=[view(a) for a in args]; return [eq(v[0].cc,x.cc) for x in v[1:]]
        if "u" not in s.sig:
            v=[view(a) for a in args]
            cs=[]
            for x in v: cs+=[bnot(x.E),specs.badcc(x)]
            for x in v[1:]: cs+=[eq(v[0].w,x.w),eq(v[0].h,x.h)]
            return cs
        w,h=args[-2],args[-1]; cs=[]
        for k in range(0,len(args)-2,3):
            cs+=specs.roi_ok(view(args[k]),args[k+1],args[k+2],w,h)
        return cs
    def ret(s,S,args):
        if s.name=="CheckCommonColorCount": return tobv(obj(S,args[0],"image").cc,8)
        return None
def valform(dn):
    m=VAL.match(dn)
    if not m: return None
    sig=val_sig(dn)
    if sig is None: return None
    n=m.group(1)
    if "u" in sig:
        if n!="ValidateImageParameters": return None
        k=len(sig)-2
        if k<3 or k%3 or any(sig[i:i+3][0]=="u" or sig[i+1:i+3]!=["u","u"] for i in range(0,k,3)) or sig[-2:]!=["u","u"]: return None
    elif n=="CheckCommonColorCount" and len(sig)<2: return None
    return ValForm(n,sig,dn)
def branch(ex,S,I,cs,then,what):
    """states after a contract call that throws unless all of cs hold"""
    res=[]
    bad=S.copy()
    c=band(*cs)
    if c is not TRUE and bad.assume(bnot(c)) and bad.feasible(): res.append(("throw",bad,"penguinVException"))
    good=S
    ok=all([good.assume(x) for x in cs]) and good.feasible()
    if ok:
        then(good)
        res.append(("next",good,None))
    return ("states",res)
def val_handler(dn):
    f=valform(dn)
    if f is None: return None
    def h(ex,S,I,args,_):
        a=[]
        for k,v in zip(f.sig,args): a.append(ex.canonU(S,v,32) if k=="u" else v)
        cs=f.cond(S,a)
        r=f.ret(S,a)
        def then(G):
            if I.dst is not None: G.env[I.dst]=G.sub(r)
        return branch(ex,S,I,cs,then,dn)
    return h
def canon_args(ex,S,params,args):
    out=[]
    for p,a in zip(params,args):
        k=p.split(":")[1] if ":" in p else "u"
        if k=="u": a=ex.canonU(S,a,32)
        elif k=="s": a=ex.canonU(S,topoly(a),32)
        elif k=="b": a=tobv(a,8)
        elif k=="f" and not isinstance(a,Bool): a=bnot(bveq(tobv(a,8),bvc(0,8)))
        out.append(a)
    return out
def form_handler(dn,form):
    def h(ex,S,I,args,_):
        off=1 if form.returns else 0
        if len(args)-off!=len(form.params): raise Unsupported(f"call of {dn}: argument count")
        a=canon_args(ex,S,form.params,args[off:])
        if form.simd: ex.oblige(S,"C08 instruction set is one the function supports",bor(*[eq(a[-1],k) for k in check.SIMDTYPES]),str(a[-1]))
        names=[p.split(":")[0] for p in form.params]
        ims=[(n,x) for n,p,x in zip(names,form.params,a) if p.split(":")[-1] in("I","O","I16","O16")]
        for i in range(len(ims)):
            for j in range(i+1,len(ims)):
                if key(ims[i][1])==key(ims[j][1]):
                    p,q=ims[i][0],ims[j][0]
                    if p.startswith("in") and q.startswith("in"): continue
                    if (p,q) not in form.op.alias and (q,p) not in form.op.alias: raise Unsupported(f"call of {dn}: {p} and {q} are the same image")
                    if form.full:
                        for x,y in check.tied(form.op,p,q):
                            if not S.proves(eq(a[names.index(x)],a[names.index(y)])): raise Unsupported(f"call of {dn}: overlapping regions")
        c=specs.Ctx(S.copy()); check.bind(c,S,form,a,key); case=0
        if len(form.op.cases)>1:
            for i,f in enumerate(form.op.cases):
                z=S.simp(band(*f(c)))
                if z is TRUE: case=i; break
                if z is not FALSE: raise NeedFork(z)
        c.v["case"]=case; cs=check.expected(c,form)
        sret=key(args[0]) if form.returns else None
        def then(G):
            b=[G.sub(x) if isinstance(x,(Poly,Node)) else x for x in a]
            c=specs.Ctx(G.copy()); check.bind(c,G,form,b,key); c.v["case"]=case; check.expected(c,form)
            if form.returns and form.returns!="vec":
                n=c.v["out_obj"]
                o=fresh_image(ex,G,n.w,n.h,n.cc,ONE,n.type,n.es.cval(),"ret")
                G.obj[sret]=o; c.S0=G.copy(); c.v["out"]=specs.Img(c,"out",o,sret)
            eff=form.op.eff(c)
            by={}
            for d,src in eff.get("assign",[]): G.obj[c.v[d].key]=contracts.clone_image(ex,G,c.v[src].o)
            for img,ts in eff.get("writes",[]):
                by.setdefault(img.data,[]).extend(ts)
            for r,ts in by.items():
                n=len(G.trace); 
                ts=[T(t.idx,t.off,t.size,t.val,t.guard,(n,i,)+tuple(x for x,_ in t.idx)) for i,t in enumerate(ts)]
                G.mem[r]=Node_(G.mem.get(r,INIT),ts); G.trace.append(("contract",))
            for k0,(n,val,*_) in eff.get("vec",{}).items():
                if k0=="ret": k0=sret
                es=G.obj[k0].data.es if k0!=sret else 4
                r=Region(f"res{next(X._und)}",es,n*es,"data"); r.fresh=True
                r.fill=lambda A,size,val=val,es=es: val(fdiv(A,es)); G.mem[r]=INIT
                G.obj[k0]=Obj("vec",n=n,data=r,es=P(es))
            if "ret" in eff:
                if I.dst is not None: G.env[I.dst]=eff["ret"]
        return branch(ex,S,I,cs,then,dn)
    return h
def handler(dn,M=None,name=None):
    h=val_handler(dn)
    if h is not None: return h
    if (check.APIFN.match(dn) or check.SIMDFN.match(dn)) and M is not None:
        f=M.funcs.get(name)
        if not f: return None
        form=check.form_for(dn,llvmc.CountParams(f))
        if form is not None: return form_handler(dn,form)
    return None
