"""Compile a translation unit of /repo to LLVM IR, normalise it with a fixed list of LLVM passes,
and present functions as plain python objects."""
import ctypes as C, subprocess, os, re, hashlib
import llvmc as ll
from llvmc import P

class Ty:
    __slots__=("k","n","el","els","name","size","offs")
    def __init__(s,k,n=0,el=None,els=None,name=None,size=0,offs=None):
        s.k=k; s.n=n; s.el=el; s.els=els; s.name=name; s.size=size; s.offs=offs
    def __repr__(s):
        if s.k=="int": return f"i{s.n}"
        if s.k in("vector","array"): return f"<{s.n} x {s.el}>" if s.k=="vector" else f"[{s.n} x {s.el}]"
        if s.k=="struct": return s.name or "{..}"
        return s.k
class Const:
    __slots__=("ty","v","k")   # k: int, null, undef, zero, agg, gvar, func, fp, expr, other
    def __init__(s,k,ty,v=None): s.k=k; s.ty=ty; s.v=v
    def __repr__(s): return f"{s.k}:{s.v}"
class Reg:
    __slots__=("ty","n","name","d")
    def __init__(s,ty,n,name=""): s.ty=ty; s.n=n; s.name=name; s.d=None
    def __repr__(s): return f"%{s.n}"
class Inst:
    __slots__=("op","ty","ops","dst","x","nsw","nuw","ptr")
    def __repr__(s): return f"{s.dst} = {s.op} {s.ops} {s.x}"
class BB:
    __slots__=("id","insts","name","succ","pred")
    def __repr__(s): return f"bb{s.id}"
class Func: pass

class Module:
    def __init__(self, mod, ctx):
        self.mod=mod; self.ctx=ctx; self.tc={}; self.dl=ll.GetModuleDataLayout(mod)
        self.funcs={}; self.gvars={}; self.cache={}
        f=ll.GetFirstFunction(mod)
        while f:
            self.funcs[ll.name(f)]=f; f=ll.GetNextFunction(f)
        g=ll.GetFirstGlobal(mod)
        while g:
            self.gvars[ll.name(g)]=g; g=ll.GetNextGlobal(g)
    def ty(self,t):
        r=self.tc.get(t)
        if r: return r
        k=ll.TK.get(ll.GetTypeKind(t),"other")
        r=Ty(k); self.tc[t]=r
        if k=="int": r.n=ll.GetIntTypeWidth(t); r.size=ll.ABISizeOfType(self.dl,t)
        elif k=="ptr": r.size=8
        elif k in("float","double","x86fp80","half"): r.size=ll.ABISizeOfType(self.dl,t)
        elif k=="vector": r.n=ll.GetVectorSize(t); r.el=self.ty(ll.GetElementType(t)); r.size=ll.ABISizeOfType(self.dl,t)
        elif k=="array": r.n=ll.GetArrayLength2(t); r.el=self.ty(ll.GetElementType(t)); r.size=ll.ABISizeOfType(self.dl,t)
        elif k=="struct":
            n=ll.CountStructElementTypes(t)
            nm=ll.GetStructName(t); r.name=nm.decode() if nm else None
            try:
                r.els=[self.ty(ll.StructGetTypeAtIndex(t,i)) for i in range(n)]
                r.size=ll.ABISizeOfType(self.dl,t)
                r.offs=[ll.OffsetOfElement(self.dl,t,i) for i in range(n)]
            except Exception: pass
        return r
    def const(self,v):
        k=ll.VK.get(ll.GetValueKind(v),"other"); t=self.ty(ll.TypeOf(v))
        if k=="cint":
            if t.n<=64: return Const("int",t,ll.ConstIntZ(v))
            m=re.search(r"(-?\d+)\s*$",ll.vstr(v)); return Const("int",t,int(m.group(1))%(1<<t.n))
        if k=="cnull": return Const("null",t)
        if k in("undef","poison"): return Const("undef",t)
        if k=="zeroinit": return Const("zero",t)
        if k in("cdatavector","cvector","carray","cdataarray","cstruct"):
            n=t.n if t.k in("vector","array") else len(t.els)
            return Const("agg",t,[self.const(ll.GetAggregateElement(v,i)) for i in range(n)])
        if k=="gvar": return Const("gvar",t,ll.name(v))
        if k=="func": return Const("func",t,ll.name(v))
        if k=="alias": return Const("func",t,ll.name(v))
        if k=="cfp":
            li=C.c_int(); return Const("fp",t,ll.ConstRealGetDouble(v,C.byref(li)))
        if k=="constexpr":
            op=ll.OPC.get(ll.GetConstOpcode(v),"?")
            ops=[self.const(ll.GetOperand(v,i)) for i in range(ll.GetNumOperands(v))]
            c=Const("expr",t,(op,ops,self.ty(ll.GetGEPSourceElementType(v)) if op=="getelementptr" else None)); return c
        return Const("other",t,ll.vstr(v)[:80])
    def func(self,name):
        if name in self.cache: return self.cache[name]
        f=self.funcs.get(name)
        if not f or ll.IsDeclaration(f): return None
        F=Func(); F.name=name; F.params=[]; regs={}; n=[0]
        def mk(v):
            r=Reg(self.ty(ll.TypeOf(v)),n[0]); n[0]+=1; regs[v]=r; return r
        for i in range(ll.CountParams(f)): F.params.append(mk(ll.GetParam(f,i)))
        bbs=[]; idx={}
        b=ll.GetFirstBB(f)
        while b:
            B=BB(); B.id=len(bbs); B.insts=[]; B.pred=[]; B.succ=[]; idx[b]=B; bbs.append((b,B)); b=ll.GetNextBB(b)
        raw=[]
        for b,B in bbs:
            i=ll.GetFirstInst(b)
            while i:
                I=Inst(); I.op=ll.OPC.get(ll.GetInstOpcode(i),"?"); I.ty=self.ty(ll.TypeOf(i)); I.x=None; I.ptr=i
                I.nsw=I.nuw=False
                I.dst=mk(i) if I.ty.k!="void" else None
                if I.dst: I.dst.d=I
                B.insts.append(I); raw.append((i,I,b)); i=ll.GetNextInst(i)
        def opnd(v):
            r=regs.get(v)
            return r if r is not None else self.const(v)
        for i,I,b in raw:
            op=I.op
            if op=="phi":
                I.ops=[]; I.x=[]
                for k in range(ll.CountIncoming(i)):
                    I.ops.append(opnd(ll.GetIncomingValue(i,k))); I.x.append(idx[ll.GetIncomingBlock(i,k)])
            elif op=="br":
                ns=ll.GetNumSuccessors(i)
                I.ops=[opnd(ll.GetCondition(i))] if ns==2 else []
                I.x=[idx[ll.GetSuccessor(i,k)] for k in range(ns)]
            elif op=="switch":
                ns=ll.GetNumSuccessors(i); I.ops=[opnd(ll.GetOperand(i,0))]
                cases=[]
                for k in range(1,ns): cases.append((ll.ConstIntZ(ll.GetOperand(i,2*k)),idx[ll.GetSuccessor(i,k)]))
                I.x=(idx[ll.GetSuccessor(i,0)],cases)
            elif op in("call","invoke"):
                na=ll.GetNumArgOperands(i); cv=ll.GetCalledValue(i)
                I.ops=[opnd(ll.GetOperand(i,k)) if ll.TK.get(ll.GetTypeKind(ll.TypeOf(ll.GetOperand(i,k))))!="metadata" else None for k in range(na)]
                I.x={"callee":opnd(cv)}
                if op=="invoke": I.x["normal"]=idx[ll.GetNormalDest(i)]; I.x["unwind"]=idx[ll.GetUnwindDest(i)]
            else:
                I.ops=[opnd(ll.GetOperand(i,k)) for k in range(ll.GetNumOperands(i))]
                if op=="icmp": I.x=ll.ICMP[ll.GetICmpPredicate(i)]
                elif op=="fcmp": I.x=ll.GetFCmpPredicate(i)
                elif op=="getelementptr": I.x=self.ty(ll.GetGEPSourceElementType(i))
                elif op in("load","store"): I.x=bool(ll.GetVolatile(i))
                elif op=="alloca": I.x=self.ty(ll.GetAllocatedType(i))
                elif op in("extractvalue","insertvalue"):
                    k=ll.GetNumIndices(i); p=ll.GetIndices(i); I.x=[p[j] for j in range(k)]
                elif op=="shufflevector": I.x=[ll.GetMaskValue(i,j) for j in range(ll.GetNumMaskElements(i))]
                elif op in("add","sub","mul","shl"): I.nsw=bool(ll.GetNSW(i)); I.nuw=bool(ll.GetNUW(i))
                if op=="atomicrmw" or op=="cmpxchg": I.x=ll.vstr(i)
        for b,B in bbs:
            t=B.insts[-1]
            if t.op=="br": B.succ=list(t.x)
            elif t.op=="switch": B.succ=[t.x[0]]+[c[1] for c in t.x[1]]
            elif t.op=="invoke": B.succ=[t.x["normal"],t.x["unwind"]]
            for s in B.succ:
                if B not in s.pred: s.pred.append(B)
        F.bbs=[B for _,B in bbs]; F.ret=None
        self.cache[name]=F
        return F
    def gvar_init(self,name):
        g=self.gvars.get(name)
        if not g or not ll.IsGlobalConstant(g): return None
        i=ll.GetInitializer(g)
        return self.const(i) if i else None

def demangle(names):
    p=subprocess.run(["c++filt"],input="\n".join(names),capture_output=True,text=True)
    return dict(zip(names,p.stdout.split("\n")))

BASEFLAGS=["-std=c++11","-O1","-Xclang","-disable-llvm-passes","-fno-threadsafe-statics","-fno-strict-aliasing","-w"]
def compile_ll(src,out,flags=()):
    cmd=["clang++-18",*BASEFLAGS,*flags,"-emit-llvm","-c",src,"-o",out]
    p=subprocess.run(cmd,capture_output=True,text=True)
    if p.returncode!=0: raise RuntimeError("compile failed: "+" ".join(cmd)+"\n"+p.stderr[-3000:])
_TM=None
def target_machine():
    global _TM
    if _TM is None:
        t=P(); e=C.c_char_p()
        if ll.GetTargetFromTriple(b"x86_64-pc-linux-gnu",C.byref(t),C.byref(e)): return None
        _TM=ll.CreateTM(t,b"x86_64-pc-linux-gnu",b"x86-64",b"",0,0,0)
    return _TM
PASSES=b"always-inline,globaldce,function(sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg<no-switch-to-lookup;sink-common-insts>,sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,loop-simplify,lcssa,instcombine<no-verify-fixpoint>,simplifycfg,loop-simplify)"
def load(bc, keep, passes=PASSES, roots=None, dump=None):
    """keep(demangled,mangled) -> True when calls to the function stay calls (contract boundary)."""
    ctx=ll.ContextCreate(); buf=P(); msg=C.c_char_p(); mod=P()
    if ll.CreateMemBuf(bc.encode(),C.byref(buf),C.byref(msg)): raise RuntimeError(msg.value)
    if ll.ParseIR(ctx,buf,C.byref(mod),C.byref(msg)): raise RuntimeError(msg.value)
    M=Module(mod,ctx)
    dm=demangle(list(M.funcs))
    def kind(s): return ll.GetEnumKind(s.encode(),len(s))
    ai=ll.CreateEnumAttr(ctx,kind("alwaysinline"),0); ni=ll.CreateEnumAttr(ctx,kind("noinline"),0)
    FN=-1
    for nm,f in M.funcs.items():
        if ll.IsDeclaration(f): continue
        for a in("noinline","alwaysinline","optnone"): ll.RemoveEnumAttr(f,FN,kind(a))
        if keep(dm[nm],nm): ll.AddAttr(f,FN,ni)
        else: ll.AddAttr(f,FN,ai)
        # linkonce/internal bodies must survive only when referenced
    err=ll.RunPasses(mod,passes,None,ll.CreatePBO())
    if err: raise RuntimeError(C.string_at(ll.GetErrorMessage(err)))
    if dump: ll.PrintModuleToFile(mod,dump.encode(),C.byref(msg))
    M2=Module(mod,ctx); M2.dm=dm
    return M2
