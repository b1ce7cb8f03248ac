"""Builds the IR modules from /repo's current sources and verifies functions in parallel."""
import os, sys, re, subprocess, tempfile, shutil, time, traceback, multiprocessing as mp, json
import c11, ir, check, specs, api, contracts, prover, clkern, clcontracts
REPO=os.environ.get("PVC_REPO","/repo")
SRC=REPO+"/src"
def keep(d,m):
    if d.startswith("penguinV::ImageTemplate") or d.startswith("std::vector<") or d.startswith("void std::fill") or "penguinVException" in d[:24]: return True
    if check.APIFN.match(d): return True
    if check.SIMDFN.match(d) or d=="simd::actualSimdType()" or d.startswith("SimdInfo::is"): return True
    if api.valform(d) is not None: return True
    if d.startswith(("std::__throw","std::exception","std::logic_error")): return True
    return False
UNITS={"scalar":([("image_function.cpp",[]),("image_function_helper.cpp",[])]),
       "image":([("@image_tu.cpp",[])]),
       "opencl":([("opencl/image_function_opencl.cpp",[]),("image_function_helper.cpp",[])]),
       "simd":([("image_function_simd.cpp",["-mavx512f","-mavx512cd","-mavx512bw","-mavx512dq","-mavx512vl","-mavx2","-mssse3"]),("image_function_helper.cpp",["-mavx512f","-mavx512cd","-mavx512bw","-mavx512dq","-mavx512vl","-mavx2","-mssse3"])])}
def build(unit,work,dump=None):
    bcs=[]
    for src,fl in UNITS[unit]:
        out=f"{work}/{unit}_{os.path.basename(src).strip('@')}.bc"; path=os.path.dirname(os.path.abspath(__file__))+"/"+src[1:] if src[0]=="@" else f"{SRC}/{src}"
        if src.startswith("opencl/"): bcs+=clkern.build(f"{SRC}/{src}",work,unit+os.path.basename(src))
        ir.compile_ll(path,out,["-I"+SRC]+fl); bcs.append(out)
    bc=f"{work}/{unit}.bc"
    p=subprocess.run(["llvm-link-18","-o",bc]+bcs,capture_output=True,text=True)
    if p.returncode: raise RuntimeError("llvm-link: "+p.stderr[-2000:])
    return bc
_MOD={}
class SimdTypeForm:
    """contract of simd::actualSimdType: an instruction set that is compiled in, reported by the processor and enabled"""
    def __init__(s): s.full=True; s.params=[]; s.returns=False; s.name="actualSimdType"
    def __repr__(s): return "actualSimdType()"
def module(bc,dump=None):
    b=os.path.basename(bc)
    if bc not in _MOD: _MOD[bc]=ir.load(bc,(lambda d,m:keep(d,m) or clcontracts.keep(d)) if "opencl" in b else c11.keep if b.startswith("image.") else keep,dump=dump); _MOD[bc].image=b.startswith("image.")
    return _MOD[bc]
def functions(M):
    """(mangled, demangled, form) for every function with a contract"""
    if M.image: return c11.functions(M)
    out=[]
    for nm in M.funcs:
        d=M.dm.get(nm,nm); 
        v=api.valform(d)
        if v is not None and M.func(nm): out.append((nm,d,v)); continue
        if d=="simd::actualSimdType()" and M.func(nm): out.append((nm,d,SimdTypeForm())); continue
        if not check.APIFN.match(d) and not check.SIMDFN.match(d): continue
        F=M.func(nm)
        if F is None: continue
        form=check.form_for(d,len(F.params))
        out.append((nm,d,form))
    return out
def form_of(M,nm,d):
    for n,dd,f in functions(M):
        if n==nm: return f
def aliases(form):
    if isinstance(form,(api.ValForm,SimdTypeForm,c11.ImageForm)): return []
    return [tuple(a) for a in form.op.alias] if (form.full or not form.returns) else []
def variants(form): return list(check.SIMDTYPES) if getattr(form,"simd",False) else [None]
def one(bc,nm,d,form,alias,variant=None):
    M=module(bc)
    if isinstance(form,c11.ImageForm): return c11.verify(M,nm,d,form)
    if isinstance(form,SimdTypeForm): return check.verify_simdtype(M,nm,d)
    if isinstance(form,api.ValForm): return check.verify_val(M,nm,d,form)
    return check.verify(M,nm,d,form,alias=alias,variant=variant)
if __name__=="__main__":
    import argparse
    ap=argparse.ArgumentParser(); ap.add_argument("unit"); ap.add_argument("pat",nargs="?",default="."); ap.add_argument("-v",action="store_true"); a=ap.parse_args()
    work=tempfile.mkdtemp(prefix="pvc")
    try:
        bc=build(a.unit,work); M=module(bc,dump=f"/tmp/{a.unit}.ll")
        for nm,d,form in functions(M):
            if not re.search(a.pat,d.split("(")[0]+" "+(repr(form))): continue
            sh=d.replace("penguinV::ImageTemplate<unsigned char>","Image").replace("penguinV::ImageTemplate<unsigned short>","Image16").replace("unsigned int","u32").replace("Image_Function::","").replace("std::vector<u32, std::allocator<u32> >","vec32")
            if form is None: print("NO CONTRACT",sh); continue
            for al in [()]+aliases(form):
              for va in variants(form):
                try: R=one(bc,nm,d,form,al,va)
                except Exception: print("CRASH",sh,al,va); traceback.print_exc(); continue
                print(check.SIMDTYPES.get(va,""),f"{R.status:12s} {R.time:6.1f}s paths {R.paths} ret {R.nret} throw {R.nthrow} obl {len(R.obls)} failed {len(R.failed)} loops {R.loops} {sh[:150]} {al} {R.reason}",flush=True)
                for o in R.failed[:6]: print('      FAIL',o.kind,o.where[:200],str(o.goal)[:200])
    finally: shutil.rmtree(work)
