"""OpenCL: the kernel source text is cut out of /repo's .cpp file on every run, compiled as OpenCL C by clang, the
work-item identifiers become parameters, and every kernel gets a launcher that runs it for all work-items of the range."""
import re, subprocess
class Bad(RuntimeError): pass
def sh(cmd, **k):
    p=subprocess.run(cmd,capture_output=True,text=True,**k)
    if p.returncode: raise Bad(" ".join(cmd)+"\n"+p.stderr[-2000:])
    return p.stdout
def kernel_text(cpp):
    """all raw string literals of the file which contain kernels"""
    return [m.group(2) for m in re.finditer(r'R"(\w*)\((.*?)\)\1"',cpp,re.S) if "__kernel" in m.group(2) or "kernel void" in m.group(2)]
CT={"i8":"unsigned char","i16":"unsigned short","i32":"unsigned int","i64":"unsigned long","ptr":"void*"}
ATOM={"add":"*p=o+v","sub":"*p=o-v","min":"if(v<o)*p=v","max":"if(o<v)*p=v","inc":"*p=o+1","dec":"*p=o-1","xchg":"*p=v","or":"*p=o|v","and":"*p=o&v","xor":"*p=o^v"}
def build(cpp,work,tag):
    out=[]
    for n,txt in enumerate(kernel_text(open(cpp).read())):
        b=f"{work}/{tag}_k{n}"
        open(b+".cl","w").write(txt)
        sh(["clang-18","-x","cl","-cl-std=CL1.2","-target","x86_64-pc-linux-gnu","-Xclang","-finclude-default-header","-Xclang","-disable-llvm-passes","-O1","-fno-builtin","-w","-emit-llvm","-S",b+".cl","-o",b+".ll"])
        ll=open(b+".ll").read()
        names=re.findall(r"^define [^\n]*spir_kernel void @(\w+)\(",ll,re.M)
        # helper functions of the kernels are expanded in place
        ll=re.sub(r"^(define (?![^\n]*spir_kernel)[^\n]*?\)) (?=[^\n]*\{)",r"\1 alwaysinline ",ll,flags=re.M)
        ll=ll.replace("load volatile","load").replace("store volatile","store")     # volatile accesses mark the atomic operations below
        ll=ll.replace("spir_kernel ","").replace("spir_func ","")
        open(b+".ll","w").write(ll)
        sh(["opt-18","-S","-passes=always-inline",b+".ll","-o",b+".i.ll"])
        ll=open(b+".i.ll").read(); protos=[]; body=[]
        sig={}
        def fn(m):
            nm,ps,rest=m.group(2),m.group(3),m.group(4)
            if nm not in names: return m.group(0)
            tys=[p.strip().split()[0] for p in split(ps)]
            if any(t not in CT for t in tys): raise Bad(f"kernel {nm}: parameter types {tys}")
            sig[nm]=tys
            t=m.group(0)
            t=t.replace("("+ps+")","("+ps+(", " if ps.strip() else "")+"i64 %gid0, i64 %gid1, i64 %gid2)",1)
            t=re.sub(r"(%\S+ = )(?:tail )?call [^\n]*@_Z13get_global_idj\(i32 noundef (\d)\)[^\n]*",lambda k:f"{k.group(1)}add i64 %gid{k.group(2)}, 0",t)
            return t
        ll=re.sub(r"^(define [^\n]*?@(\w+)\(([^\n]*?)\)( [^\n]*\{\n.*?^\}))",lambda m:fn(m),ll,flags=re.M|re.S)
        open(b+".i.ll","w").write(ll)
        atom=set(re.findall(r"^declare i32 @(_Z\d+atom(?:ic)?_(\w+?)PU8CLglobalV?(?:ii|jj|j|i))\(",ll,re.M))
        for man,op in atom:
            if op not in ATOM: continue
            t="int" if man.endswith("i") else "unsigned"
            one=not man.endswith(("ii","jj"))
            body.append(f"{t} f_{op}{len(body)}(volatile {t}*p{'' if one else f',{t} v'}) __asm__(\"{man}\"); {t} f_{op}{len(body)}(volatile {t}*p{'' if one else f',{t} v'}){{ {t} o=*p; {ATOM[op]}; return o; }}")
        for nm,tys in sig.items():
            pl=", ".join(f"{CT[t]} a{i}" for i,t in enumerate(tys)); al=", ".join(f"a{i}" for i in range(len(tys)))
            body.append(f"void {nm}({pl}, unsigned long, unsigned long, unsigned long);")
            body.append(f"void __item_{nm}({pl}, unsigned long x, unsigned long y, unsigned long z){{ {nm}({al},x,y,z); }}")
            body.append(f"void __launch1_{nm}({pl}, unsigned long NX){{ for(unsigned long x=0;x<NX;++x) {nm}({al},x,0,0); }}")
            body.append(f"void __launch2_{nm}({pl}, unsigned long NX, unsigned long NY){{ for(unsigned long y=0;y<NY;++y) for(unsigned long x=0;x<NX;++x) {nm}({al},x,y,0); }}")
        open(b+".w.c","w").write("\n".join(body)+"\n")
        sh(["clang-18","-O1","-Xclang","-disable-llvm-passes","-fno-strict-aliasing","-w","-emit-llvm","-c",b+".w.c","-o",b+".w.bc"])
        sh(["opt-18",b+".i.ll","-passes=","-o",b+".bc"]) if False else sh(["llvm-as-18",b+".i.ll","-o",b+".bc"])
        out+=[b+".bc",b+".w.bc"]
    return out
def split(s):
    d=0; o=[]; c=""
    for ch in s:
        if ch=="(": d+=1
        if ch==")": d-=1
        if ch=="," and d==0: o.append(c); c=""
        else: c+=ch
    if c.strip(): o.append(c)
    return o
